module skipmapverif

go 1.24

require github.com/zhangyunhao116/fastrand v0.3.0
