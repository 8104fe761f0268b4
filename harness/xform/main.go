// Command xform copies the non-test sources of a package to another directory
// and, with -shim, redirects its imports of sync, sync/atomic, fastrand (and
// runtime, time if asked) to the stand-ins that the scheduler controls.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":                               "sync skipmapverif/xsync",
	"sync/atomic":                        "atomic skipmapverif/xatomic",
	"github.com/zhangyunhao116/fastrand": "fastrand skipmapverif/xrand",
}

type edit struct {
	from, to int
	text     string
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "xform:", err)
		os.Exit(3)
	}
}

func ignored(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err == nil && !x.Eval(func(tag string) bool { return tag != "ignore" }) {
					return true
				}
			}
		}
	}
	return false
}

func main() {
	src := flag.String("src", "/repo", "package directory")
	dst := flag.String("dst", "", "output directory")
	shim := flag.Bool("shim", false, "redirect imports")
	extra := flag.Bool("extra", false, "redirect runtime and time too")
	races := flag.Bool("races", false, "report accesses to memory")
	plain := flag.String("plain", "", "files whose accesses to memory are not reported")
	flag.Parse()
	if *extra {
		shims["runtime"] = "runtime skipmapverif/xruntime"
		shims["time"] = "time skipmapverif/xtime"
	}
	fatal(os.MkdirAll(*dst, 0o755))
	skip := map[string]bool{}
	for _, n := range strings.Split(*plain, ",") {
		skip[n] = true
	}
	ents, err := os.ReadDir(*src)
	fatal(err)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var texts [][]byte
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		text, err := os.ReadFile(filepath.Join(*src, n))
		fatal(err)
		f, err := parser.ParseFile(fset, n, text, parser.ParseComments)
		fatal(err)
		if ignored(f) {
			continue
		}
		files, names, texts = append(files, f), append(names, n), append(texts, text)
	}
	r := &racer{}
	if *races {
		r.info, r.pkg = typecheck(fset, files)
	}
	for i, f := range files {
		text := texts[i]
		if *shim {
			es := edits(fset, f, text)
			if *races && !skip[names[i]] {
				text = (&racer{fset: fset, info: r.info, pkg: r.pkg}).file(f, text, es)
			} else {
				text = apply(text, es)
			}
		}
		fatal(os.WriteFile(filepath.Join(*dst, names[i]), text, 0o644))
	}
}

func edits(fset *token.FileSet, f *ast.File, text []byte) []edit {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		s, ok := shims[path]
		if !ok {
			continue
		}
		name, to, _ := strings.Cut(s, " ")
		if im.Name != nil {
			name = im.Name.Name
		}
		es = append(es, edit{off(im.Pos()), off(im.End()), name + " " + strconv.Quote(to)})
	}
	gos := false
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			gos = true
			es = append(es, edit{off(g.Pos()), off(g.Call.Pos()), "vsverif.Go(func() { "},
				edit{off(g.End()), off(g.End()), " })"})
		}
		return true
	})
	if gos {
		p := off(f.Name.End())
		es = append(es, edit{p, p, "\n\nimport vsverif \"skipmapverif/vs\"\n"})
	}
	return es
}

func apply(text []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].from > es[j].from })
	for _, e := range es {
		text = append(text[:e.from:e.from], append([]byte(e.text), text[e.to:]...)...)
	}
	return text
}
