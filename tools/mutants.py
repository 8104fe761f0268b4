"""Which invariants of SkipMapImpl break under each named deviation (Mut).

usage: mutants.py OUT.json [workers] [MUT...]
Runs TLC on the MCImpl_pairs family (MCImpl_levels and MCImpl_panic where that
shows nothing) once per deviation with every invariant, and again without the ones found
broken, until none is left.
"""
import json, os, re, subprocess, sys, tempfile, shutil
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MUTS = sorted(set(re.findall(r'M\("(\w+)"\)', open(os.path.join(SPEC, 'SkipMapImpl.tla')).read())) | {'del_nopredmark', 'ins_nopredmark'})


def run(mut, base, drop, workers):
    cfg = open(os.path.join(SPEC, 'MCImpl_%s.cfg' % base)).read()
    cfg = re.sub(r'Mut = \{\}', 'Mut = {"%s"}' % mut, cfg)
    out = []
    mode = None
    for w in cfg.split('\n'):
        if re.match(r'\s*CHECK_DEADLOCK', w):
            w = 'CHECK_DEADLOCK ' + ('FALSE' if 'Deadlock' in drop else 'TRUE')
        out.append(' '.join(x for x in w.split(' ') if x not in drop))
    cfg = '\n'.join(out)
    if re.search(r'INVARIANTS?\s*(PROPERT|CHECK)', cfg):
        cfg = re.sub(r'INVARIANTS?\s*(?=PROPERT|CHECK)', '', cfg)
    cfg = re.sub(r'PROPERTIES\s*(?=CHECK)', '', cfg)
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'm.cfg')
    open(p, 'w').write(cfg)
    r = subprocess.run(['java', '-XX:+UseParallelGC', '-Xmx6g', '-cp', JAR, 'tlc2.TLC', '-config', p, '-workers', workers,
                        '-metadir', d, '-noGenerateSpecTE', 'MCImpl.tla'], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d)
    o = r.stdout
    m = re.search(r'Invariant (\w+) is violated', o) or re.search(r'(?:Action|Temporal) propert\w+ (\w+) (?:is|was) violated', o)
    n = len(re.findall(r'^State \d+', o, re.M))
    if m:
        return m.group(1), n
    if 'Deadlock reached' in o:
        return 'Deadlock', n
    if 'No error has been found' in o:
        return None, 0
    m = re.search(r'line (\d+).*?of module SkipMapImpl', o)
    return 'evaluation: ' + (re.findall(r'Error: (.*)', o) or ['?'])[0][:80], n


def main():
    out, workers = sys.argv[1], (sys.argv[2:] or ['4'])[0]
    res = {}
    for mut in sys.argv[3:] or MUTS:
        base, broken, lens = ('panic' if mut == 'orig_panic' else 'pairs'), [], {}
        while True:
            inv, n = run(mut, base, broken, workers)
            if inv is None and not broken and base == 'pairs':
                base = 'levels'
                continue
            if inv is None or inv in broken or inv.startswith('evaluation'):
                if inv:
                    broken.append(inv)
                break
            broken.append(inv)
            lens[inv] = n
        res[mut] = dict(family=base, broken=broken, steps=lens)
        print(mut, base, broken, flush=True)
        json.dump(res, open(out, 'w'), indent=1)


if __name__ == '__main__':
    main()
