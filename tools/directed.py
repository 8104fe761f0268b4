#!/usr/bin/env python3
"""Derives directed scenarios from the specification: every named deviation of
SkipMapImpl (Mut) is given to TLC, and the counterexample, if there is one,
becomes a scenario with a schedule in spec/directed.json, which every
exploration of the real code replays first on every map type. Run by hand when
the specification changes: tools/directed.py [deviation...]"""
import json, os, subprocess, sys, tempfile, time, shutil

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
OUT = os.path.join(SPEC, 'directed.json')

PAIRS = dict(Shape='S11', OpKinds='AllAll')
SEQ = dict(Shape='S21', OpKinds='CheckerUpd', OpKeys='{1}', InitKeys='{1}')
SEQ2 = dict(Shape='S21', OpKinds='CheckerUpd', OpKeys='{1, 2}', InitKeys='{2}', Lvls='{1, 2}')
OWN = dict(Shape='S21', OpKinds='OwnIns', OpKeys='{1}', InitKeys='{}')
TALL = dict(Shape='S11', OpKinds='InsIns', MaxLevel='5', Lvls='{4, 5}', InitKeys='{}')
# deviation -> families in which to look for a counterexample, in this order
PLAN = {m: [PAIRS, SEQ, SEQ2] for m in (
    'del_nofl del_nomark del_nonext del_nopredmark del_norecheck del_notop del_novlock fl_first found_nomark ins_nonext '
    'ins_nopredmark ins_nosuccmark link_down load_nofl load_nomark los_noresearch orig_fl orig_len orig_store range_nofl '
    'range_nomark unlink_up').split()}
PLAN['rl_nocas'] = PLAN['los_noresearch'] = [TALL]
PLAN['orig_fl'] = [OWN]


def cfg(m, fam):
    c = dict(MaxLevel='3', DefaultHL='3', MaxNodes='6', NKeys='2', OpKeys='{1, 2}', Lvls='{1, 2}', InitKeys='{1, 2}')
    c.update(fam)
    lines = ['SPECIFICATION Spec', 'CONSTANTS', ' Mut = {"%s"}' % m, ' Accept = TRUE', ' Scenarios <- AllScenarios']
    for k, v in c.items():
        lines.append(' %s %s %s' % (k, '<-' if v[0].isalpha() else '=', v))
    inv = 'Linearizable NoCrash Sorted Quiet LenNonNegative' + (' HlCovers' if fam is TALL else '')
    return '\n'.join(lines + ['INVARIANTS ' + inv, 'CHECK_DEADLOCK TRUE']) + '\n'


def attempt(m, fam, workers, timeout):
    d = tempfile.mkdtemp()
    try:
        open(d + '/m.cfg', 'w').write(cfg(m, fam))
        t = time.time()
        try:
            r = subprocess.run(['java', '-XX:+UseParallelGC', '-Xmx12g', '-cp', JAR, 'tlc2.TLC', '-config', d + '/m.cfg', '-workers',
                                str(workers), '-metadir', d + '/meta', '-noGenerateSpecTE', '-dumpTrace', 'json', d + '/t.json',
                                'MCImpl.tla'], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 'not finished', None
        o = r.stdout
        if 'No error has been found' in o:
            return 'equivalent here (%s)' % [l for l in o.splitlines() if 'distinct states' in l][-1].split(',')[1].strip(), None
        what = [l for l in o.splitlines() if 'is violated' in l or 'Deadlock' in l or l.startswith('Error')]
        if not os.path.exists(d + '/t.json'):
            return 'TLC: ' + '\n'.join(what), None
        tr = json.load(open(d + '/t.json'))
        return what[0].replace('Error: ', ''), scenario(m, tr)
    finally:
        shutil.rmtree(d)


def scenario(m, tr):
    st = tr['counterexample']['state'] if 'counterexample' in tr else tr['state']
    st = [s[1] if isinstance(s, list) else s for s in st]
    sc = st[0]['sc']
    seq = lambda x: x if isinstance(x, list) else [x[str(i)] for i in range(1, len(x) + 1)]
    sched = []
    for a, b in zip(st, st[1:]):
        ta, tb = seq(a['th']), seq(b['th'])
        ch = [i for i in range(len(ta)) if ta[i] != tb[i]]
        if len(ch) != 1:
            raise SystemExit('%s: %d threads move' % (m, len(ch)))
        sched.append(ch[0])
    prog = []
    for p in seq(sc['prog']):
        ops = []
        for o in seq(p):
            q = dict(kind=o['kind'])
            if o['kind'] not in ('range', 'len'):
                q['k'] = o['k']
            if o['v']:
                q.update(v=o['v'], lvl=o['lvl'])
            ops.append(q)
        prog.append(ops)
    return dict(name=m, nk=2, init=[dict(k=x['k'], v=x['v'], lvl=x['lvl']) for x in seq(sc['init'])], prog=prog, seed=1, sched=sched)


def main():
    todo = sys.argv[1:] or sorted(PLAN)
    old = {}
    if os.path.exists(OUT):
        old = {s['name']: s for s in json.load(open(OUT))}
    for m in todo:
        res = []
        for fam in PLAN[m]:
            what, s = attempt(m, fam, os.environ.get('WORKERS', '6'), int(os.environ.get('LIMIT', '1200')))
            res.append('%s: %s' % (fam['Shape'], what))
            if s:
                old[m] = s
                break
        print(m, '|', '; '.join(res), '|', len(s['sched']) if s else '', flush=True)
        json.dump([old[k] for k in sorted(old)], open(OUT, 'w'), indent=None)


main()
