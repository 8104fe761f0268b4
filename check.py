#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough], or repeats a
recorded violation: check.py --replay FILE.

The package in /repo is compiled against stand-ins for sync, sync/atomic and
fastrand, so that the harness decides about every step of every goroutine; the
histories of the calls are written out and judged by the TLA+ specifications
in spec/ with TLC. Exit 0: every history judged is one the specification
allows; 1 with a VIOLATION line: one is not; other codes: no answer."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import mkforest

ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', GOWORK='off',
           HOME=os.environ.get('HOME', '/root'))
ENV.pop('GOOS', None); ENV.pop('GOARCH', None)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KINDS = ['', 'store', 'load', 'del', 'lad', 'los', 'lazy', 'range', 'len']
EVENTS = ['', 'call', 'return', 'visit', 'func-start', 'func-return', 'abort', 'callback-panics', 'STUCK', 'CRASH',
          'steps', 'alive-value', 'alive-keys']
NWORK = max(2, min(8, os.cpu_count() or 4))


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------- building ---------------------------------

def code_only(text):
    """Source text without comments and layout, to see which files changed."""
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    text = re.sub(r'//[^\n]*', ' ', text)
    return hashlib.sha256(' '.join(text.split()).encode()).hexdigest()


def focus():
    """Files of /repo whose code is not that of the baseline: they get more of
    the budget. This says nothing about any verdict."""
    try:
        base = json.load(open(os.path.join(VERIF, 'baseline.json')))
    except OSError:
        return []
    out = []
    for f, h in sorted(base.items()):
        try:
            if code_only(open(os.path.join(REPO, f)).read()) != h:
                out.append(f)
        except OSError:
            out.append(f)
    return out


def go(args, cwd, env=ENV, timeout=800):
    return subprocess.run(['go'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


class Build:
    """The harness compiled against one version of the package."""

    def __init__(self, scratch, name, src=None, shim=True, arch=None, tools=('explore', 'seq'), races=False):
        src = src or REPO
        self.dir = os.path.join(scratch, name)
        self.arch = arch
        shutil.copytree(os.path.join(VERIF, 'harness'), self.dir)
        env = dict(ENV)
        if arch:
            env['GOARCH'] = arch
        logs = []
        modes = [['-shim', '-extra'], ['-shim']] if shim else [[]]
        if races:
            modes = [m + ['-races'] for m in modes]
        plain = set()
        while modes:
            mode = modes.pop(0)
            shutil.rmtree(os.path.join(self.dir, 'impl'), ignore_errors=True)
            r = go(['run', './xform', '-src', src, '-dst', 'impl'] + mode, self.dir)
            if r.returncode:
                logs.append(r.stdout)
                continue
            ok = True
            for t in tools:
                r = go(['build', '-o', t + '.bin', './' + t], self.dir, env)
                if r.returncode:
                    logs.append(r.stdout)
                    ok = False
                    break
            if ok:
                self.plain = sorted(plain)
                return
            if races:
                # leave the accesses of files that do not compile unreported
                more = set(re.findall(r'^impl/(\w+\.go):', r.stdout, re.M)) - plain
                if more:
                    plain |= more
                    modes.insert(0, [m for m in mode if m != '-plain' and '.go' not in m] + ['-plain', ','.join(sorted(plain))])
        raise NoAnswer('cannot build the harness against %s:\n%s' % (src, '\n'.join(logs)[-4000:]))

    def tool(self, t):
        return os.path.join(self.dir, t + '.bin')


# ------------------------------ running -----------------------------------

class Found:
    """One history to be judged."""
    __slots__ = ('h', 'case', 'build', 'tool')

    def __init__(self, case, build, tool):
        self.h, self.case, self.build, self.tool = case['h'], case, build, tool


def run_workers(cmds, timeout, tolerate=()):
    ps = []
    for c in cmds:
        ps.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV))
    end = time.time() + timeout
    res = []
    for p in ps:
        try:
            o, e = p.communicate(timeout=max(1, end - time.time()))
            res.append((p.returncode, o, e))
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            res.append((-99, o, e))
    return res


def read_cases(path):
    out = []
    try:
        with open(path) as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass            # cut off
    except OSError:
        pass
    return out


def add(stats, st):
    for k, v in st.items():
        if isinstance(v, dict):
            d = stats.setdefault(k, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b
        elif isinstance(v, list):
            l = stats.setdefault(k, [0] * len(v))
            stats[k] = [a + b for a, b in zip(l, v)]
        elif k in ('systematic',):
            stats[k] = max(v, stats.get(k, 0))
        else:
            stats[k] = stats.get(k, 0) + v


def explore(b, prop, secs, seed, ctx, extra=()):
    """Histories of concurrent executions, and of executions that hung."""
    name = 'x-%s-%d' % (prop, len(ctx['stages']))
    outs = [os.path.join(b.dir, '%s.%d' % (name, i)) for i in range(NWORK)]
    cmds = [[b.tool('explore'), '-prop', prop, '-seed', str(seed), '-worker', str(i), '-of', str(NWORK),
             '-secs', str(secs), '-out', outs[i]] + list(extra) for i in range(NWORK)]
    f = ctx.get('focus')
    if f and len(f) <= 6:
        cmds = [c + ['-focus', ','.join(f)] for c in cmds]
    d = os.path.join(VERIF, 'spec', 'directed.json')
    if os.path.exists(d):
        cmds = [c + ['-directed', d] for c in cmds]
    res = run_workers(cmds, secs * 3 + 120)
    stats = {}
    found, hangs = [], []
    bad = []
    for i, (rc, o, e) in enumerate(res):
        if rc == 0:
            add(stats, json.loads(o.strip().splitlines()[-1]))
        elif rc == 7 and os.path.exists(outs[i] + '.hang'):
            hangs.append(json.load(open(outs[i] + '.hang')))
        else:
            bad.append('worker %d: exit %s\n%s' % (i, rc, e[-2000:]))
        found += [Found(c, b, 'explore') for c in read_cases(outs[i])]
        for x in (outs[i], outs[i] + '.hang'):
            if os.path.exists(x):
                os.remove(x)
    ctx['stages'].append(dict(stage='explore', prop=prop, build=os.path.basename(b.dir), **stats))
    return found, hangs, bad


def sequences(b, args, seed, ctx, timeout):
    name = 's-%d' % len(ctx['stages'])
    outs = [os.path.join(b.dir, '%s.%d' % (name, i)) for i in range(NWORK)]
    cmds = [[b.tool('seq'), '-seed', str(seed), '-worker', str(i), '-of', str(NWORK), '-out', outs[i]] + args
            for i in range(NWORK)]
    res = run_workers(cmds, timeout)
    stats, found, died = {}, [], []
    for i, (rc, o, e) in enumerate(res):
        if rc == 0:
            add(stats, json.loads(o.strip().splitlines()[-1]))
        else:
            cur = read_cases(outs[i] + '.cur')
            if not cur:
                raise NoAnswer('seq worker %d: exit %s\n%s' % (i, rc, e[-3000:]))
            c = cur[0]
            c['why'] = 'hangs' if rc == -99 else 'dies: ' + e[:600]
            died.append(Found(dict(c, h={'nk': 1, 'm0': [], 'ev': [[0, 9, 0, 0, 0, 0, 0, 0]]}), b, 'seq'))
        found += [Found(c, b, 'seq') for c in read_cases(outs[i])]
        for x in (outs[i], outs[i] + '.cur'):
            if os.path.exists(x):
                os.remove(x)
    ctx['stages'].append(dict(stage='seq', args=args, build=os.path.basename(b.dir), **stats))
    return found, died


# ------------------------------- judging ----------------------------------

def key_of(h):
    return json.dumps([h['nk'], h['m0'], h['ev']], separators=(',', ':'))


def judge(founds, spec, ctx, cap):
    """Lets TLC judge the histories; returns [(Found, index of the event)]."""
    seen, sus, rest = set(), [], []
    for f in founds:
        k = key_of(f.h)
        if k in seen:
            continue
        seen.add(k)
        (sus if f.case.get('sus') or f.case.get('why') else rest).append(f)
    sus.sort(key=lambda f: len(f.h['ev']))
    # a share of the suspicious ones is enough
    pick, n = [], 0
    for f in sus[:3000]:
        pick.append(f)
        n += len(f.h['ev'])
        if n > cap:
            break
    # crowds are beyond the quick reading: some of them before the rest
    crowds = [f for f in rest if f.case.get('first')]
    m, share = 0, cap // 3
    for f in crowds:
        if m > share:
            break
        pick.append(f)
        m += len(f.h['ev'])
    n += m
    ctx['crowds'] = ctx.get('crowds', 0) + m
    picked = {id(f) for f in pick}
    for f in rest:
        if n > cap:
            break
        if id(f) in picked:
            continue
        pick.append(f)
        n += len(f.h['ev'])
    ctx['distinct'] += len(seen)
    ctx['judged'] += len(pick)
    rejected = []
    chunk, size, start = [], 0, 0
    chunks = []
    for f in pick:
        chunk.append(f)
        size += len(f.h['ev'])
        if size > 900000:
            chunks.append(chunk)
            chunk, size = [], 0
    if chunk:
        chunks.append(chunk)
    for ch in chunks:
        rejected += tlc_forest(ch, spec, ctx)
    for f in pick:
        if f.tool == 'explore':
            s, r = bool(f.case.get('sus')), id(f) in ctx['marked']
            ctx['screen_only'] += s and not r
            ctx['missed_by_screen'] += r and not s
    ctx['marked'] = set()
    for f in pick[:2] + pick[len(pick) // 2:len(pick) // 2 + 2]:
        if len(ctx['samples']) < 8:
            ctx['samples'].append(dict(variant=f.case.get('var'), initial=f.h['m0'], history=describe(f)[:60]))
    return rejected


def tlc_forest(founds, spec, ctx, limit=None):
    limit = limit or (240 if ctx.get('quick', True) else 1200)
    d = tempfile.mkdtemp(dir=ctx['scratch'])
    path = os.path.join(d, 'traces.ndjson')
    n, witness, parent, leaf = mkforest.forest([f.h for f in founds], path, True)
    log = open(os.path.join(d, 'log'), 'w+')
    late = False
    try:
        subprocess.run(['java', '-XX:+UseParallelGC', '-Xmx10g', '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-config', spec + '.cfg',
                        '-workers', str(NWORK), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', spec + '.tla'],
                       cwd=os.path.join(VERIF, 'spec'), env=dict(ENV, TRACES=path), stdout=log,
                       stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired:
        late = True
    log.seek(0)
    o = log.read()
    log.close()
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', o)
    nodes = {int(x) for x in re.findall(r'<<"REJECTED", (\d+)>>', o)}
    if late:
        # some history has more explanations than can be listed: take what has
        # been rejected so far, and judge the small ones again
        small = [f for f in founds if f.h['nk'] <= 9]
        ctx['notes'].append('TLC was stopped after %d s; %d of %d histories judged again without the others'
                            % (limit, len(small), len(founds)))
        if not nodes:
            if len(small) == len(founds):
                raise NoAnswer('TLC does not finish')
            ctx['judged'] -= len(founds) - len(small)
            shutil.rmtree(d)
            return tlc_forest(small, spec, ctx, limit)
    elif 'No error has been found' not in o or not m:
        raise NoAnswer('TLC failed on the traces:\n' + o[-4000:])
    if not late:
        ctx['transitions'] += int(m.group(1))
        ctx['states'] += int(m.group(2))
    # every node must have been visited, unless it continues a rejected one
    below = mkforest.below(parent, nodes)
    if not late and int(m.group(2)) != n - below:
        raise NoAnswer('TLC visited %s of %d nodes (%d below rejected ones)' % (m.group(2), n, below))
    shutil.rmtree(d)
    if nodes:
        for f, x in zip(founds, leaf):
            while x and x not in nodes:
                x = parent[x]
            ctx['marked'].update([id(f)] if x else [])
    return [(founds[witness[x][0]], witness[x][1]) for x in sorted(nodes)]


# ----------------------------- attribution --------------------------------

def own(prop, e, k):
    """Is an event e of a call of kind k what prop is about?"""
    if prop == 'C05':
        return e[0] == 3 or e[0] == 2 and k == 'range'
    if prop == 'C06':
        return e[0] == 2 and k == 'len'
    if prop in ('C08', 'C18', 'C19'):
        return e[0] in (8, 10)
    if prop == 'C09':
        return e[0] in (8, 9)
    if prop == 'C13':
        return e[0] in (11, 12)
    return True


def attributed(prop, f, i):
    """Is the rejection of event i of this history one of prop?"""
    if f.tool != 'explore' or prop == 'C16':
        return True
    ev = f.h['ev']
    e = ev[i]
    k = {x[1]: KINDS[x[2]] for x in ev if x[0] == 1}.get(e[1], '')
    if not own(prop, e, k):
        return False
    if prop == 'C12':
        # a callback called the map or panicked
        sc = json.dumps(f.case.get('sc'))
        return '"nest"' in sc or '"boom"' in sc or any(x[0] in (6, 7) for x in ev[:i + 1])
    if (f.case.get('sc') or {}).get('name') == 'crowd' and e[0] in (2, 3) and e[1] <= f.case.get('calls', 0):
        # the results of all calls are part of these histories, C07 is about what follows
        return prop != 'C07'
    return True


def culprit(kind, rej, ctx):
    """The rejected histories that can be explained without the calls of this
    kind: then it is their results that do not fit."""
    rej = sorted(rej, key=lambda x: x[1])[:300]
    less = []
    for f, i in rej:
        ev = f.h['ev'][:i + 1]
        gone = {e[1] for e in ev if e[0] == 1 and KINDS[e[2]] == kind}
        if gone:
            g = Found(dict(f.case, h=dict(f.h, ev=[e for e in ev if e[1] not in gone])), f.build, f.tool)
            less.append((g, f, i))
    if not less:
        return []
    tlc_forest([g for g, _, _ in less], 'TraceMon', ctx)
    bad, ctx['marked'] = ctx['marked'], set()
    return [(f, i) for g, f, i in less if id(g) not in bad]


def describe(f, upto=None):
    out = []
    if f.tool == 'cost':
        names = {1: 'insertions of new keys', 2: 'Load', 3: 'Store of a present key', 4: 'LoadOrStore', 5: 'LoadOrStoreLazy',
                 6: 'Delete of an absent key', 7: 'Len', 8: 'FAILS: %s' % f.case.get('why'), 9: 'removals',
                 10: 'Range (for each key)'}
        n = 0
        for e in f.h['ev'][:upto]:
            n += {1: e[1], 9: -e[1]}.get(e[0], 0)
            out.append('%s, %s: %d calls take %.1f %s each, %d keys then' % (
                f.case.get('order'), names[e[0] % 20], e[1], e[2] / max(e[1], 1), 'comparisons' if e[0] > 20 else 'steps', n))
        return out
    if f.tool == 'seq':
        for e in f.h['ev'][:upto]:
            if e[1] == 9:
                out.append('CRASH or hang: %s' % f.case.get('why', ''))
                continue
            s = 'map%d %s' % (e[0], KINDS[e[1]])
            if e[2]:
                s += ' key#%d' % e[2] + ("'" * e[3])
            if e[1] == 7 and e[4]:
                s += ' stopping at visit %d' % e[4]
            elif e[4]:
                s += ' v%d' % e[4]
            s += ' -> ok=%d result=%d' % (e[5], e[6])
            if e[1] == 6:
                s += ' function runs=%d' % e[7]
            if len(e) > 8:
                s += ' visits ' + ' '.join("#%d%s:v%d" % (e[j], "'" * e[j + 1], e[j + 2]) for j in range(8, len(e) - 2, 3))
            out.append(s)
        return out
    if f.case.get('prop') == 'C16':
        sites = f.case.get('sites') or [''] * len(f.h['ev'])
        for e, s in zip(f.h['ev'][:upto], sites):
            out.append('goroutine %d %s place %d %s' % (e[1], ['', 'reads', 'writes', 'atomically reads', 'atomically writes',
                                                             'atomically updates', 'acquires', 'releases', 'starts'][e[0]], e[2],
                                                      '(%s)' % s if '.go:' in s or s in ('new', 'payload') else ''))
        return out
    for e in f.h['ev'][:upto]:
        s = EVENTS[e[0]]
        if e[0] == 1:
            s += ' #%d %s' % (e[1], KINDS[e[2]])
            if e[3]:
                s += ' key%d' % e[3]
            if e[4]:
                s += ' v%d' % e[4]
        elif e[0] == 2:
            s += ' #%d ' % e[1] + ('(result not looked at)' if e[6] else 'ok=%d value=%d' % (e[5], e[4]))
        elif e[0] == 3:
            s += ' #%d key%d v%d%s' % (e[1], e[3], e[4], ' stop' if e[5] else '')
        elif e[0] in (10, 11):
            s += ' #%d %d' % (e[1], e[4])
        elif e[0] == 12:
            s += ' key%d %d instances' % (e[3], e[4])
        else:
            s += ' #%d' % e[1] + (' v%d' % e[4] if e[4] else '')
        out.append(s)
    return out


def replay_case(f, ctx, tries=3, timeout=90):
    """Does the same execution give the same history again?"""
    path = os.path.join(ctx['scratch'], 'case.json')
    case = {k: v for k, v in f.case.items() if k != 'h'}
    if f.tool == 'seq':
        case['h'] = {'nk': 0, 'm0': [], 'ev': []}
    else:
        case['h'] = None
    json.dump(case, open(path, 'w'))
    want = key_of(f.h)
    for _ in range(tries):
        try:
            r = subprocess.run([f.build.tool(f.tool), '-replay', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired:
            if 'hang' in (f.case.get('why') or ''):
                return True
            continue
        if r.returncode != 0 and (f.case.get('why') or '').startswith('dies'):
            return True
        for line in r.stdout.splitlines():
            try:
                if key_of(json.loads(line)['h']) == want:
                    return True
            except ValueError:
                pass
    return False


# -------------------------------- the checks -------------------------------

CONC = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C13', 'C18', 'C19'}


def explore_and_judge(b, prop, secs, seed, ctx, cap):
    found, hangs, bad = explore(b, prop, secs, seed, ctx)
    out = []
    for h in hangs:
        ctx['hangs'] += 1
        if prop in ('C09', 'C08', 'C18', 'C19'):
            mine = prop == 'C09' or 'goroutine 1' in (h.get('why') or '')
            # the hanging execution, once more
            path = os.path.join(ctx['scratch'], 'hang.json')
            h['h'] = None
            json.dump(h, open(path, 'w'))
            ctx['hang_case'] = h
            if mine:
                out.append((Found(dict(h, h={'nk': 1, 'm0': [0], 'ev': [[8, 0, 0, 0, 0, 0, 0]]}), b, 'explore'), 0))
    if bad and not found and not hangs:
        raise NoAnswer('\n'.join(bad))
    if bad:
        ctx['notes'] += bad
    rej = judge(found, 'RaceMon' if prop == 'C16' else 'TraceMon', ctx, cap)
    mine = [(f, i) for f, i in rej if attributed(prop, f, i)]
    if prop in ('C05', 'C06') and not mine:
        mine = culprit({'C05': 'range', 'C06': 'len'}[prop], rej, ctx)
    out += mine
    ctx['other_rejections'] += len(rej) + len([h for h in hangs]) - len(out)
    return out


def seq_and_judge(b, args, seed, ctx, cap, timeout=400):
    found, died = sequences(b, args, seed, ctx, timeout)
    return judge(found + died, 'SeqMon', ctx, cap)


def regenerate(ctx):
    """A copy of /repo in which the generator has run."""
    d = os.path.join(ctx['scratch'], 'regen')
    os.mkdir(d)
    for n in os.listdir(REPO):
        p = os.path.join(REPO, n)
        if n != '.git' and os.path.isfile(p):
            shutil.copy(p, d)
    r0 = go(['build', './...'], d)
    if r0.returncode:
        raise NoAnswer('/repo does not build:\n' + r0.stdout[-3000:])
    for n in os.listdir(d):            # what the generator does not write must not survive
        if n.startswith('gen_') and n.endswith('.go') and 'Code generated by gen.go' in open(os.path.join(d, n)).read(300):
            os.remove(os.path.join(d, n))
    r = go(['run', 'gen.go'], d)
    if r.returncode == 0:
        r = go(['build', './...'], d)
    return d, (None if r.returncode == 0 else r.stdout)


def run(prop, tier, seed, ctx):
    quick = tier == 'quick'
    cap = 180000 if quick else 2500000
    S = ctx['scratch']
    if prop in CONC:
        b = Build(S, 'shim', tools=('explore',))
        rej = explore_and_judge(b, prop, 22 if quick else 420, seed, ctx, cap)
        if not rej:
            conformance(b, 200 if quick else 4000, seed, ctx)
        return rej
    if prop == 'C16':
        b = Build(S, 'races', tools=('explore',), races=True)
        if b.plain:
            ctx['notes'].append('accesses not reported by ' + ' '.join(b.plain))
        return explore_and_judge(b, prop, 20 if quick else 420, seed, ctx, cap)
    if prop == 'C10':
        b = Build(S, 'shim', tools=('seq',))
        rej = seq_and_judge(b, ['-random', '240' if quick else '3000', '-deep', '10' if quick else '100',
                                '-depth', '3', '-large', '1' if quick else '12'], seed, ctx, cap * 2)
        if rej:
            return rej
        p = Build(S, 'plain', shim=False, tools=('seq',))
        return seq_and_judge(p, ['-random', '400' if quick else '6000', '-depth', '2', '-large', '2' if quick else '12'],
                             seed + 1, ctx, cap * 2)
    if prop == 'C11':
        b = Build(S, 'shim', tools=('seq',))
        rej = seq_and_judge(b, ['-reps', '3', '-reponly', '-random', '900' if quick else '9000', '-depth', '3' if quick else '4',
                                '-large', '1' if quick else '6'], seed, ctx, cap * 2)
        if rej:
            return rej
        p = Build(S, 'plain', shim=False, tools=('seq',))
        return seq_and_judge(p, ['-reps', '3', '-reponly', '-random', '600' if quick else '9000', '-depth', '2', '-large', '1'],
                             seed + 1, ctx, cap * 2)
    if prop == 'C17':
        b = Build(S, 'shim', tools=('cost',))
        outs = [os.path.join(b.dir, 'cost.%d' % i) for i in range(NWORK)]
        res = run_workers([[b.tool('cost'), '-seed', str(seed), '-worker', str(i), '-of', str(NWORK), '-out', outs[i],
                            '-size', str(1 << (18 if quick else 20))] for i in range(NWORK)], 300 if quick else 3000)
        stats, found = {}, []
        for o, (rc, out, err) in zip(outs, res):
            if rc:
                raise NoAnswer('cost: exit %s\n%s' % (rc, err[-3000:]))
            add(stats, json.loads(out.strip().splitlines()[-1]))
            found += [Found(c, b, 'cost') for c in read_cases(o)]
        ctx['stages'].append(dict(stage='cost', **stats))
        return judge(found, 'CostMon', ctx, 1 << 30)
    if prop == 'C15':
        b = Build(S, 'shim386', arch='386')
        rej = seq_and_judge(b, ['-reps', '2', '-random', '240' if quick else '3000', '-deep', '5' if quick else '100',
                                '-large', '1' if quick else '6'], seed, ctx, cap * 2)
        if rej:
            return rej
        for q in ('C01', 'C12', 'C06'):
            rej = explore_and_judge(b, q, 6 if quick else 90, seed, ctx, cap // 2)
            if rej:
                return rej
        p = Build(S, 'plain386', shim=False, arch='386', tools=('seq',))
        return seq_and_judge(p, ['-reps', '2', '-random', '300' if quick else '4000', '-depth', '2', '-large', '1'],
                             seed + 1, ctx, cap)
    if prop == 'C14':
        src, err = regenerate(ctx)
        if err:
            ctx['violation_text'] = 'the regenerated package does not build:\n' + err
            return 'text'
        try:
            b = Build(S, 'regen-shim', src=src)
        except NoAnswer as e:
            # does the checked-in package build with the same harness?
            Build(S, 'shim', tools=('explore', 'seq'))
            ctx['violation_text'] = 'the regenerated package lacks what the package has:\n' + str(e)
            return 'text'
        rej = seq_and_judge(b, ['-reps', '3', '-core', '-random', '200', '-depth', '3'], seed, ctx, cap)
        if rej:
            return rej
        for q in ('C01', 'C09', 'C07', 'C05', 'C06', 'C04', 'C12', 'C08', 'C13', 'C03', 'C02'):
            rej = explore_and_judge(b, q, 6 if quick else 60, seed, ctx, cap // 4)
            if rej:
                return rej
        return []
    raise NoAnswer('no check for ' + prop)


def main():
    if sys.argv[1] == '--replay':
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    ctx = dict(scratch=scratch, stages=[], focus=focus(), states=0, transitions=0, distinct=0, judged=0, hangs=0,
               screen_only=0, missed_by_screen=0, other_rejections=0, notes=[], models=[], samples=[], marked=set())
    code = 0
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(4))
    try:
        rej = run(prop, tier, seed, ctx)
        if tier == 'thorough' and not rej:
            models(prop, seed, ctx)
        code = report(prop, tier, seed, rej, ctx)
        evidence(prop, tier, seed, ctx, rej, time.time() - t0)
    except NoAnswer as e:
        say('NO ANSWER: %s' % e)
        code = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def report(prop, tier, seed, rej, ctx):
    if not rej:
        say('%s: %d histories judged by the specification, %d states, no violation' % (prop, ctx['judged'], ctx['states']))
        return 0
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    if rej == 'text':
        json.dump({'property': prop, 'text': ctx['violation_text']}, open(path, 'w'), indent=1)
        say(ctx['violation_text'][-1500:])
        say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    rej = sorted(rej, key=lambda x: len(x[0].h['ev']))
    chosen = None
    for f, i in rej[:6]:
        if f.h['ev'][i][0] == 8 and f.h['ev'][i][1] == 0 and f.tool == 'explore' and len(f.h['ev']) == 1:
            ok = hang_again(f, ctx)
        elif f.build.dir.endswith(('plain', 'plain386')):
            ok = replay_case(f, ctx, tries=30)
        else:
            ok = replay_case(f, ctx)
        ctx['reproduced'] = ok
        if ok:
            chosen = (f, i)
            break
    if chosen is None:
        f, i = rej[0]
        if f.tool == 'explore':
            # the schedule decides everything; a history that does not come
            # back is not one to report (garbage collection, time, ...)
            ctx['notes'].append('rejected histories did not come back on replay')
            ctx['unreproduced'] = len(rej)
            say('NO ANSWER: %d rejected histories, none came back on replay' % len(rej))
            for l in describe(f, i + 1):
                say('   ' + l)
            raise NoAnswer('rejected histories did not come back on replay')
        chosen = (f, i)                # heights are drawn at random here
    f, i = chosen
    case = {k: v for k, v in f.case.items() if k != 'h'}
    doc = dict(property=prop, tier=tier, seed=seed, build=os.path.basename(f.build.dir), tool=f.tool, variant=f.case.get('var'),
               initial=f.h['m0'], history=describe(f, i + 1), rejected_event=describe(f, i + 1)[-1:], why=f.case.get('why'),
               case=case, h=f.h, events_rejected=len(rej),
               repeat='python3 %s --replay %s' % (os.path.join(VERIF, 'check.py'), path))
    json.dump(doc, open(path, 'w'), indent=1)
    say('history of %s, initial contents %s:' % (f.case.get('var'), f.h['m0']))
    for l in doc['history'][-40:]:
        say('   ' + l)
    say({'C16': '   ^ a data race', 'C17': '   ^ more than the specification grants'}.get(prop, '   ^ not possible for the specified map'), (' (%s)' % f.case['why'] if f.case.get('why') else ''))
    say('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def hang_again(f, ctx):
    case = dict(f.case, h=None)
    path = os.path.join(ctx['scratch'], 'hang.json')
    json.dump(case, open(path, 'w'))
    # no schedule is known of an execution that never ended; run the scenario
    try:
        subprocess.run([f.build.tool('explore'), '-prop', case['prop'], '-rescan', path], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=60, env=ENV)
    except subprocess.TimeoutExpired:
        return True
    return False


def replay_file(path):
    doc = json.load(open(path))
    if 'text' in doc:
        say(doc['text'])
        return 1
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        ctx = dict(scratch=scratch, stages=[])
        name = doc['build']
        src = None
        if name.startswith('regen'):
            src, err = regenerate(ctx)
            if err:
                say(err)
                return 1
        b = Build(scratch, name, src=src, shim='plain' not in name, arch='386' if '386' in name else None,
                  tools=(doc['tool'],), races=name == 'races')
        f = Found(dict(doc['case'], h=doc['h']), b, doc['tool'])
        again = replay_case(f, ctx, tries=30 if 'plain' in name else 3)
        for l in doc['history']:
            say('   ' + l)
        say('the same history came back' if again else 'another history came back')
        return 1 if again else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ----------------------- the specification itself --------------------------

def conformance(b, n, seed, ctx):
    """How many of n executions the model of the algorithm (SkipMapImpl)
    performs step by step. Says how far results about the model carry over to
    this tree; code that takes other steps is not wrong, so no verdict."""
    d = tempfile.mkdtemp(dir=ctx['scratch'])
    try:
        out = os.path.join(d, 'steps.ndjson')
        r = subprocess.run([b.tool('explore'), '-conform', str(n), '-seed', str(seed), '-out', out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=120, env=ENV)
        st = json.loads(r.stdout.strip().splitlines()[-1])
        r = subprocess.run(['java', '-XX:+UseParallelGC', '-Xmx4g', '-cp', JAR, 'tlc2.TLC', '-config', 'TraceImpl.cfg', '-workers',
                            str(NWORK), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', 'TraceImpl.tla'],
                           cwd=os.path.join(VERIF, 'spec'), env=dict(ENV, TRACES=out), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        agree = len(set(re.findall(r'<<"AGREES", (\d+)>>', r.stdout)))
        ctx['conformance'] = dict(model='SkipMapImpl', executions=st['executions'], steps=st['steps'], agree=agree)
        if 'No error has been found' not in r.stdout:
            ctx['conformance']['note'] = r.stdout[-600:]
    except Exception as e:
        ctx['conformance'] = dict(model='SkipMapImpl', note=str(e)[-600:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def models(prop, seed, ctx):
    """Thorough runs also check the specifications that bear on the property."""
    for m in json.load(open(os.path.join(VERIF, 'spec', 'models.json'))):
        if prop not in m['properties']:
            continue
        d = tempfile.mkdtemp(dir=ctx['scratch'])
        t = time.time()
        args = ['java', '-XX:+UseParallelGC', '-Xmx12g', '-cp', JAR, 'tlc2.TLC', '-config', m['cfg'], '-workers', str(NWORK),
                '-metadir', d, '-noGenerateSpecTE'] + [str(seed) if a == 'SEED' else a for a in m.get('args', [])] + [m['tla']]
        log = open(os.path.join(d, 'log'), 'w+')
        late = False
        try:
            subprocess.run(args, cwd=os.path.join(VERIF, 'spec'), env=ENV, stdout=log, stderr=subprocess.STDOUT,
                           timeout=m.get('timeout', 900))
        except subprocess.TimeoutExpired:
            late = True
        log.seek(0)
        o = log.read()
        log.close()
        num = lambda x: int(x.replace(',', ''))
        c = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', o)
        walks = re.findall(r'([\d,]+) states checked, ([\d,]+) traces generated', o)
        r = dict(cfg=m['cfg'], seconds=round(time.time() - t), finished=not late)
        if c:
            r.update(transitions=num(c[-1][0]), states=num(c[-1][1]))
        elif walks:
            r.update(transitions=num(walks[-1][0]), walks=num(walks[-1][1]))
        ctx['models'].append(r)
        done = 'No error has been found' in o or '-simulate' in m.get('args', []) and 'Error:' not in o
        if 'is violated' in o or 'was violated' in o or not late and not done:
            raise NoAnswer('%s fails on the model:\n%s' % (m['cfg'], o[-3000:]))
        shutil.rmtree(d, ignore_errors=True)


def evidence(prop, tier, seed, ctx, rej, wall):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov = dict(states=ctx['states'] + sum(m.get('states', 0) for m in ctx['models']),
               transitions=ctx['transitions'] + sum(m.get('transitions', 0) for m in ctx['models']),
               traces_validated_against_impl=ctx['judged'], distinct_histories=ctx['distinct'],
               samples=ctx['samples'], stages=ctx['stages'], models=ctx['models'],
               model_conformance=ctx.get('conformance'),
               screened_suspicious_but_allowed=ctx['screen_only'], rejected_but_not_suspicious=ctx['missed_by_screen'],
               rejections_of_other_properties=ctx['other_rejections'], files_in_focus=ctx['focus'], notes=ctx['notes'],
               exhaustive=False)
    doc = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 1),
               violations=len(rej) if rej else 0,
               assumptions=['the stand-ins for sync, sync/atomic and fastrand behave like the originals under sequential '
                            'consistency', 'accesses that are neither atomic nor locked are not scheduling points',
                            'histories beyond the programs, keys and schedules explored are not covered'])
    json.dump(doc, open(os.path.join(d, prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
