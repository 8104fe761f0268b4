"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TM = 'TLA+ trace validation: TLC judges histories of the real code, run under a controlled scheduler, against the abstract map (TraceMon/MapOps)'
SM = 'TLA+ trace validation: TLC judges call sequences recorded from the real code against the sequential sorted map (SeqMon/MapOps)'
T = {}
N = {}
for c in 'C01 C02 C03 C04 C05 C06 C07 C09'.split():
    T[c] = TM
T['C08'] = TM + '; readers run alone from every prefix of a schedule, or against endless updates'
T['C18'] = TM + '; calls on a key of their own run alone from every prefix of a schedule of updates of other keys, or against endless ones'
T['C19'] = TM + '; updates run alone from every prefix of a schedule of updates of keys far away, or against endless ones'
T['C12'] = TM + '; callbacks that call the map or panic'
T['C13'] = TM + '; the objects the garbage collector keeps are events of the history'
T['C10'] = SM
T['C11'] = SM + ', keys with several representations'
T['C16'] = ('TLA+ trace validation: TLC judges the memory accesses of executions of the real code against a vector clock specification of the '
            'Go memory model (RaceMon)')
T['C17'] = 'TLA+ trace validation: TLC judges the steps that calls of the real code take on growing maps (CostMon)'
T['C14'] = 'the same TLA+ trace validation (SeqMon and TraceMon) of the package regenerated from the template'
T['C15'] = 'the same TLA+ trace validation (SeqMon and TraceMon) of a GOARCH=386 build'
base = ('Every history judged is exactly one the specification allows; the histories come from the real code, compiled unchanged against '
        'stand-ins for sync, sync/atomic and fastrand. ')
conc = base + ('Bounded: programs of 1-4 goroutines with 1-3 calls each on up to 5 keys, all single and many multiple preemptions at every '
               'atomic or lock step, sequential consistency; plain accesses are not scheduling points. The design-level model is checked in the thorough tier.')
seq = base + 'Bounded: all short call sequences on two keys and random long ones on up to 1000 keys, all constructors and many key and value types.'
for c in T:
    N[c] = seq if c in ('C10', 'C11') else conc
N['C14'] = base + 'Both the sequential and the concurrent explorations run on the package the generator writes in a scratch copy.'
N['C15'] = base + 'Run as 32-bit code, including a check that 64-bit atomics are aligned; the 386 build stands for all 32-bit targets.'
N['C13'] += ' Relies on weak pointers being cleared by a full garbage collection.'
N['C16'] = ('Every plain or atomic access to memory that two goroutines share is recorded by instrumented copies of the sources; one execution stands '
            'for all that order its unsynchronized accesses differently. Bounded: programs of 1-3 goroutines with 1-3 calls each, up to 4 keys. '
            'copy, append and range over slices are not instrumented.')
N['C17'] = ('Up to 2^18 keys (2^20 thorough) in eleven orders on all constructors; the heights come from the code\'s own generator fed with random bits. '
            'Bounds have a margin of 1.6 over growth like log n.')
doc = dict(version=1, setup_cmd='bash setup.sh',
           checks=[dict(property=c, quick_cmd='python3 check.py %s quick' % c, thorough_cmd='python3 check.py %s thorough' % c,
                        evidence_file='evidence/%s.json' % c, technique=T[c], level='model_checking', level_note=N[c])
                   for c in sorted(T)],
           not_applicable=[],
           notes='No hooks in /repo: the package is copied and its imports are redirected at check time.')
json.dump(doc, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
