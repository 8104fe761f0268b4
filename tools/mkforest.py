"""Turns histories into the prefix-sharing forest that spec/TraceMon.tla reads."""
import json

def forest(hists, path, parents=False):
    """hists: list of dicts nk, m0, ev. Writes the forest; returns the number of
    nodes and, per line, one witness (history index, event index); with parents
    also the parent of every line and the last line of every history."""
    nodes = [None, None]           # 1-based; line 1 is the header
    roots = {}
    def new(d):
        nodes.append(d)
        return len(nodes) - 1
    root_ids = []
    # roots must be contiguous: create them first
    for h in hists:
        key = (h['nk'], tuple(h['m0']))
        if key not in roots:
            roots[key] = new({'nk': h['nk'], 'm0': h['m0'], 'ch': []})
            root_ids.append(roots[key])
    kids = [None] * len(nodes)
    for r in root_ids:
        kids[r] = {}
    witness = [None] * len(nodes)  # (history, event index)
    parent = [0] * len(nodes)
    leaf = []
    for hi, h in enumerate(hists):
        n = roots[(h['nk'], tuple(h['m0']))]
        for i, ev in enumerate(h['ev']):
            t = tuple(ev)
            c = kids[n].get(t)
            if c is None:
                c = new({'ev': ev, 'ch': []})
                kids.append({})
                witness.append((hi, i))
                parent.append(n)
                kids[n][t] = c
                nodes[n]['ch'].append(c)
            n = c
        leaf.append(n)
    with open(path, 'w') as f:
        f.write(json.dumps({'roots': len(root_ids), 'ch': []}) + '\n')
        for d in nodes[2:]:
            f.write(json.dumps(d, separators=(',', ':')) + '\n')
    if parents:
        return len(nodes) - 2, witness, parent, leaf
    return len(nodes) - 2, witness


def below(parent, rejected):
    """How many lines lie strictly below a rejected one."""
    cut = [False] * len(parent)
    n = 0
    for i in range(1, len(parent)):        # parents precede their children
        p = parent[i]
        if p and (cut[p] or p in rejected):
            cut[i] = True
            n += 1
    return n
