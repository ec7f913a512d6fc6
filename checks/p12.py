"""P12: exclusion groups attached to an infrastructure. Specification Interlocking.tla."""
import os

from vlib import infra, net
from vlib import plan as vp

TECHNIQUE = 'TLA+ specification of groups of mutually exclusive routes; TLC judges what the real code reports of the ' \
            'groups given with generated infrastructures'


def groups_of(graph, rng, n):
    adj = [set(r) for r in graph]
    out = []
    for _ in range(n):
        start = rng.randrange(len(adj))
        if start not in adj[start]:
            continue
        c, cand = [start], set(x for x in adj[start] if x in adj[x]) - {start}
        want = rng.choice([1, 2, 3, 5, 50])
        while cand and len(c) < want:
            x = rng.choice(sorted(cand))
            c.append(x)
            cand &= adj[x]
            cand.discard(x)
        rng.shuffle(c)
        if not any(set(c) == set(o) for o in out):
            out.append(c)
    return out


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = net.plans(ctx, 250 if ctx.thorough else 70)
    ls = infra.load(ctx, exe, plans, net.OPS + ['excl'])
    again, cmds = [], []
    for i, l in enumerate(ls):
        if l.crashed:
            continue
        g = groups_of(l['excl']['graph'], ctx.rng, ctx.rng.choice([1, 3, 8, 20]))
        d = '%s/p%d' % (ctx.work, i)
        with open(os.path.join(d, 'exclusion_sets'), 'w') as f:
            f.write(''.join(' '.join(map(str, c)) + '\n' for c in g))
        cmds += [{'op': 'new', 'dir': d}, {'op': 'excl'}]
        again.append((l, g))
    evs = [e for e in ctx.run_driver(exe, cmds) if e['op'] == 'excl']
    out = infra.events([l for l in ls if l.crashed], lambda l: [])
    for (l, g), e in zip(again, evs):
        out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
        if e['res'][0] != 'ok':
            out.append({'op': 'loads', 'res': [e['res'][0]]})
            continue
        ev, res = net.names(l)
        out.append(dict(ev, res=res))
        out.append({'op': 'fair', 'given': g, 'res': ['ok']})
        out.append({'op': 'groups', 'given': g, 'got': e['res'][1]['sets'], 'of': e['res'][1]['ofir'], 'n': len(l['irs']), 'res': ['ok']})
    ctx.extra['groups'] = sum(len(g) for _, g in again)
    ctx.validate('NetFacts', out, chunk=100)
