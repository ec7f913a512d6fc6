"""P08: an interlocking route is one seamless path. Specification Interlocking.tla."""
from vlib import infra, net
from vlib import plan as vp

TECHNIQUE = 'TLA+ specification of an interlocking route as a sequence of nodes; TLC judges iterations, parts, sizes and ' \
            'containment the real code reports'


def facts(l):
    yield net.names(l)
    yield {'op': 'records'}, ['ok', [dict(size=r['size'], first=l.nd(r['first']), last=l.nd(r['last']),
                                          srs=[k + 1 for k in r['srs2']], ends=[k + 1 for k in r['firstsr'] + r['lastsr']],
                                          ms=r['ms']) for r in l['irs']]]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = net.plans(ctx, 400 if ctx.thorough else 80, spl=0.2, mids=6)
    opts = dict(exclusions=False, ex_elements=False, ex_graph=False)
    ls = infra.load(ctx, exe, plans, net.OPS, opts=opts)
    rng = ctx.rng
    cmds, asked = [], []
    for i, l in enumerate(ls):
        if l.crashed:
            continue
        I, R = l['irs'], l['routes']
        some = rng.sample(range(len(I)), min(len(I), 24))
        long = sorted(range(len(I)), key=lambda k: -len(I[k]['srs']))[:6]
        some = sorted(set(some + long))
        parts, cont, foll = [], [], []
        for k in some:
            r = I[k]
            span = []
            for j, s in enumerate(r['srs']):
                a = r['from'] if j == 0 else 0
                b = r['to'] if j == len(r['srs']) - 1 else R[s]['size']
                span += [(s, x, b) for x in range(a, b)]
            for _ in range(3):
                x, y = sorted([rng.randrange(len(span)), rng.randrange(len(span))])
                # to: one past the node y
                parts.append([k, span[x][0], span[x][1], span[y][0], span[y][1] + 1])
            for s in rng.sample(r['srs'], min(3, len(r['srs']))) + [rng.randrange(len(R))]:
                cont.append([k, s])
            ends = [q['id'] for q in I if q['last'] == r['first']]
            for q in rng.sample(ends, min(2, len(ends))) + [k, rng.randrange(len(I))]:
                foll.append([k, q])
        cmds += [dict({'op': 'new', 'dir': '%s/p%d' % (ctx.work, i)}, **opts), {'op': 'ir_walks', 'q': some},
                 {'op': 'ir_parts', 'q': parts}, {'op': 'ir_contains', 'q': cont}, {'op': 'ir_follows', 'q': foll}]
        asked.append((l, some, parts, cont, foll))
    evs = ctx.run_driver(exe, cmds)
    groups = []
    for e in evs:
        if e['op'] == 'new':
            groups.append([])
        groups[-1].append(e)
    out = infra.events(ls, facts)
    for (l, some, parts, cont, foll), g in zip(asked, groups):
        out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
        bad = next((e for e in g if e['res'][0] != 'ok'), None)
        if bad:
            out.append({'op': 'loads', 'res': [bad['res'][0]]})
            continue
        a = {e['op']: e['res'][1] for e in g if e['op'] != 'new'}
        ev, res = net.names(l)
        out.append(dict(ev, res=res))
        for n in range(0, len(some), 12):
            out.append({'op': 'walks', 'q': [[k + 1, net.walk(l, w[0])] for k, w in list(zip(some, a['ir_walks']))[n:n + 12]], 'res': ['ok']})
        out.append({'op': 'pieces', 'q': [k + 1 for k in some],
                    'res': ['ok', [[[s + 1, x, y] for s, x, y in w[1]] for w in a['ir_walks']]]})
        ps = [[k + 1, [s1 + 1, i1], [s2 + 1, i2], net.walk(l, f), net.walk(l, t), net.walk(l, ft)]
              for (k, s1, i1, s2, i2), (f, t, ft) in zip(parts, a['ir_parts'])]
        for n in range(0, len(ps), 12):
            out.append({'op': 'parts', 'q': ps[n:n + 12], 'res': ['ok']})
        out.append({'op': 'contains', 'q': [[k + 1, s + 1] for k, s in cont], 'res': ['ok', [x[:-1] for x in a['ir_contains']]]})
        out.append({'op': 'follows', 'q': [[x + 1, y + 1] for x, y in foll], 'res': ['ok', a['ir_follows']]})
    ctx.validate('NetFacts', out, chunk=120)
