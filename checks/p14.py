"""P14: running trains along an ordering graph. Specification Dispatch.tla."""
import concurrent.futures as cf
import json
import os

from vlib import core, infra, net, orders, plan as vp, runs, tt

TECHNIQUE = 'TLA+ model of trains claiming and releasing routes along the ordering graphs built by the real code; TLC explores all ' \
            'interleavings (random ones of large graphs), with the exclusions the specification derives from the plan'

LIMIT = 15000


def size(g, cap):
    """in how many ways the trips can stand, at most cap"""
    n = len(g['nodes'])
    need = [sum({1 << x for x in a[3] if 0 <= x < n}) for a in g['nodes']]
    seen = {(0, 0)}
    front = [(0, 0)]
    while front and len(seen) < cap:
        h, d = front.pop()
        for i in range(n):
            b = 1 << i
            if h & b:
                s = (h & ~b, d | b)
            elif not d & b and need[i] & d == need[i]:
                s = (h | b, d)
            else:
                continue
            if s not in seen:
                seen.add(s)
                front.append(s)
    return len(seen)


def explore(ctx, parts, cfg, args):
    text = '---- MODULE D ----\nEXTENDS Dispatch\n====\n'

    def one(part):
        fn = os.path.join(ctx.work, 'cases-%s.ndjson' % part[0]['graphs'][0]['number'])
        with open(fn, 'w') as f:
            for x in part:
                f.write(json.dumps(x) + '\n')
        rc, out, gen, dist = ctx.tlc('D', text, cfg, args=args, env={'CASES': fn}, workers='1', timeout=800)
        if rc != 0:
            raise core.CheckError('TLC failed on Dispatch (rc %d)\n%s' % (rc, out[-4000:]))
        core.log('Dispatch: %d graphs, %d states' % (sum(len(x['graphs']) for x in part), dist))
        return [json.loads(json.loads(x)[1:]) for x in out.split('\n') if x.startswith('"V[')], gen, dist
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, parts))


def deal(nets, number, k):
    """k parts of about the same size"""
    parts = [[0, []] for _ in range(k)]
    for x in sorted(nets, key=lambda x: -sum(g['size'] for g in x['graphs'])):
        p = min(parts, key=lambda p: p[0])
        p[0] += 2000 + sum(g['size'] for g in x['graphs'])
        p[1].append(x)
    return [p[1] for p in parts if p[1]]


def check(ctx):
    exe = ctx.build('orders.cc', orders.SRC)
    plans = runs.plans(ctx, 360 if ctx.thorough else 100, stations=4, ms=.4, big=False)
    limit = LIMIT * (10 if ctx.thorough else 1)
    ls = orders.loaded(ctx, exe, plans, 7, net.OPS + [orders.queries(ctx.rng, 10, small=True)], crowd=.2)
    core.log('loaded')
    small, large = [], []
    by = {}
    for l, t, _ in ls:
        if l.refused:
            continue
        if l.tt_crash:
            if l.tt_crash == 'orders':
                ctx.violate('graph', 'building the ordering graph fails: %s' % (l.a['orders'],), {'timetable': t})
            continue
        paths = {x['id']: x['path'] for x in l['trains']['trains']}
        n, _ = net.names(l)
        got = ([], [])
        for q, r in zip(l.asked, l['orders']):
            if not r['ok']:
                ctx.violate('graph', 'there is no ordering graph', {'timetable': t, 'question': q})
                continue
            g = r['got']
            if len(g['trips']) < 2 or any(x[0] not in paths for x in g['trips']):
                continue
            y = {'number': len(by) + 1, 'size': size(g, limit), 'nodes': [[a[1], a[3], a[4]] for a in g['nodes']], 'trips': [[a[2], a[3], paths[a[0]]] for a in g['trips']]}
            if y['nodes'] in [z['nodes'] for k in got for z in k]:
                continue
            by[y['number']] = (q, g, l, t)
            got[0 if y['size'] < limit else 1].append(y)
        for k, where in zip(got, (small, large)):
            if k:
                where.append({'plan': vp.tla_plan(l.plan), 'irs': n['irs'], 'ids': n['ids'], 'graphs': k[:4]})
    exact = explore(ctx, deal(small, 0, 8), 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Watch\nCONSTRAINT Sound\n', [])
    for x in large:
        for g in x['graphs']:
            g['size'] = len(g['nodes']) * 100
    walks = explore(ctx, deal(large, 0, 8), 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Watch\nCONSTRAINT Sound\n',
                    ['-simulate', 'num=%d' % (400 if ctx.thorough else 40), '-depth', '400', '-seed', str(ctx.seed)])
    seen = set()
    for bad, gen, dist in exact + walks:
        ctx.states += dist
        ctx.transitions += gen
        for number, faults, done, held in bad:
            if number in seen:
                continue
            seen.add(number)
            q, g, l, t = by[number]
            ctx.violate(faults[0][0], 'Dispatch: %s, when %s are given back and %s are held, by the graph of %s: %s' % (
                faults, sorted(done), sorted(held), q, core.trim(g)), {'graph': g, 'question': q, 'plan': l.plan, 'timetable': t})
    ns = [g for x in small for g in x['graphs']]
    nl = [g for x in large for g in x['graphs']]
    ctx.traces += len(ns) + len(nl)
    ctx.events += sum(len(g['nodes']) for g in ns + nl)
    ctx.samples.append(core.trim(ns[:2]))
    ctx.extra.update({'graphs_explored_exhaustively': len(ns), 'graphs_walked_at_random': len(nl), 'most_nodes': max(len(g['nodes']) for g in ns + nl),
                      'most_trips_explored': max(len(g['trips']) for g in ns)})
    print('explored %d, walked %d' % (len(ns), len(nl)))
