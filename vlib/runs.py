"""What the checks of train runs have in common."""
import copy

from vlib import plan as vp
from vlib import tt

TYPES = ['ms', 'as', 'hlt', 'spl', 'ps', 'rtcp', 'rtcp_u', 'border', 'eotd', 'simple_switch', 'slope', 'tunnel']
SRC = tt.SRC + ['src/runtime/*.cc']


def spread(plan, factor=20):
    """the same plan with everything `factor` times as far apart, and without what the runs leave open:
    limits with a length, and several route-specific limits at one node"""
    for s in plan['secs']:
        for n in s['nodes']:
            n['km'] *= factor
            n['x'].pop('Laenge', None)
    plan['lines'] = [[nr, [[a * factor, b * factor, art] for a, b, art in segs]] for nr, segs in plan['lines']]
    for r in plan['routes']:
        seen = {}
        for e, x in r['spl']:
            x.pop('Laenge', None)
            seen.setdefault(e, x)
        r['spl'] = [[e, x] for e, x in seen.items()]
    return plan


def plans(ctx, n, **kw):
    kw.setdefault('spl', .2)
    kw.setdefault('ms', .2)
    kw.setdefault('stations', 6)
    kw.setdefault('steps', 2)
    kw.setdefault('width', 2)
    kw.setdefault('mids', 6)
    return [spread(p) for p in tt.networks(ctx, n, **kw)]


def tla_plan(plan):
    p = vp.tla_plan(plan)
    p['limits'] = [[n['id']] + vp.spl_values(n['x']) for s in plan['secs'] for n in s['nodes'][1:-1] if n['tag'].startswith('GeschwZ')]
    return p


def phys(plan, c):
    vs = []
    for s, o, v in c['vehicles']:
        x = next(y for t in plan['series'] if (t['nr'], t['company']) == (s, o) for y in t['variants'] if y['variant'] == v)
        vs.append({k: x[k] for k in ('weight', 'speed', 'res', 'curve')})
    return {'vs': vs, 'weight': c['weight'], 'len': c['len'], 'speed': c['speed']}


def subjects(l, t):
    """the loaded trains with what their files say"""
    by = tt.by_number(t)
    return [(x, by[tuple(x['number'])]) for x in l['trains']['trains']]


def types(rng):
    k = rng.choice([1, 2, 3, 4])
    ts = rng.sample(TYPES, k)
    if rng.random() < .6:
        ts = (['hlt', 'ms'] + [x for x in ts if x not in ('hlt', 'ms')])[:4]
    return ts


def timetable(rng, l):
    """trains that gain at most 2 m/s in a second"""
    t = tt.timetable(rng, l, l.plan['series'], trains=14, spoiled=0, longest=8)
    for f in t['files']:
        for e in f:
            for c in e['cts']:
                pull = 0
                for s, o, v in c['vehicles']:
                    x = next(y for q in l.plan['series'] if (q['nr'], q['company']) == (s, o) for y in q['variants'] if y['variant'] == v)
                    pull += max(p[2] for p in x['curve'])
                c['weight'] = max(c['weight'], pull // 2)
    t['types'] = types(rng)
    return t


def events(pairs, facts):
    evs = tt.events(pairs, facts)
    it = iter([l.plan for l, t in pairs if l.crashed or t is not None])
    out = []
    for e in evs:
        if e['op'] == 'new':
            p = next(it)
            e = dict(e, plan=tla_plan(p))
        out.append(e)
        if e['op'] == 'names':
            out.append({'op': 'ways', 'res': ['ok']})
    return out
