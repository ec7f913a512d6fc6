"""Plans used by the checks of the infrastructure."""
import json
import os
import random

from vlib import plan as vp

BARE = {'interlocking': False, 'exclusions': False, 'ex_elements': False, 'ex_graph': False}


def random_plans(ctx, n, **kw):
    out = []
    for i in range(n):
        rng = random.Random('%s-%d-%d' % (ctx.prop, ctx.seed, i))
        k = dict(kw)
        big = k.pop('big', True)
        if i % 7 == 3:
            k.setdefault('stations', 1)
        elif i % 7 == 5:
            k.setdefault('stations', 5)
            k.setdefault('steps', 4)
        if i % 3 == 0:
            k.setdefault('etcs', True)
        if i == 1 and n >= 60 and big:      # a large network
            k.update(stations=12, steps=5, routes=20)
        out.append(vp.random_plan(rng, **k))
    return out


def junctions(ctx):
    """every junction of one element, as enumerated by TLC from Junctions.tla"""
    cache = None
    hs = ctx.histories('Junctions', 'Recipes', 1)
    recipes = [h[0] for h in hs]
    if not ctx.thorough and len(recipes) > 400:
        recipes = ctx.rng.sample(recipes, 400)
    # several junctions share one description: each in a station of its own
    out = []
    per = 8
    for i in range(0, len(recipes), per):
        out.append(junction_plan(recipes[i:i + per], random.Random('%d-%d' % (ctx.seed, i))))
    ctx.extra['junctions'] = len(recipes)
    return out


MID = {'S': 'HauptsignalS', 'F': 'VorsignalF', 'U': 'Tunnel', 's': 'HalteplatzRzBeideS', 'f': 'HalteplatzRzBeideF'}
PTAG = {'simple_switch': {'start': 'Weichenanfang', 'stem': 'Weichenstamm', 'branch': 'WeichenabzweigLinks'},
        'line_switch': {'a': 'Streckenwechsel0', 'b': 'Streckenwechsel1'},
        'km_jump': {'a': 'KmSprungAnfang', 'b': 'KmSprungEnde'},
        'cross': {'sl': 'KreuzungAnfangLinks', 'el': 'KreuzungEndeLinks', 'sr': 'KreuzungAnfangRechts', 'er': 'KreuzungEndeRechts'}}


def junction_plan(recipes, rng):
    plan = {'stations': [], 'secs': [], 'lines': [], 'version': ['J', 1]}
    ids = list(range(1, 4000))
    rng.shuffle(ids)
    line = [0]
    for k, r in enumerate(recipes):
        kind = r['kind']
        if kind == 'border':
            add_border(plan, r, k, ids, line, rng)
            continue
        st = {'name': 'J%d' % k, 'secs': [], 'routes': []}
        plan['stations'].append(st)
        main = ids.pop()
        secs = []
        for p in r['ports']:
            secs.append(one_section(plan, ids, line, rng, len(plan['stations']) - 1, r['up'][p], r['mids'][p],
                                    port_node(kind, p, main, r, ids)))
        rng.shuffle(secs)
        for s in secs:
            st['secs'].append(len(plan['secs']))
            plan['secs'].append(s)
    plan['lines'] = [[i, [[0, 99000000, 1]]] for i in sorted({s['line'] for s in plan['secs']})]
    return vp.finish(plan)


def port_node(kind, p, main, r, ids):
    tag = PTAG[kind][p]
    n = {'tag': tag, 'main': main, 'id': main if vp.PORTS[tag][2] else ids.pop(), 'x': {}}
    if kind == 'cross' and r['arcs'] != 'plain':
        n['tag'] = tag.replace('Kreuzung', 'Kreuzungsweiche')
        n['arc'] = (p in ('sl', 'er') and r['arcs'] in ('lr', 'both')) or (p in ('sr', 'el') and r['arcs'] in ('rl', 'both'))
    if tag == 'Weichenanfang':
        n['x']['Name'] = 'W'
    return n


def one_section(plan, ids, line, rng, st, up, mids, node, ln=None, km=None):
    """a section from a junction's port to the end of the track"""
    if ln is None:
        line[0] += 1
        ln = line[0]
    if km is None:
        km = vp.Q * rng.randint(300000, 600000)
    node['km'] = km
    sign = 1 if up else -1
    step = vp.Q * rng.randint(1, 500)
    kms = [km + sign * step * (i + 1) for i in range(len(mids) + 1)]
    ms = []
    for c, k in zip(mids, kms):
        ms.append({'id': ids.pop(), 'tag': MID[c], 'km': k, 'x': {'Name': 'x'}})
    rng.shuffle(ms)
    e = ids.pop()
    end = {'id': e, 'main': e, 'tag': rng.choice(['Prellbock', 'Gleisende']), 'km': kms[-1], 'x': {}}
    return {'line': ln, 'st': st, 'nodes': [node] + ms + [end] if up else [end] + ms + [node]}


def add_border(plan, r, k, ids, line, rng):
    a, b = 'A%d' % k, 'B%d' % k
    sign = ids.pop()
    line[0] += 1
    ln = line[0]
    km = vp.Q * rng.randint(300000, 600000)
    for name, other, p in ((a, b, 'a'), (b, a, 'b')):
        up = r['up'][p]
        st = {'name': name, 'secs': [], 'routes': []}
        plan['stations'].append(st)
        e = ids.pop()
        node = {'id': e, 'main': e, 'tag': 'Betriebsstellengrenze', 'partner': other, 'sign': sign, 'x': {}}
        s = one_section(plan, ids, line, rng, len(plan['stations']) - 1, up, r['mids'][p], node, ln, km)
        st['secs'].append(len(plan['secs']))
        plan['secs'].append(s)
