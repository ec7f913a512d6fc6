"""P39: elements, lines, rolling stock and stations carry what their description
says. Specification Attributes.tla."""
import random

from vlib import attrs, infra, plan as vp, tracks, tt

TECHNIQUE = 'TLA+ specification of what a description says of elements, lines, stations and rolling stock; TLC judges what the real ' \
            'code reports of generated descriptions'


def data(d, e):
    """[id, kind, texts, numbers] of what the driver reports of an element"""
    k = d['k']
    if k == 'ms':
        return [k, [d['name']], []]
    if k == 'eotd':
        return [k, [], [int(d['signal'])]]
    if k == 'slope':
        return [k, [], [d['r'], d['f']]]
    if k == 'halt':
        return [k, [d['name'], d['op'], d['ext']], [int(d['pass']), int(d['left']), int(d['right'])]]
    if k == 'spl':
        return [k, [d['type'], d['poa'], d['effects']],
                [-1 if d['limit'] is None else d['limit'], -1 if d['len'] is None else d['len'], int(d['calc']), e(d['e']), d['n']]]
    if k == 'switch':
        return [k, [d['name'], d['label']], []]
    return ['', [], []]


def none(x):
    return -1 if x is None else x


def questions(rng, p):
    qs = []
    for nr, segs in p['lines']:
        kms = [segs[0][0] - 5000, segs[-1][1] + 70000] + [k for s in segs for k in ((s[0] + s[1]) // 2, s[0] + 1, s[1] - 1)]
        qs += [[nr, k] for k in rng.sample(kms, min(4, len(kms)))]
    found = [[s['nr'], s['company'], v['variant']] for s in p['series'] for v in s['variants']]
    found += [[s['nr'], s['company'], 77] for s in p['series']] + [[s['company'], s['nr'], 1] for s in p['series']] + [['1', '1', 1]]
    return qs, found


def facts(l, qs, found):
    p = l.plan
    both = {n['id'] for s in p['secs'] for n in s['nodes'] if 'RzBeide' in n['tag']}
    # elements with nodes, to name the node of a speed limit by its element
    out = []
    places = []
    for e in l['elements']:
        if e['t'] == 'meta':
            continue
        me = l.lab[e['id']]
        k, texts, nums = data(e['data'], l.el)
        if k == 'halt' and me in both:
            nums = nums[:1]
        if k == 'spl':
            nums[4] = l.nd(nums[4])
        out.append({'id': me, 'kind': k, 'texts': texts, 'numbers': nums})
        if e['class'][2]:
            places.append([me, e['ports'][0][1], none(e['ports'][0][2])])
    yield {'op': 'data'}, ['ok', out]
    yield {'op': 'places'}, ['ok', places]
    m = l['meta']
    yield {'op': 'lines'}, ['ok', [[x[0], x[2]] for x in m['lines'] if x[0] == x[1]]]
    yield {'op': 'signalling', 'q': qs}, l.a['signalling']
    yield {'op': 'stock'}, ['ok', l['stock']['variants']]
    yield {'op': 'series'}, ['ok', l['stock']['series']]
    yield {'op': 'found', 'q': found}, ['ok', l['stock']['found']]
    yield {'op': 'defaults'}, ['ok', [none(x) for x in m['defaults']]]
    yield {'op': 'version'}, ['ok', m['version']]
    yield {'op': 'names'}, ['ok', [[s['name'], s['full'], none(s['byname'])] for s in l['stations']]]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.random_plans(ctx, 500 if ctx.thorough else 110, routes=4, spl=.25, dup=0)
    asked = []
    for i, p in enumerate(plans):
        rng = random.Random('%s-x-%d-%d' % (ctx.prop, ctx.seed, i))
        p['series'] = tt.stock(rng, 4)
        attrs.spice(rng, p)
        p['core_xml'] = tt.stock_xml(p['series'], p['defaults'])
        asked.append(questions(rng, p))
    it = {id(p): a for p, a in zip(plans, asked)}
    ls = infra.load(ctx, exe, plans, ['elements', 'nodes', 'stations', 'meta', lambda p: {'op': 'signalling', 'q': it[id(p)][0]},
                                      lambda p: {'op': 'stock', 'q': it[id(p)][1]}], opts=tracks.BARE,
                    new_opts={i: {'file': True} for i in range(0, len(plans), 5)})
    evs = []
    for l in ls:
        evs.append({'op': 'new', 'd': attrs.description(l.plan), 'res': ['ok']})
        if l.crashed:
            evs.append({'op': 'version', 'res': l.crashed[1][:1] + [[]]})
            continue
        for ev, res in facts(l, *it[id(l.plan)]):
            evs.append(dict(ev, res=res))
    ctx.extra['elements'] = sum(len(e['res'][1]) for e in evs if e['op'] == 'data')
    ctx.validate('Attributes', evs, chunk=120)
