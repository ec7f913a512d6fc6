"""What the checks of the web server have in common."""
import json
import os
import random

from vlib import attrs, core, drawing, infra, orders, runs, tracks, tt
from vlib import plan as vp

WEB = 'web/server/'
SRC = orders.SRC + [WEB + 'src/modules/%s/*.cc' % m for m in ('infrastructure', 'timetable', 'search', 'ordering', 'tiles/osm_export')] + [
    WEB + 'src/modules/tiles/tiles_module.cc', WEB + 'src/soro_server.cc']
NAMES = ['Netz', 'de_iss', 'follow-1', 'small_opposite', 'X', '2024', 'a-b_C', 'hill', 'cross_eval']
OPS = ['elements', 'nodes', 'stations', 'routes', 'irs', 'indexes', 'excl', 'places']


def build(ctx):
    return ctx.build('server.cc', SRC, ['-DBOOST_BEAST_USE_STD_STRING_VIEW=1', '-include', core.VERIF + '/shim/server_prelude.h',
                                        '-I' + core.REPO + '/web/server/include'])


# ---------------------------------------------------------------- input
def networks(ctx, n):
    """plans, with names of every kind and pictures"""
    out = []
    for i, p in enumerate(runs.plans(ctx, n, stations=4, ms=.4, big=False)):
        rng = random.Random('served-%d-%d' % (ctx.seed, i))
        if i % 4 == 3:
            series, core_xml = p['series'], p['core_xml']
            p = drawing.net(rng, rng.randint(1, 7), i)
            p['series'], p['core_xml'] = series, core_xml
        keep = [list(map(list, segs)) for _, segs in p['lines']]
        series = p['series']
        p['series'] = []
        attrs.spice(rng, p)
        p['series'] = series
        p.pop('defaults', None)
        for (_, segs), k in zip(p['lines'], keep):
            segs[:] = k
        p['version'] = ['W', i + 1]
        p['xy'] = drawing.draw(rng, p)
        p['point'] = rng.random() < .2       # a picture of a single point
        if p['point']:
            for s in p['secs']:
                for n in s['nodes']:
                    if 'xy' in n:
                        n['xy'], n['xytext'] = (5000, 7000), ('5,0', '7')
        out.append(p)
    return out


def scenarios(ctx, exe, n, trains=0):
    """folders a server starts on: up to three infrastructures, timetables, coordinates"""
    plans = networks(ctx, n)
    first = infra.load(ctx, exe, plans, ['elements', 'nodes', 'routes', 'excl', 'stations', 'srg'])
    out = []
    i = 0
    k = 0
    while i < len(first):
        rng = random.Random('scene-%s-%d-%d' % (ctx.prop, ctx.seed, k))
        some = [l for l in first[i:i + rng.choice([1, 1, 2, 3])]]
        i += len(some)
        if any(l.crashed for l in some):
            continue                         # whether that may happen is not asked here
        root = '%s/s%d' % (ctx.work, k)
        k += 1
        for d in ('res/misc', 'res/osm', 'res/tiles', 'res/tmp', 'infra', 'tt'):
            os.makedirs(root + '/' + d, exist_ok=True)
        if rng.random() < .85:
            union = {'stations': [s for l in some for s in l.plan['stations']]}
            same = rng.choice([0, 0, .4, .4])
            if any(l.plan['point'] for l in some):
                same = rng.choice([.4, 1, 1])
            drawing.write_gps(rng, union, root + '/res/misc/btrs_geo.csv', 1 if same == 1 else rng.choice([.3, .6, .9, 1]), same)
        names = rng.sample(NAMES, len(some))
        sc = {'root': root, 'infras': {}, 'rng': rng}
        for nm, l in zip(names, some):
            l.plan['cliques'] = orders.cover(l['excl']['graph'], rng)
            if rng.random() < .1:
                l.plan.pop('cliques')
            vp.write_iss(l.plan, root + '/infra/' + nm, split=rng.choice([1, 2]))
            sc['infras'][nm] = {'plan': l.plan, 'l': l, 'tts': {}}
        if rng.random() < .3:
            open(root + '/infra/README', 'w').write('no infrastructure')
            open(root + '/tt/notes', 'w').write('no timetable')
        for nm, x in sc['infras'].items():
            for _ in range(rng.choice([1, 1, 2]) if trains else 0):
                t = orders.timetable(trains, crowd=.3)(rng, x['l'])
                if not any(t['files']):
                    continue
                name = rng.choice(['fp', 'night', 'T-1', '24_05', 'w']) + str(len(os.listdir(root + '/tt')))
                tt.write_kss(t, root + '/tt/' + name)
                x['tts'][name] = t
        out.append(sc)
    return out


# ---------------------------------------------------------------- what is asked
def targets(rng, sc, books):
    """questions about everything there is, and some that is not: [kind, infra, args, target]"""
    qs = [('infrastructures', '', [], '/infrastructures' + rng.choice(['', '/']))]
    some = list(sc['infras'])
    for nm in some + ['nowhere', some[0] + 'x', some[0][:-1] or 'y']:
        if nm in books:
            b = books[nm]
        elif nm in some:
            continue
        else:
            b = {'stations': [0], 'routes': [0], 'irs': [0], 'sets': [0], 'els': [0], 'tts': []}
        at = '/infrastructure/%s/' % nm
        qs.append(('bounding_box', nm, [], at + 'bounding_box' + rng.choice(['', '/'])))
        qs.append(('stations', nm, [], at + 'stations/'))
        qs.append(('timetables', nm, [], at + 'timetables' + rng.choice(['', '/'])))
        qs.append(('tiles', nm, ['1', '2', '3'], at + 'tiles/%d/%d/%d.mvt' % (rng.randint(0, 18), rng.randint(0, 9), rng.randint(0, 9))))
        for kind, key in (('station', 'stations'), ('station_route', 'routes'), ('interlocking_route', 'irs'), ('exclusion_sets', 'sets'), ('element', 'els')):
            n = len(b[key])
            ids = [str(k) for k in (range(n) if n <= 60 else rng.sample(range(n), 60))]
            ids += [str(n), str(n + 1), str(rng.randint(n, 10 ** 6)), '4294967295', '4294967296', '99999999999999999999999']
            if n:
                ids += ['0' + str(rng.randrange(n)), '00' + str(n - 1)]
            for a in ids:
                qs.append((kind, nm, [a], at + '%s/%s' % (kind, a)))
        for t in [t for x in sc['infras'].values() for t in x['tts']] + ['nosuch']:
            qs.append(('timetable', nm, [t], at + 'timetable/%s' % t + rng.choice(['', '/'])))
    for t in ('/', '/nothing', '/infrastructure', '/infrastructure/%s' % some[0], '/infrastructure/%s/station/' % some[0],
              '/infrastructure/%s/station/-1' % some[0], '/infrastructure/%s/station/x' % some[0], '/infrastructure/%s/stations' % some[0] + '/0',
              '/infrastructures/%s' % some[0], '/infrastructure/%s/element/1.5' % some[0]):
        qs.append(('other', '', [], t))
    return qs


# ---------------------------------------------------------------- answers
def leaf(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if v is None:
        return 'null'
    if isinstance(v, str):
        return "'" + v
    return str(v)


def text(v):
    if isinstance(v, dict):
        return '{' + ''.join('%s=%s;' % (k, text(v[k])) for k in sorted(v)) + '}'
    if isinstance(v, list):
        return '[' + ''.join(map(text, v)) + ']'
    return leaf(v)


def fraction(s):
    f = float(s)
    return int(round(f * 1e7)) if abs(f) < 1e12 else 'far'


class Repeated(Exception):
    pass


def once(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise Repeated
    return d


def parsed(body):
    """the JSON of a body; None if it is none"""
    def const(c):
        raise ValueError(c)
    try:
        return json.loads(body, parse_float=fraction, parse_constant=const, object_pairs_hook=once)
    except (ValueError, Repeated):
        return None


def answer(a):
    """[status, content type, body] in the form of the specification"""
    status, kind, body = a
    r = {'status': status, 'flat': '', 'lists': []}
    if status != 200:
        return r
    j = parsed(body) if kind == 'application/json' else None
    if isinstance(j, list):
        r['lists'] = [['', [text(x) for x in j]]]
    elif isinstance(j, dict):
        r['flat'] = text({k: v for k, v in j.items() if not isinstance(v, list)})
        r['lists'] = [[k, [text(x) for x in j[k]]] for k in sorted(j) if isinstance(j[k], list)]
    else:
        r['flat'] = 'not JSON: ' + body[:60]
    return r


def shown(a):
    """the answer to a question for an ordering graph"""
    status, kind, body = a
    r = {'status': status, 'nodes': [], 'edges': [], 'total': 0, 'longest': 0}
    if status != 200:
        return r
    j = parsed(body) if kind == 'application/json' else None
    try:
        r['nodes'] = [[n['key']] + [n['attributes'][k] for k in ('train', 'offset', 'relativeTrainId', 'route')] for n in j['nodes']]
        r['edges'] = [[e['source'], e['target']] for e in j['edges']]
        r['total'], r['longest'] = j['attributes']['totalTrains'], j['attributes']['maxTrainLength']
        if not all(isinstance(x, int) for n in r['nodes'] + r['edges'] + [[r['total'], r['longest']]] for x in n):
            raise TypeError
    except (TypeError, KeyError):
        r['status'] = -3                     # nothing that can be read
    return r


def book(name, g, tts):
    """what the server holds of an infrastructure; g: op -> answer"""
    nel = {n[0]: n[1] for n in g['nodes']}
    els = []
    for e, pos in zip(g['elements'], g['places']['elements']):
        d = e['data']
        p = e['ports'][0] if e['ports'] else ['', 0, 0]
        els.append({'t': e['t'], 'pos': pos, 'directed': e['class'][4], 'km': p[2] if e['class'][4] else 0, 'line': p[1] if e['class'][4] else 0,
                    'rising': bool(e['rising']),
                    'data': {'k': d['k'], 'name': d.get('name', ''), 'op': d.get('op', ''), 'ext': d.get('ext', ''), 'pass': bool(d.get('pass', False)),
                             'r': d.get('r', 0), 'f': d.get('f', 0), 'limit': d.get('limit') if d.get('limit') is not None else -1,
                             'signal': bool(d.get('signal', False)), 'poa': d.get('poa', '')}})
    return {'name': name, 'els': els,
            'stations': [{'name': s['name'], 'full': s['full'], 'els': s['elems'], 'routes': s['routes'], 'irs': q}
                         for s, q in zip(g['stations'], g['indexes']['st'])],
            'routes': [{'name': r['name'], 'st': r['st'], 'path': [nel[n] for n in r['nodes']]} for r in g['routes']],
            'irs': [{'srs': r['srs'], 'from': r['from'], 'to': r['to']} for r in g['irs']],
            'sets': g['excl']['sets'],
            'tts': [{'name': n, 'from': str(a[0] * 86400 + a[1]), 'to': str(b[0] * 86400 + b[1])} for n, (a, b) in sorted(tts.items())]}


def run(ctx, exe, scs, more):
    """starts every server twice: first to learn what it holds, then to ask what
    more(scenario, books) says; returns [(scenario, books or None, answers by op)]"""
    def ask(cmds):
        groups = []
        for e in ctx.run_driver(exe, cmds, timeout=600):
            if e['op'] == 'new':
                groups.append([])
            groups[-1].append(e)
        return groups
    cmds = []
    for sc in scs:
        cmds.append({'op': 'new', 'root': sc['root']})
        for nm, x in sc['infras'].items():
            cmds.append({'op': 'use', 'infra': nm})
            cmds += [{'op': o} for o in OPS]
            for t in x['tts']:
                cmds += [{'op': 'timetable', 'dir': '%s/tt/%s' % (sc['root'], t), 'try': True}, {'op': 'trains'}, {'op': 'usages'}]
    held = ask(cmds)
    cmds = []
    use = []
    for sc, g in zip(scs, held):
        bad = next((e for e in g if e['res'][0] != 'ok'), None)
        if bad:
            use.append((sc, None, bad))
            continue
        it = iter(g[1:])
        books = {}
        sc['trains'] = {}
        for nm, x in sc['infras'].items():
            next(it)
            ans = {o: next(it)['res'][1] for o in OPS}
            sc.setdefault('held', {})[nm] = ans
            tts = {}
            for t in x['tts']:
                r, a, u = next(it)['res'][1], next(it)['res'][1], next(it)['res'][1]
                if r == 'read':
                    tts[t] = (a['from'], a['to'])
                    sc['trains'][nm, t] = (a['trains'], u)
            books[nm] = book(nm, ans, tts)
        c = more(sc, books)
        cmds.append({'op': 'new', 'root': sc['root']})
        cmds += c
        use.append((sc, books, c))
    told = iter(ask(cmds))
    out = []
    for sc, books, c in use:
        if books is None:
            out.append((sc, None, [c]))
        else:
            out.append((sc, books, next(told)))
    return out


def start(sc, books, got):
    """the events every history begins with; None if the server did not start"""
    evs = [{'op': 'new', 'root': os.path.basename(sc['root']), 'res': ['ok']}]
    bad = next((e for e in got if e['res'][0] != 'ok'), None)
    if books is None or bad is not None:
        evs.append({'op': 'serves', 'what': bad['op'], 'res': [bad['res'][0]]})
        return evs, False
    for nm in books:
        evs.append({'op': 'offer', 'book': books[nm], 'res': ['ok']})
    return evs, True
