"""P45: the map the web server draws its tiles from. Specification OsmMap.tla."""
from vlib import server

TECHNIQUE = 'TLA+ specification of the map of an infrastructure: what is drawn where and joined with what; TLC judges the maps the ' \
            'real server writes'


def check(ctx):
    exe = server.build(ctx)
    scs = server.scenarios(ctx, exe, 200 if ctx.thorough else 48)

    def more(sc, books):
        return [{'op': 'map', 'infra': nm} for nm in books]
    evs = []
    points = 0
    for sc, books, got in server.run(ctx, exe, scs, more):
        es, fine = server.start(sc, {} if books is not None else None, got)
        if not fine:
            evs += [dict(es[0], m=0)] + es[1:]
            continue
        for nm, e in zip(books, [e for e in got if e['op'] == 'map']):
            h = sc['held'][nm]
            evs.append({'op': 'new', 'root': es[0]['root'], 'infra': nm, 'res': ['ok'],
                        'm': {'els': [{'t': x['t'], 'pos': p, 'rising': bool(x['rising']), 'st': x['st'], 'neigh': [n for n in x['neigh'] if n is not None]}
                                      for x, p in zip(h['elements'], h['places']['elements'])],
                              'stations': [{'name': x['name'], 'pos': p} for x, p in zip(h['stations'], h['places']['stations'])]}})
            m = e['res'][1]
            points += len(m['nodes'])
            evs.append({'op': 'map', 'got': {'ok': m['ok'], 'nodes': [n[:3] + [sorted(map(list, n[3].items()))] + n[4:] for n in m['nodes']],
                                             'ways': [w[:2] + [sorted(map(list, w[2].items()))] for w in m['ways']]}, 'res': ['ok']})
    ctx.extra['servers'] = len(scs)
    ctx.extra['nodes of the maps'] = points
    ctx.validate('OsmMap', evs, chunk=60)
