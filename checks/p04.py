"""P04: station routes are the paths their descriptions define. Specification RouteFacts.tla."""
from vlib import infra, tracks

TECHNIQUE = 'TLA+ specification of a route as a walk over the track plan decided by its course; TLC judges the routes ' \
            'the real code builds from generated descriptions'


def n0(x):
    return -1 if x is None else x


def station(x):
    return 0 if x is None else x + 1


def facts(l):
    R = l['routes']
    yield {'op': 'routes'}, ['ok', [dict(
        name=r['name'], st=station(r['st']), to=station(r['to']), start=l.el(r['start']), end=l.el(r['end']),
        nodes=[l.nd(n) for n in r['nodes']], size=r['size'], ms=r['ms'], es=r['es'], ee=r['ee'], omit=r['omit'],
        freight=n0(r['freight']), rtcp=n0(r['rtcp']), passn=l.nd(r['passn']), rtcpn=l.nd(r['rtcpn']), attr=r['attr'],
        elec=r['elec'], kind=r['kind'], etcs=bool(r['etcs']), ispath=r['ispath'], len=n0(r['len']),
        **{'from': station(r['from']), 'pass': n0(r['pass'])}) for r in R]]
    yield {'op': 'limits', 'spl': [[[l.el(s['e']) if s['n'] is not None and l.nd(s['n']) == l.el(s['e']) else -5, n0(s['limit']),
                                     s['poa'], n0(s['len']), s['effects']] for s in r['spl']] for r in R]}, ['ok']
    S = l['stations']
    yield {'op': 'station_routes'}, ['ok', [[s['id'] + 1, n, k + 1] for s in S for n, k in s['routes']]]
    yield {'op': 'station_starts'}, ['ok', [[s['id'] + 1, l.el(e), k + 1] for s in S for e, ks in s['e2r'] for k in ks]]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.random_plans(ctx, 600 if ctx.thorough else 140, routes=12, etcs=True)
    ls = infra.load(ctx, exe, plans, ['elements', 'nodes', 'routes', 'stations'], opts=tracks.BARE)
    ctx.extra['station_routes'] = sum(len(p['routes']) for p in plans)
    ctx.validate('RouteFacts', infra.events(ls, facts), chunk=150)
