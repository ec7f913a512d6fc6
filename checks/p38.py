"""P38: the statistics of an infrastructure. Specification Attributes.tla."""
from vlib import attrs, plan as vp, tracks

TECHNIQUE = 'TLA+ specification of how many things a description lists; TLC judges the statistics the real code reports for ' \
            'generated descriptions'


def check(ctx):
    exe = ctx.build('infra.cc', __import__('vlib.infra', fromlist=['SRC']).SRC)
    plans = tracks.junctions(ctx) + tracks.random_plans(ctx, 600 if ctx.thorough else 150, routes=2, etcs=True)
    cmds = []
    for i, p in enumerate(plans):
        p.setdefault('series', [])
        p.setdefault('defaults', None)
        d = '%s/p%d' % (ctx.work, i)
        vp.write_iss(p, d, split=1 + i % 3)
        cmds.append({'op': 'stats', 'dir': d})
    evs = ctx.run_driver(exe, cmds)
    out = []
    for p, e in zip(plans, evs):
        out.append({'op': 'new', 'd': attrs.description(p), 'res': ['ok']})
        out.append({'op': 'count', 'got': e['res'][1], 'res': ['ok']} if e['res'][0] == 'ok' else {'op': 'count', 'got': {'sections': -1, 'stations': -1, 'total': -1, 'kinds': []}, 'res': e['res'][:1]})
    ctx.validate('Attributes', out, chunk=200)
