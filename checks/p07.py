"""P07: the interlocking offers every signal-to-signal drive once. Specification Interlocking.tla."""
from vlib import infra, net

TECHNIQUE = 'TLA+ specification of drives between stop locations over the network of station routes; TLC compares the ' \
            'set of all drives with the interlocking routes the real code generates'


def facts(l):
    yield net.names(l)
    yield {'op': 'drives'}, ['ok']
    yield {'op': 'dense'}, [r['id'] for r in l['irs']]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = net.plans(ctx, 500 if ctx.thorough else 130) + net.quiet_plans(ctx, 4)
    ls = infra.load(ctx, exe, plans, net.OPS, opts=dict(exclusions=False, ex_elements=False, ex_graph=False))
    ctx.extra['interlocking_routes'] = sum(len(l['irs']) for l in ls if not l.crashed)
    ctx.validate('NetFacts', infra.events(ls, facts), chunk=150)
