"""P09: the indexes of the interlocking. Specification Interlocking.tla."""
from vlib import infra, net

TECHNIQUE = 'TLA+ specification of the indexes as relations between places and routes; TLC judges every index of the ' \
            'real code'


def table(x, off):
    return [[i + off, [k + 1 for k in v]] for i, v in enumerate(x) if v]


def facts(l):
    x = l['indexes']
    yield net.names(l)
    yield {'op': 'dense'}, [r['id'] for r in l['irs']]
    yield {'op': 'indexes', 'got': {'start': table(x['start'], 0), 'end': table(x['end'], 0), 'halt': table(x['halt'], 0),
                                    'sr': table(x['sr'], 1), 'st': table(x['st'], 1)}}, ['ok']


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = net.plans(ctx, 500 if ctx.thorough else 120, mids=6)
    ls = infra.load(ctx, exe, plans, net.OPS + ['indexes'], opts=dict(exclusions=False, ex_elements=False, ex_graph=False))
    ctx.validate('NetFacts', infra.events(ls, facts), chunk=150)
