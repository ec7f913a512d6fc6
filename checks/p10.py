"""P10: which routes exclude each other, with any number of threads. Specification Interlocking.tla."""
import itertools

from vlib import infra, net

TECHNIQUE = 'TLA+ specification of the places a drive needs; TLC judges exclusion elements and the exclusion graph of the ' \
            'real code, computed with varying numbers of threads'


def facts(l):
    x = l['excl']
    yield net.names(l)
    yield {'op': 'closed', 'got': [[l.el(e) for e in r] for r in x['closed']]}, ['ok']
    yield {'op': 'open', 'got': [[l.el(e) for e in r] for r in x['open']]}, ['ok']
    yield {'op': 'conflicts', 'got': [[k + 1 for k in r] for r in x['graph']]}, ['ok']
    e = l['exported']
    yield {'op': 'exported', 'got': [[k + 1 for k in r] for r in e['lines']]}, ['ok' if e['rc'] == 0 else 'failed']
    e = l['refused']
    yield {'op': 'refused', 'written': e['written']}, ['ok' if e['rc'] == 0 else 'failed']


def check(ctx):
    exe = ctx.build('exclusion.cc', infra.SRC)
    plans = net.plans(ctx, 350 if ctx.thorough else 90) + net.quiet_plans(ctx, 4)
    threads = {i: {'threads': ctx.rng.choice([1, 2, 3, 4, 7, 8, 16])} for i in range(len(plans))}
    numbers, numbers_refused = itertools.count(), itertools.count()

    def exported(p):
        # load() writes the description of the i-th plan to p<i>; every other time as --flag=value
        i = next(numbers)
        d, out = '%s/p%d' % (ctx.work, i), '%s/out%d' % (ctx.work, i)
        args = ['--infra_path', d, '--output_path', out] if i % 2 else ['--output_path=' + out, '--infra_path=' + d]
        return {'op': 'exported', 'args': args, 'out': out, 'stale': i % 3 == 0}

    def refused(p):
        i = next(numbers_refused)
        d, out = '%s/p%d' % (ctx.work, i), '%s/no%d' % (ctx.work, i)
        args = [['--infra_path', d + '/missing', '--output_path', out], ['--infra_path', __file__, '--output_path', out],
                ['--infra_path', d], ['--output_path', out], []][i % 5]
        return {'op': 'refused', 'args': args, 'out': out}
    ls = infra.load(ctx, exe, plans, net.OPS + ['excl', exported, refused], new_opts=threads)
    ctx.extra['interlocking_routes'] = sum(len(l['irs']) for l in ls if not l.crashed)
    ctx.extra['exclusions'] = sum(len(r) for l in ls if not l.crashed for r in l['excl']['graph'])
    ctx.validate('NetFacts', infra.events(ls, facts), chunk=100)
