"""P41: the simulation graph. Specification SimGraph.tla."""
import itertools

from vlib.core import flat

SRC = ['src/simulation/*.cc', 'src/infrastructure/**/*.cc', 'src/rolling_stock/*.cc', 'src/utls/*.cc', 'src/utls/**/*.cc', 'src/timetable/*.cc',
       'src/timetable/parsers/**/*.cc']
TECHNIQUE = 'TLA+ specification of the simulation graph (successors, readiness, paths, the later of two times); TLC checks its laws and ' \
            'enumerates small graphs, and judges the answers of the real code'


def edges(rng, n, k):
    return [[rng.randrange(n), rng.randrange(n)] for _ in range(k)]


def dist(rng):
    b = rng.choice([0, 6, 600, 1700000000])
    return [[b + rng.randrange(rng.choice([1, 10, 60])), rng.randrange(1, 13)] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]


def check(ctx):
    exe = ctx.build('simgraph.cc', SRC)
    rng = ctx.rng
    e2 = '{<<a, b>> : a \\in 0..%d, b \\in 0..%d}' % (5, 5)
    law = 'Promise == \\A i \\in 1..Len(h) : Laws(h[i])'
    # one and two trains with up to two (three) order edges
    hs = ctx.histories('SimGraph', '{[op |-> "paths", trains |-> 1, edges |-> e] : e \\in UNION {[1..n -> {<<a, b>> : a \\in 0..2, b \\in 0..2}] : n \\in 0..2}}',
                       1, inv=['Promise'], defs=law)
    hs += ctx.histories('SimGraph', '{[op |-> "paths", trains |-> 2, edges |-> e] : e \\in UNION {[1..n -> %s] : n \\in 0..2}}' % e2, 1, inv=['Promise'], defs=law)
    small = [h[0] for h in hs]
    out = list(hs)
    for c in small:
        if len(c['edges']) < 2 or rng.random() < (1 if ctx.thorough else .2):
            out.append([dict(c, op='graph')])
            n = 3 * c['trains']
            dones = [list(x) for k in range(n + 1) for x in itertools.combinations(range(n), k)]
            for d in dones if len(c['edges']) < 2 and n == 3 else rng.sample(dones, 6):
                out.append([dict(c, op='ready', done=d, entered=rng.sample(range(n), rng.randint(0, n)))])
    for _ in range(3000 if ctx.thorough else 300):
        t = rng.randint(1, 8)
        c = {'trains': t, 'edges': edges(rng, 3 * t, rng.choice([0, 1, t, 2 * t, 4 * t]))}
        out.append([dict(c, op='graph')])
        out.append([dict(c, op='paths')])
        # executing it: what is ready after every step
        done, h = [], []
        while True:
            h.append(dict(c, op='ready', done=list(done), entered=rng.sample(range(3 * t), rng.randint(0, 3 * t))))
            r = [n for n in range(3 * t) if n not in done and (n % 3 == 0 or n - 1 in done) and all(a in done for a, b in c['edges'] if b == n)]
            if not r:
                break
            done.append(rng.choice(r))
        out.append(h[::1 if len(h) < 6 else 3])
    out.append([{'op': 'graph', 'trains': 0, 'edges': []}])
    for _ in range(4000 if ctx.thorough else 400):
        out.append([{'op': 'later', 'a': dist(rng), 'b': dist(rng)}])
    ctx.validate('SimGraph', ctx.run_driver(exe, flat(out)), parallel=8)
