"""P28: sequence helpers. Specification Sequences2.tla."""
from vlib.core import flat


def check(ctx):
    exe = ctx.build('seqs.cc', [], ['-fsanitize=address,undefined'])
    hs = ctx.histories('Sequences2', '{[op |-> o, a |-> a, b |-> b] : o \\in {"pair"}, a \\in S, b \\in S}', 1,
                       defs='S == Seqs({1, 2, 5}, %d)\nLawInv == \\A i \\in 1..Len(h) : Laws(h[i].a, h[i].b)' % (4 if ctx.thorough else 3), inv=['LawInv'])
    cut = ctx.histories('Sequences2', '{[op |-> "cut", v |-> v, m |-> m, r |-> 1, from |-> f, to |-> t] : v \\in {[i \\in 1..Len(w) |-> w[i] + 10 * i] : w \\in Seqs({0, 1}, 4)},'
                        ' m \\in {2}, f \\in 0..5, t \\in {0, 1, 2, 3, 4, 5, 9}}', 1)
    cmds = [h[0] for h in hs]
    cmds += [dict(c, op='unsorted') for c in cmds]
    cmds += [h[0] for h in cut]
    rng = ctx.rng
    for _ in range(3000 if ctx.thorough else 250):
        n, m, k = rng.randrange(0, 40), rng.randrange(0, 40), rng.choice([3, 10, 60])
        a = [rng.randrange(-k, k) for _ in range(n)]
        b = [rng.randrange(-k, k) for _ in range(m)]
        if rng.random() < .5:
            a.sort()
            b.sort()
        cmds += [{'op': 'pair', 'a': a, 'b': b}]
        a, b = a[:24], b[:24]
        cmds += [{'op': 'unsorted', 'a': a, 'b': b}]
        v = [abs(x) for x in a]
        f = rng.randrange(0, len(v) + 3)
        cmds += [{'op': 'cut', 'v': v, 'm': rng.choice([1, 2, 3, 7, 50]), 'r': rng.choice([0, 0, 1, 2]), 'from': f, 'to': rng.choice([f, rng.randrange(0, len(v) + 4)])}]
    for _ in range(3000 if ctx.thorough else 400):
        k = rng.choice([4, 8, 40])
        sets = [sorted(rng.sample(range(k), rng.randrange(0, k + 1) if rng.random() < .7 else rng.choice([0, 1]))) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 8]))]
        cmds.append({'op': 'merge', 'sets': sets})
    if not ctx.thorough:
        cmds = [cmds[0]] + rng.sample(cmds, 4500)
    events = ctx.run_driver(exe, flat([[c] for c in cmds]))
    ctx.validate('Sequences2', events, parallel=8)
