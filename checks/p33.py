"""P33: polynomials and piecewise functions. Specification Maths.tla."""
from vlib.core import flat


def pieces(rng):
    n = rng.choice([1, 2, 3, 5])
    cuts = sorted(rng.sample(range(0, 90), n + 1))
    fr = [c * 128 for c in cuts[:-1]]
    to = [c * 128 for c in cuts[1:]]
    if rng.random() < .4 and n > 1:
        i = rng.randrange(1, n)
        fr[i] += rng.choice([1, 10, 11, 128, -1, -10, -11, -128])
    xs = sorted({x for c in cuts for x in (c - 1, c, c + 1)} | {rng.randrange(cuts[0], cuts[-1] + 3) for _ in range(5)})
    xs = [x for x in xs if x >= cuts[0]]
    return {'op': 'piecewise', 'from': fr, 'to': to, 'cs': [[rng.randrange(-20, 21) for _ in range(3)] for _ in range(n)], 'xs': xs}


def check(ctx):
    exe = ctx.build('maths.cc', [], ['-fsanitize=address,undefined', '-UNDEBUG'])
    rng = ctx.rng
    hs = ctx.histories('Maths', '{[op |-> "poly", a |-> a, xs |-> <<-16, -8, -3, 0, 1, 8, 16, 24>>] : a \\in UNION {[1..n -> {-2, 0, 1, 3}] : n \\in 1..4}}'
                       ' \\cup {[op |-> "typed", a |-> a, xs |-> <<-8, 0, 1, 8, 16>>] : a \\in [1..3 -> {-2, 0, 1, 3}]} \\cup {[op |-> "none"]}'
                       ' \\cup {[op |-> "two", a |-> <<1, 2, 3, 4>>, gap |-> g] : g \\in {-11, -10, -1, 0, 1, 10, 11, 200}}', 1)
    for _ in range(3000 if ctx.thorough else 400):
        n = rng.randrange(1, 5)
        hs.append([{'op': 'poly', 'a': [rng.randrange(-20, 21) for _ in range(n)], 'xs': [rng.randrange(-80, 81) for _ in range(6)]}])
        hs.append([{'op': 'typed', 'a': [rng.randrange(-20, 21) for _ in range(3)], 'xs': [rng.randrange(-80, 81) for _ in range(6)]}])
        hs.append([pieces(rng)])
        hs.append([{'op': 'two', 'a': [rng.randrange(-20, 21) for _ in range(4)], 'gap': rng.choice([0, 10, -10, 11, -11, rng.randrange(-500, 500)])}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Maths', events, parallel=8)
