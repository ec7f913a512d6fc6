"""P32: physical quantities and typed numbers. Specification Quantities.tla."""
from vlib.core import flat


def check(ctx):
    exe = ctx.build('quantities.cc', [], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    hs = ctx.histories('Quantities', '{[op |-> "prod", u |-> u, w |-> w, a |-> 6, b |-> 4] : u \\in 0..11, w \\in 0..11} \\cup {[op |-> "pow", u |-> u, a |-> a] : u \\in 0..11, a \\in {-3, 0, 1, 5}}'
                       ' \\cup {[op |-> "frac", u |-> u, a |-> a, b |-> b, s |-> 3] : u \\in 0..11, a \\in {-10, 0, 10, 11, 1024}, b \\in {0, 1, -1, 10, 11, 1014, 1034, 1013, 1035}}'
                       ' \\cup {[op |-> "strong", a |-> a, b |-> b] : a \\in -4..4, b \\in {-3, -1, 1, 2, 4}} \\cup {[op |-> "kmh", a |-> a, b |-> b] : a \\in {0, 1, 7, 99, 32767}, b \\in {0, 1, 3, 7, 32767}}', 1, inv=['Laws'])
    hs += [[{'op': 'lists'}], [{'op': 'consts'}]]
    for _ in range(3000 if ctx.thorough else 300):
        u, w = rng.randrange(12), rng.randrange(12)
        hs.append([{'op': 'prod', 'u': u, 'w': w, 'a': rng.randrange(-30000, 30000), 'b': rng.choice([1, 2, 3, 7, 1000, -5, -999, rng.randrange(1, 30000)])}])
        hs.append([{'op': 'pow', 'u': u, 'a': rng.randrange(-1000, 1000)}])
        a = rng.choice([rng.randrange(-10**6, 10**6), rng.randrange(-2000, 2000)])
        hs.append([{'op': 'frac', 'u': u, 'a': a, 'b': a + rng.choice([0, 10, 11, -10, -11, rng.randrange(-30, 30), rng.randrange(-10**6, 10**6)]), 's': rng.randrange(-900, 900)}])
        hs.append([{'op': 'strong', 'a': rng.randrange(-40000, 40000), 'b': rng.choice([-1, 1, rng.randrange(1, 40000), -rng.randrange(1, 40000)])}])
        hs.append([{'op': 'kmh', 'a': rng.randrange(0, 32767), 'b': rng.choice([0, 1, rng.randrange(0, 32767), rng.randrange(0, 400)])}])
        hs.append([{'op': 'convert', 'a': rng.randrange(-10**6, 10**6)}])
        hs.append([{'op': 'si', 'k': rng.choice([0, 1, rng.randrange(-2000, 2000), rng.randrange(-100000, 100000)])}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Quantities', events, parallel=8)
