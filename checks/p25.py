"""P25: discrete probability distributions. Specification Dpd.tla."""
from vlib.core import flat

DEFS = '''Kept == \\A k \\in 0..5 : Mass(st[k]) = MapThenSumSet(LAMBDA i : h[i].p, {i \\in 1..Len(h) : h[i].op \\in {"ins", "ins2"} /\\ h[i].kind = k})'''


def history(rng):
    kind = rng.randrange(6)
    two = kind >= 3
    g = 1 if kind == 2 else 6
    base = rng.choice([0, 0, 100, 40000]) if kind == 2 else rng.choice([0, 0, 6, 600, 3601, 1700000000])
    span = rng.choice([2, 10, 60])
    vbase = rng.choice([0, 3, 50])
    vspan = rng.choice([1, 5, 20])
    h, ts, ps = [], [], 0
    for _ in range(rng.choice([1, 2, 4, 8, 20])):
        t = base + rng.randrange(span)
        c = {'op': 'ins2' if two else 'ins', 'kind': kind, 't': t, 'p': rng.randrange(1, 9)}
        if two:
            c['v'] = vbase + rng.randrange(vspan)
        h.append(c)
        r = lambda x: x if g == 1 else (x - x % g if x % g <= g // 2 else x - x % g + g)
        ts.append(r(t))
        if rng.random() < .4:
            x = min(ts) + g * rng.randrange(0, (max(ts) - min(ts)) // g + 1)
            x += rng.randrange(-2, 4) if g == 6 and x > 6 else 0
            if rng.random() < .3 and not two:
                h.append({'op': 'write', 'kind': kind, 't': x, 'p': rng.randrange(1, 9)})
            else:
                h.append({'op': 'probe2' if two else 'probe', 'kind': kind, 't': x})
    return h


def check(ctx):
    exe = ctx.build('dpd.cc', [], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    # all orders of inserting at few values, on both sides of the rounding boundary
    hs = ctx.histories('Dpd', '{[op |-> "ins", kind |-> k, t |-> t, p |-> 2 ^ Len(h)] : k \\in {0, 1}, t \\in {2, 3, 4, 9, 21}}', 3, inv=['Kept'], defs=DEFS)
    hs += ctx.histories('Dpd', '{[op |-> "ins", kind |-> 2, t |-> t, p |-> 2 ^ Len(h)] : t \\in {0, 3, 4, 9}}', 4 if ctx.thorough else 3, inv=['Kept'], defs=DEFS)
    hs += ctx.histories('Dpd', '{[op |-> "ins2", kind |-> k, t |-> t, v |-> v, p |-> 2 ^ Len(h)] : k \\in {3, %s}, t \\in {3, 4, 15}, v \\in {0, 3, 4}}' % ('4, 5' if ctx.thorough else '4'), 3 if ctx.thorough else 2, inv=['Kept'], defs=DEFS)
    for _ in range(4000 if ctx.thorough else 500):
        hs.append(history(rng))
    hs.append([{'op': 'round', 'n': n, 'm': m} for n in range(0, 40) for m in (1, 2, 3, 5, 6, 7, 10)])
    for _ in range(200):
        hs.append([{'op': 'round', 'n': rng.randrange(0, 2 * 10**9), 'm': rng.randrange(1, 1000)}])
        b = rng.choice([0, 60, 10**9])
        hs.append([{'op': 'back', 'ts': [b + rng.randrange(0, 90) for _ in range(rng.randrange(1, 6))]}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Dpd', events, parallel=8)
