"""P31: text and numbers. Specification Text.tla."""
from vlib.core import flat

BITS = [8, 8, 16, 16, 32, 32, 64, 64]


def bounds(t):
    return (-(1 << (BITS[t] - 1)), (1 << (BITS[t] - 1)) - 1) if t % 2 == 0 else (0, (1 << BITS[t]) - 1)


def enc(s):
    return [ord(x) for x in s]


def check(ctx):
    exe = ctx.build('text.cc', [], ['-fsanitize=address,undefined', '-UNDEBUG'])
    rng = ctx.rng
    # all short texts over the characters that matter
    hs = ctx.histories('Text', '{[op |-> "int", s |-> s, t |-> t] : s \\in UNION {[1..n -> {45, 48, 49, 57, 120}] : n \\in 0..3}, t \\in {0, 1}}'
                       ' \\cup {[op |-> "fp", s |-> s] : s \\in UNION {[1..n -> {45, 44, 46, 50}] : n \\in 0..%d}}' % (5 if ctx.thorough else 4), 1)
    hs += ctx.histories('Text', '{[op |-> "split", s |-> s, d |-> d] : s \\in UNION {[1..n -> {97, 44}] : n \\in 0..5}, d \\in {<<44>>, <<44, 44>>, <<97, 44>>, <<44, 97, 44>>}}'
                        ' \\cup {[op |-> "compare", a |-> a, b |-> b] : a \\in UNION {[1..n -> {97, 98}] : n \\in 0..3}, b \\in UNION {[1..n -> {97, 98}] : n \\in 0..3}}', 1)
    values = sorted({b + d for t in range(8) for b in bounds(t) for d in range(-2, 3)} | {10 ** k for k in range(19)} | {-10 ** k for k in range(19)} | {255, 256, 257, -255, -256})
    for v in values:
        for t in range(8):
            hs.append([{'op': 'int', 's': enc(str(v)), 't': t}])
            lo, hi = bounds(t)
            if lo <= v <= hi:
                for to in range(8):
                    hs.append([{'op': 'narrow', 's': enc(str(v)), 'from': t, 'to': to}])
    if not ctx.thorough:
        hs = rng.sample(hs, min(len(hs), 4000))
    for _ in range(4000 if ctx.thorough else 500):
        t = rng.randrange(8)
        lo, hi = bounds(t)
        v = rng.choice([rng.randrange(lo, hi + 1), rng.randrange(2 * lo - 1, 2 * hi), rng.randrange(-1000, 1000)])
        s = str(v)
        k = rng.random()
        if k < .2:
            s = '0' * rng.randrange(1, 4) + s if v >= 0 else '-' + '0' * rng.randrange(1, 4) + s[1:]
        elif k < .4:
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice([' ', '+', '-', 'x', '.', ',', 'e', '\t']) + s[i:]
        hs.append([{'op': 'int', 's': enc(s), 't': t}])
        v = max(lo, min(hi, v))
        hs.append([{'op': 'narrow', 's': enc(str(v)), 'from': t, 'to': rng.randrange(8)}])
        s = rng.choice(['', '', '-']) + str(rng.randrange(10 ** rng.randrange(0, 4) + 1)) + rng.choice(['', '.', ',']) + ''.join(rng.choice('0123456789') for _ in range(rng.randrange(0, 4)))
        if '.' not in s and ',' not in s:
            s = s[:4]
        if rng.random() < .2:
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice([' ', '+', '-', 'x', '.', ',']) + s[i:]
            if len(s.replace(',', '.').split('.')[-1]) > 3 and (',' in s or '.' in s):
                s = 'x'
        hs.append([{'op': 'fp', 's': enc(s)}])
        k = rng.choice(['a,', 'ab,;', 'abc ,'])
        txt = ''.join(rng.choice(k) for _ in range(rng.randrange(0, 25)))
        hs.append([{'op': 'split', 's': enc(txt), 'd': enc(rng.choice([',', ',', 'a,', 'ab', ';,', ' , ', 'zz']))}])
        other = txt if rng.random() < .3 else txt[:rng.randrange(len(txt) + 1)] + rng.choice(['', 'a', ',', ',a'])
        hs.append([{'op': 'compare', 'a': enc(txt), 'b': enc(other)}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Text', events, parallel=8)
