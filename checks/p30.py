"""P30: kinds of elements. Specification Kinds.tla."""
import string
from vlib.core import flat


def check(ctx):
    exe = ctx.build('kinds.cc', ['src/infrastructure/graph/*.cc', 'src/infrastructure/parsers/iss/parse_helpers.cc'], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    hs = ctx.histories('Kinds', '{[op |-> "all"]} \\cup {[op |-> "kind", k |-> k] : k \\in Kinds}'
                       ' \\cup {[op |-> "element", k |-> k, a |-> a, b |-> b, rising |-> r] : k \\in Kinds, a \\in BOOLEAN, b \\in BOOLEAN, r \\in BOOLEAN}'
                       ' \\cup {[op |-> "read", n |-> t[1], s |-> t[3]] : t \\in Tags}'
                       ' \\cup {[op |-> "set", ks |-> <<x, y>>, ask |-> SetToSeq(Kinds \\cup {"invalid"})] : x \\in Kinds, y \\in Kinds}'
                       ' \\cup {[op |-> "set", ks |-> <<x>>, ask |-> SetToSeq(Kinds \\cup {"invalid"})] : x \\in Kinds}'
                       ' \\cup {[op |-> "set_all", ask |-> SetToSeq(Kinds \\cup {"invalid"})]}', 1)
    tags = sorted({h[0]['n'] for h in hs if h[0]['op'] == 'read'})
    kinds = sorted({h[0]['k'] for h in hs if h[0]['op'] == 'kind'})
    other = set(['Bildpunkt', 'Streckenklasse', 'Warnfeld', 'Streckenwechsel2', 'Kreuzung', 'Weiche'])
    for t in tags:
        other |= {t[:-1], t[1:], t + 'S', t + 'F', t.lower(), t.upper(), t[:len(t) // 2]}
    for _ in range(3000 if ctx.thorough else 300):
        t = list(rng.choice(tags))
        i = rng.randrange(len(t))
        k = rng.randrange(3)
        if k == 0:
            t[i] = rng.choice(string.ascii_letters)
        elif k == 1:
            del t[i]
        else:
            t.insert(i, rng.choice(string.ascii_letters))
        other.add(''.join(t))
    for n in sorted(other - set(tags) - {''}):
        hs.append([{'op': 'read', 'n': n, 's': n.endswith('S')}])
    for _ in range(2000 if ctx.thorough else 200):
        ks = [rng.choice(kinds) for _ in range(rng.randrange(0, 6))]
        hs.append([{'op': 'set', 'ks': ks, 'ask': [rng.choice(kinds) for _ in range(3)] + ks}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Kinds', events, parallel=8)
