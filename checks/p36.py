"""P36: reading and writing files. Specification Files.tla."""
from vlib.core import flat


def check(ctx):
    exe = ctx.build('files.cc', [], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    hs = ctx.histories('Files', '{[op |-> "write", f |-> f, b |-> b] : f \\in {0, 1}, b \\in {<<>>, <<0>>, <<10, 13, 26>>, <<255, 0, 10, 0>>}}'
                       ' \\cup {[op |-> o, f |-> f] : o \\in {"read", "text", "load", "remove"}, f \\in {0}}', 4 if ctx.thorough else 3, inv=['Typed'], defs='Typed == TypeOk(st)')
    if not ctx.thorough:
        hs = rng.sample(hs, 700)
    for h in hs:
        h += [{'op': o, 'f': f} for f in (0, 1) for o in ('read', 'text')]
    every = list(range(256))
    hs.append([{'op': 'write', 'f': 0, 'b': every + every[::-1]}] + [{'op': o, 'f': 0} for o in ('read', 'text', 'load')])
    for a in range(0, 256):
        hs.append([{'op': 'write', 'f': 0, 'b': [a, rng.randrange(256), a]}] + [{'op': o, 'f': 0} for o in ('read', 'text', 'load')])
    for _ in range(2000 if ctx.thorough else 200):
        h = []
        for _ in range(rng.randrange(1, 9)):
            f = rng.randrange(3)
            k = rng.random()
            if k < .5:
                h.append({'op': 'write', 'f': f, 'b': [rng.choice([0, 10, 13, 26, 32, 127, 128, 239, 187, 191, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 3, 7, 64]))]})
            else:
                h.append({'op': rng.choice(['read', 'text', 'load', 'remove']), 'f': f})
        hs.append(h + [{'op': o, 'f': f} for f in range(3) for o in ('read', 'text', 'load')])
    for n in range(0, 40):
        hs.append([{'op': 'sizes', 'f': 2, 'seed': n, 'sizes': [rng.randrange(0, 300000) for _ in range(4)]}])
    hs.append([{'op': 'sizes', 'f': 2, 'seed': 1, 'sizes': sorted({max(0, 2**k + d) for k in range(0, 22) for d in (-1, 0, 1)})}])
    hs.append([{'op': 'sizes', 'f': 2, 'seed': 2, 'sizes': list(range(200, -1, -1))}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Files', events, parallel=8)
