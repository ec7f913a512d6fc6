"""P37: shorthand wrappers. Specification Sequences2.tla."""
from vlib.core import flat


def check(ctx):
    exe = ctx.build('short.cc', [], ['-fsanitize=address,undefined'])
    hs = ctx.histories('Sequences2', '{[op |-> "short", v |-> v, m |-> 2, r |-> r, k |-> k] : v \\in Seqs({1, 2, 4}, 4), r \\in {0, 1}, k \\in {1, 4, 3}}'
                       ' \\cup {[op |-> "tuple", v |-> v, m |-> 2, r |-> 1, k |-> k] : v \\in [1..4 -> {1, 4}], k \\in 0..5}'
                       ' \\cup {[op |-> "insert_or", map |-> f, k |-> k, v |-> 7] : f \\in [1..3 -> {0 - 1, 3, 5}], k \\in 0..2}', 1)
    cmds = [h[0] for h in hs]
    rng = ctx.rng
    for _ in range(4000 if ctx.thorough else 500):
        v = [rng.randrange(0, rng.choice([4, 12, 90])) for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 35]))]
        cmds.append({'op': 'short', 'v': sorted(v) if rng.random() < .3 else v, 'm': rng.choice([1, 2, 3, 5, 9]), 'r': rng.choice([0, 0, 1, 2]),
                     'k': rng.choice(v) if v and rng.random() < .6 else rng.randrange(0, 90)})
        cmds.append({'op': 'tuple', 'v': [rng.randrange(0, 50) for _ in range(4)], 'm': rng.choice([2, 3, 7]), 'r': 1, 'k': rng.randrange(0, 7)})
        cmds.append({'op': 'alias', 'v': [rng.randrange(-50, 50), rng.randrange(-50, 50)]})
    cmds.append({'op': 'static', 'n': 39})
    events = ctx.run_driver(exe, flat([[c] for c in cmds]))
    ctx.validate('Sequences2', events, parallel=8)
