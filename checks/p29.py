"""P29: containers. Specification Containers.tla."""
from vlib.core import flat


def pq_history(rng, n):
    h = [{'op': 'pq_make', 'min': rng.random() < .5}]
    k = rng.choice([1, 2, 5, 100])
    p = rng.choice([.3, .5, .6])
    for i in range(n):
        h.append({'op': 'pq_pop'} if rng.random() > p else {'op': 'pq_put', 'k': rng.randrange(k), 'id': i + 1, 'how': rng.randrange(3)})
    return h + [{'op': 'pq_pop'}] * rng.randrange(0, n)


KINDS = ['set', 'set', 'null', 'reset', 'assign', 'move', 'swap', 'swap', 'write', 'write_value', 'write_arrow', 'write_move']


def opt_history(rng, n):
    w = rng.randrange(4)
    return [{'op': 'opt', 'w': w, 'k': rng.choice(KINDS), 'i': rng.randrange(3), 'j': rng.randrange(3), 'v': rng.choice([0, 1, 19, 20, rng.randrange(60)])} for _ in range(n)]


def oc_history(rng, n):
    size = rng.randrange(0, 8)
    h = [{'op': 'oc_make', 'off': rng.choice([0, 1, 7, 1000, 70000]), 'n': size}]
    for _ in range(n):
        if size == 0 or rng.random() < .2:
            size = rng.randrange(0, 12)
            h.append({'op': 'oc_resize', 'n': size})
        else:
            h.append({'op': rng.choice(['oc_set', 'oc_add']), 'i': rng.randrange(size), 'v': rng.randrange(-9, 99)})
    return h


def it_history(rng, n):
    vals = [rng.randrange(1000) for _ in range(rng.randrange(1, 9))]
    ids = [rng.randrange(len(vals)) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
    h = [{'op': 'it_make', 'vals': vals, 'ids': ids}]
    p = 0
    for _ in range(n):
        k = rng.choice(['pre++', 'pre--', 'post++', 'post--', '+=', '-=', '+', '-', 'd+'])
        to = rng.randrange(len(ids) + 1)
        d = p - to if k in ('-=', '-') else to - p
        if k.endswith('++'):
            d, to = 0, p + 1
        if k.endswith('--'):
            d, to = 0, p - 1
        if not 0 <= to <= len(ids):
            continue
        h.append({'op': 'it', 'k': k, 'd': d})
        p = to
    return h


def check(ctx):
    exe = ctx.build('containers.cc', [], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    hs = []
    # every short history of the queue and of two optionals
    pq = ctx.histories('Containers', '{[op |-> "pq_pop", how |-> 0, k |-> 0, id |-> Len(h) + 1]} \\cup {[op |-> "pq_put", how |-> w, k |-> k, id |-> Len(h) + 1] : w \\in {0, 2}, k \\in 1..%d}'
                       % (3 if ctx.thorough else 2), 6 if ctx.thorough else 5)
    hs += [[{'op': 'pq_make', 'min': m}] + h for h in pq for m in (False, True)]
    opt = ctx.histories('Containers', '{[op |-> "opt", w |-> 0, k |-> k, i |-> i, j |-> 1 - i, v |-> 5 + Len(h)] : k \\in {"set", "null", "assign", "move", "swap", "write"}, i \\in {0, 1}}', 3)
    hs += [[dict(c, w=w) for c in h] for n, h in enumerate(opt) for w in ([0, 1, 2, 3] if ctx.thorough else [n % 4])]
    n = 3000 if ctx.thorough else 150
    for _ in range(n):
        hs.append(pq_history(rng, rng.choice([4, 10, 40])))
        hs.append(opt_history(rng, rng.choice([4, 12])))
        hs.append(oc_history(rng, 8))
        hs.append(it_history(rng, 14))
        v = [rng.randrange(rng.choice([3, 40, 500])) for _ in range(rng.choice([0, 1, 2, 5, 17, 40]))]
        f = rng.randrange(len(v) + 1)
        hs.append([{'op': 'sorted', 'v': v}, {'op': 'range', 'v': v, 'from': f, 'to': rng.randrange(f, len(v) + 1)},
                   {'op': 'cmap', 'keys': [rng.randrange(6) for _ in range(4)]}, {'op': 'opt_misc', 'v': rng.choice([0, 1, 2, 999, rng.randrange(900)])}])
    if len(hs) > 6000:
        rng.shuffle(hs)
        hs = hs[:40000 if ctx.thorough else 6000]
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Containers', events, parallel=8)
