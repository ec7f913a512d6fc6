"""Directed graphs as inputs."""


def graph(rng, n, acyclic=False, loops=True, repeat=False):
    p = rng.choice([.1, .2, .4, .7]) if n > 3 else .5
    order = list(range(n))
    rng.shuffle(order)
    pos = {x: i for i, x in enumerate(order)}
    g = []
    for a in range(n):
        out = [b for b in range(n) if (loops or a != b) and (not acyclic or pos[a] < pos[b]) and rng.random() < p]
        if repeat and out and rng.random() < .3:
            out.append(rng.choice(out))
        rng.shuffle(out)
        g.append(out)
    return g


def chain(rng, n, back=0):
    """Long chains with few short cuts (and back edges)."""
    order = list(range(n))
    rng.shuffle(order)
    g = [[] for _ in range(n)]
    for a, b in zip(order, order[1:]):
        if rng.random() < .92:
            g[a].append(b)
    for _ in range(rng.randrange(0, 5)):
        i, j = sorted(rng.sample(range(n), 2))
        if order[j] not in g[order[i]]:
            g[order[i]].append(order[j])
    for _ in range(back):
        i, j = sorted(rng.sample(range(n), 2))
        if order[i] not in g[order[j]]:
            g[order[j]].append(order[i])
    for o in g:
        rng.shuffle(o)
    return g


def some(rng, acyclic=False, repeat=False):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    if rng.random() < .3:
        return chain(rng, max(2, n), 0 if acyclic else rng.choice([0, 0, 1, 2]))
    return graph(rng, n, acyclic or rng.random() < .3, rng.random() < .5, repeat)
