"""Pictures and coordinates for plans, and small networks of stations."""
from vlib import plan as vp
from vlib import tracks


def text(v, rng):
    """v thousandths as the files write numbers"""
    s = '%s%d,%03d' % ('-' if v < 0 else '', abs(v) // 1000, abs(v) % 1000)
    if rng.random() < .5:
        s = s.rstrip('0')
        if s.endswith(','):
            s += '0'
    return s


def draw(rng, p):
    """a place in the picture for every element that joins tracks"""
    xy = {}
    box = {}
    for s in p['secs']:
        st = s['st']
        if st not in box:
            kind = rng.random()
            w, h = (rng.randint(1, 100), rng.randint(1, 60)) if kind < .8 else (0, 0) if kind < .85 else rng.choice([(rng.randint(1, 100), 0), (0, rng.randint(1, 60))])
            box[st] = (rng.randint(-200, 200) * 1000, rng.randint(-200, 200) * 1000, w * 1000, h * 1000)
        x, y, w, h = box[st]
        for n in (s['nodes'][0], s['nodes'][-1]):
            if vp.PORTS[n['tag']][2] and n['id'] not in xy:
                xy[n['id']] = (x + rng.randint(0, w), y + rng.randint(0, h))
            if n['id'] in xy:
                n['xy'] = xy[n['id']]
                n['xytext'] = tuple(text(v, rng) for v in n['xy'])
        if rng.random() < .1:
            s['points'] = [[text(rng.randint(-300, 300) * 1000, rng), text(5, rng)] for _ in range(rng.randint(1, 3))]
    return [[e, a, b] for e, (a, b) in sorted(xy.items())]


def write_gps(rng, p, fn, share, same=0):
    """the coordinates file: what it says of the stations of the plan"""
    rows = []
    out = []
    for i, st in enumerate(p['stations']):
        if rng.random() < share:
            lon, lat = rng.randint(5000000, 15000000), rng.randint(46000000, 55000000)
            if rng.random() < .1:
                lon -= 25000000
            if rng.random() < .1:
                lat -= 100000000
            if same and out and rng.random() < same:
                lon, lat = out[-1][1:]
            elif same:
                # here the sine and the cosine, squared and rounded, exceed one together
                lon, lat = rng.choice([(9463438, 50747903), (6561835, 53059315), (8205978, 47552675)])
            out.append([i + 1, lon, lat])
            rows.append([st['name'], '%.6f' % (lat / 1e6), '%.6f' % (lon / 1e6)])
        elif rng.random() < .4:
            a, b = rng.choice([('', ''), ('50.1', ''), ('', '8.25')])
            rows.append([st['name'], a, b])
    for i in range(rng.randint(0, 4)):
        rows.append(['ZZ%d' % i, '49.%d' % rng.randint(0, 9999), '9.%d' % rng.randint(0, 9999)])
    rng.shuffle(rows)
    cols = [0, 1, 2]
    if rng.random() < .4:
        rng.shuffle(cols)
    extra = rng.random() < .3
    o = []
    for r in [['ds100', 'lat', 'lon']] + rows:
        r = [r[c] for c in cols] + (['x'] if extra else [])
        o.append(','.join(r))
    with open(fn, 'w') as f:
        f.write('\n'.join(o) + '\n')
    return out


def net(rng, k, i):
    """stations joined by parallel tracks, in any shape"""
    p = {'stations': [], 'secs': [], 'lines': [], 'version': ['D', i + 1]}
    ids = list(range(1, 3000))
    rng.shuffle(ids)
    names = ['D%d' % x if rng.random() < .7 else 'D  %d' % x for x in range(k)]
    edges = []
    for b in range(1, k):
        r = rng.random()
        edges += [(rng.randrange(b), b)] if r < .8 else []
        if rng.random() < .35:
            edges.append(tuple(rng.sample(range(b + 1), 2)))
    line = 0
    for x in names:
        p['stations'].append({'name': x, 'secs': [], 'routes': []})

    def section(st, line, a, b):
        mids = [{'id': ids.pop(), 'tag': rng.choice(['HauptsignalS', 'VorsignalF', 'Tunnel', 'SchutzsignalS', 'SchutzsignalF']), 'x': {}} for _ in range(rng.randint(0, 5))]
        lo, hi = a['km'], b['km']
        for j, m in enumerate(rng.sample(range(lo + 100, hi, 100), len(mids))):
            mids[j]['km'] = m
            if mids[j]['tag'].startswith('Haupt'):
                mids[j]['x']['Name'] = 'N%d' % mids[j]['id']
        p['stations'][st]['secs'].append(len(p['secs']))
        p['secs'].append({'line': line, 'st': st, 'nodes': [a] + mids + [b]})

    def end(tag, km, **x):
        i = ids.pop()
        return dict({'id': i, 'main': i, 'tag': tag, 'km': km, 'x': {}}, **x)
    for a, b in edges:
        for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 6])):
            line += 1
            sign = ids.pop()
            at = rng.randint(50, 90) * 1000000
            lo, hi = (a, b) if rng.random() < .5 else (b, a)
            section(lo, line, end(rng.choice(['Gleisende', 'Prellbock']), at - rng.randint(1, 900) * 1000),
                    end('Betriebsstellengrenze', at, partner=names[hi], sign=sign))
            section(hi, line, end('Betriebsstellengrenze', at, partner=names[lo], sign=sign),
                    end(rng.choice(['Gleisende', 'Prellbock']), at + rng.randint(1, 900) * 1000))
    for st in range(k):
        if not p['stations'][st]['secs']:
            line += 1
            section(st, line, end('Gleisende', 1000000), end('Prellbock', 2000000))
    p['lines'] = [[n, [[0, 99000000, 1]]] for n in range(1, line + 1)]
    return vp.finish(p)


def plans(ctx, n):
    import random
    out = []
    shares = []
    for i, p in enumerate(tracks.random_plans(ctx, n, stations=4, steps=4)):
        out.append(p)
    for i in range(n):
        rng = random.Random('net-%d-%d' % (ctx.seed, i))
        out.append(net(rng, rng.randint(1, 9), i))
    return out
