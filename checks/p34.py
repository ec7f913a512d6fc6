"""P34: coordinates. Specification Coords.tla."""
from vlib.core import flat


def place(rng):
    k = rng.random()
    if k < .2:
        return [rng.choice([-180, -90, 0, 45, 90, 180]) * 1000, rng.choice([-90, -45, 0, 45, 90]) * 1000]
    if k < .6:
        return [rng.randrange(6000, 15000), rng.randrange(47000, 55000)]
    return [rng.randrange(-180000, 180001), rng.randrange(-90000, 90001)]


def text(rng, v, style):
    s = '%s%d.%03d' % ('-' if v < 0 else '', abs(v) // 1000, abs(v) % 1000)
    if rng.random() < .3:
        s = s.rstrip('0').rstrip('.') if '.' in s else s
    return '"%s"' % s.replace('.', ',') if style and '.' in s else s


def stations(rng):
    names = sorted(rng.sample(['A', 'B', 'AB', 'ABC', 'X Y', 'Z', 'Q1', 'Q2', 'W'], rng.randrange(1, 6)))
    cols = ['ds100', 'lat', 'lon', 'name', 'id']
    cols = rng.choice([cols[:3], ['lon', 'ds100', 'lat'], ['name', 'ds100', 'lat', 'lon'], ['ds100', 'lon', 'name', 'lat', 'id']])
    rows, lines = [], [','.join(cols)]
    for _ in range(rng.randrange(0, 8)):
        n = rng.choice(names + ['nobody', 'A B'])
        lon, lat = place(rng)
        miss = rng.random()
        r = {'name': n, 'lon': -361000 if miss < .15 else lon, 'lat': -361000 if .1 < miss < .25 else lat}
        val = {'ds100': n, 'name': 'n', 'id': '7', 'lon': '' if r['lon'] == -361000 else text(rng, lon, rng.random() < .5), 'lat': '' if r['lat'] == -361000 else text(rng, lat, rng.random() < .5)}
        rows.append(r)
        lines.append(','.join(val[c] for c in cols))
    return {'op': 'stations', 'file': rng.random() > .05, 'names': names, 'rows': rows, 'lines': lines}


def check(ctx):
    exe = ctx.build('coords.cc', ['src/utls/coordinates/*.cc', 'src/infrastructure/parsers/parse_station_coords.cc'], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    xs = [-180, -90, -1, 0, 8, 45, 90, 179]
    ys = [-90, -49, 0, 1, 50, 89, 90]
    grid = [[x * 1000, y * 1000] for x in xs for y in ys]
    hs = [[{'op': 'missing'}]]
    for a in grid:
        hs.append([{'op': 'cartesian', 'a': a}] + [{'op': o, 'a': a, 'b': b} for b in grid for o in ('between', 'bearing')])
        hs.append([{'op': 'move', 'a': a, 'd': d, 'b': b * 1000} for d in (0, 1, 1000, 500000, 10018000, 15000000) for b in (-180, -135, -90, -45, 0, 1, 45, 90, 135, 180, 200, 300, 359)])
    for p in ([1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]):
        hs.append([{'op': 'to_gps', 'p': p}])
    hs.append([{'op': 'polar', 'x': x, 'y': y} for x in range(-6, 7) for y in range(-6, 7)])
    hs.append([{'op': 'angle', 'd': d} for d in (-68000, -1000, -1, 0, 1, 1000, 45000, 68000)])
    hs.append([{'op': 'valid', 'a': [x, y]} for x in (-361000, -360001, -360000, -180000, 0, 8000, 360000, 360001, 361000) for y in (-361000, -360001, -360000, -90000, 0, 360000, 360001, 361000)])
    for _ in range(4000 if ctx.thorough else 600):
        a, b = place(rng), place(rng)
        if rng.random() < .3:
            b = [a[0] + rng.randrange(-30, 31), max(-90000, min(90000, a[1] + rng.randrange(-30, 31)))]
        if rng.random() < .1:
            b = list(a)
        hs.append([{'op': 'between', 'a': a, 'b': b}, {'op': 'bearing', 'a': a, 'b': b}, {'op': 'cartesian', 'a': a}, {'op': 'valid', 'a': a},
                   {'op': 'move', 'a': a, 'd': rng.choice([1, 20, 777, 12345, 400000, rng.randrange(1, 19000000)]), 'b': rng.randrange(-180000, 360000)},
                   {'op': 'polar', 'x': rng.randrange(-9999, 9999), 'y': rng.randrange(-9999, 9999)}])
        n = rng.choice([0, 1, 1, 2, 3, 6])
        hs.append([{'op': 'box', 'ps': [place(rng) for _ in range(n)]}, stations(rng)])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Coords', events, parallel=8)
