"""P19: the trips of a train in an interval. Specification Trips.tla."""
from vlib.core import flat

TECHNIQUE = 'TLA+ specification of the trips of a train (days, offsets, windows), laws of windows model-checked by TLC; ' \
            'histories enumerated from it and random ones are replayed into tt::train and every answer compared'
SRC = ['src/infrastructure/**/*.cc', 'src/rolling_stock/*.cc', 'src/utls/*.cc', 'src/utls/**/*.cc', 'src/timetable/*.cc', 'src/timetable/parsers/**/*.cc']
DAY = 86400


def history(rng):
    base = rng.choice([3, 40, 364, 18993, 19000, 20500])
    n = rng.choice([1, 1, 2, 3, 7, 31, 64, 65, 300, 512])
    p = rng.choice([.05, .3, .7, 1])
    mask = [1 if rng.random() < p else 0 for _ in range(n)]
    dep = rng.choice([0, 1, 3600, 43200, 86399, 86400, 86401, 2 * DAY + 5])
    arr = dep + rng.choice([0, 1, 60, 7200, 43200, 86399, 86400, 100000, 3 * DAY])
    h = [{'op': 'train', 'first': base, 'mask': mask, 'dep': dep, 'arr': arr, 'id': rng.randrange(9), 'points': rng.choice([2, 2, 3])}]
    days = {base + i for i in range(n) if mask[i]}
    first, last = base, base + n - 1
    for _ in range(rng.choice([0, 0, 1, 4])):
        d = rng.choice([first, last, rng.randint(first, last), last + 1, max(0, first - 1)])
        if max(last, d) - min(first, d) >= 512:
            continue
        first, last = min(first, d), max(last, d)
        v = rng.random() < .5
        days = days | {d} if v else days - {d}
        h.append({'op': 'day', 'd': d, 'v': v})

    def point():
        if days and rng.random() < .8:
            d = rng.choice(sorted(days))
            s = d * DAY + rng.choice([dep, arr, 0, (dep + arr) // 2]) + rng.choice([0, 0, 1, -1, 600, -600])
        else:
            s = rng.randint((first - 2) * DAY, (last + 3) * DAY)
        return max(0, s)
    for _ in range(12):
        a = point()
        b = rng.choice([a, a + rng.choice([1, 60, 3600, DAY - 1, DAY, 3 * DAY]), point(), point()])
        a, b = min(a, b), max(a, b)
        h.append({'op': 'between', 'from': [a // DAY, a % DAY], 'to': [b // DAY, b % DAY]})
    h.append({'op': 'all'})
    if days:
        h.append({'op': 'ends'})
        h += [{'op': 'when', 'd': d} for d in rng.sample(sorted(days), min(2, len(days)))]
    return h


def check(ctx):
    exe = ctx.build('trips.cc', SRC, ['-UNDEBUG'])
    rng = ctx.rng
    times = '{<<d, s>> : d \\in 3..7, s \\in {0, 300, 86399}}'
    hs = ctx.histories('Trips', '{c \\in {[op |-> "train", first |-> 4, mask |-> m, dep |-> x[1], arr |-> x[2], id |-> 1] : m \\in {<<1>>, <<1, 1>>, <<1, 0, 1>>, <<0>>},'
                       ' x \\in {<<0, 0>>, <<0, 300>>, <<300, 86399>>, <<86399, 86700>>, <<86400, 90000>>, <<300, 180000>>}}'
                       ' \\cup {[op |-> "between", from |-> a, to |-> b] : a \\in T, b \\in T} \\cup {[op |-> "all"]}'
                       ' : (Len(h) = 0) = (c.op = "train") /\\ (c.op = "between" => LE(c.from, c.to))}',
                       2, inv=['Sane'], defs='T == %s\nSane == Len(h) = 1 => Sound(st, {w \\in T \\X T : LE(w[1], w[2])})' % times)
    if not ctx.thorough:
        hs = rng.sample(hs, min(len(hs), 1500))
    for _ in range(6000 if ctx.thorough else 500):
        hs.append(history(rng))
    ctx.validate('Trips', ctx.run_driver(exe, flat(hs)), parallel=8)
