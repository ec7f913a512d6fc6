"""P35: errors and results. Specification Errors.tla."""
from vlib.core import flat

SRC = ['src/rolling_stock/rolling_stock_error.cc', 'src/timetable/timetable_error.cc', 'src/timetable/parsers/route_transform_error.cc', 'src/timetable/parsers/kss/kss_error.cc']


def check(ctx):
    rng = ctx.rng
    codes = [['kss', n] for n in range(1, 14)] + [['route', n] for n in range(1, 6)] + [['stock', 1], ['timetable', 1], ['std', 1], ['std', 2]]
    pairs = ctx.histories('Errors', '{[op |-> "compare", a |-> a, b |-> b] : a \\in All, b \\in All}'
                          ' \\cup {[op |-> "result", fails |-> f, e |-> e, v |-> v, how |-> w, depth |-> d] : f \\in BOOLEAN, e \\in {<<"kss", 1>>, <<"route", 5>>, <<"stock", 1>>, <<"std", 1>>, <<"std", 2>>}, v \\in {0, -1, 7}, w \\in 0..3, d \\in 0..3}', 1)
    for checked in (False, True):
        exe = ctx.build('errors.cc', SRC, ['-fsanitize=address,undefined'] + (['-UNDEBUG'] if checked else []))
        hs = list(pairs)
        hs += [[{'op': 'assert', 'b': b, 'checked': checked}] for b in (True, False)]
        hs += [[{'op': 'misuse', 'k': k, 'checked': checked}] for k in range(4) if checked]
        for n in range(1000 if ctx.thorough else 150):
            some = rng.sample(codes, rng.randrange(1, 6))
            hs.append([{'op': 'count', 'es': [rng.choice(some) + [rng.randrange(2)] for _ in range(rng.choice([0, 1, 5, 30]))], 'ask': codes}])
            e = rng.choice(codes)
            hs.append([{'op': 'result', 'fails': rng.random() < .6, 'e': e, 'v': rng.randrange(-2**31, 2**31), 'how': rng.randrange(4), 'depth': rng.randrange(8)}])
        events = ctx.run_driver(exe, flat(hs), env={'SORO_LOG': '1'})
        ctx.validate('Errors', events, parallel=8)
