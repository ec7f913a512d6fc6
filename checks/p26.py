"""P26: instants, dates, durations. Specification Instants.tla."""
import datetime
from vlib.core import flat

EPOCH = datetime.date(1970, 1, 1)


def check(ctx):
    exe = ctx.build('instants.cc', ['src/utls/unixtime.cc'])
    rng = ctx.rng
    # the calendar of the specification is consistent over four whole cycles
    step = 1 if ctx.thorough else 7
    ctx.model_check('MC', '''---- MODULE MC ----
EXTENDS Instants
VARIABLE n
I == n \\in {k * %d - 250000 : k \\in 0..(%d)}
N == FALSE /\\ n' = n
Inv == Law(n) /\\ LawNext(n)
====
''' % (step, 500000 // step), 'INIT I\nNEXT N\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n')
    U32 = (49710, 23295)                                    # 2^32 - 1 seconds
    def secs():
        return rng.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86398, 86399, rng.randrange(86400), rng.randrange(86400)])
    def day(lo, hi):
        y = rng.randrange(lo, hi)
        k = rng.random()
        if k < .4:
            return (datetime.date(y, rng.choice([1, 2, 3, 12]), rng.choice([1, 2, 28])) - EPOCH).days + rng.choice([-1, 0, 1, 3])
        return (datetime.date(y, rng.randrange(1, 13), rng.randrange(1, 29)) - EPOCH).days
    def near():
        return [rng.choice([0, 1, 2, 49709, rng.randrange(49710), day(1971, 2106)]), secs()]
    n = 4000 if ctx.thorough else 400
    cmds = [{'op': 'invalid'}, {'op': 'literal'}]
    for y in range(1970, 2107):
        for m in range(1, 13):
            last = ((datetime.date(y + m // 12, m % 12 + 1, 1)) - datetime.timedelta(1)).day
            if y == 2106 and m > 1:
                break
            for d in {1, last} if not ctx.thorough else range(1, last + 1):
                cmds.append({'op': 'ymd', 'y': y, 'm': m, 'd': d})
                if y % 4 != 1 or m in (2, 3, 12, 1):
                    dd = (datetime.date(y, m, d) - EPOCH).days
                    cmds.append({'op': 'abs', 'a': [dd, secs()]})
    cmds += [{'op': 'abs', 'a': list(a)} for a in ((0, 0), (0, 1), (49710, 23294), (49710, 0), (49709, 86399), (24855, 11647), (24855, 11648), (24855, 11649))]
    for _ in range(n):
        a, b = near(), near()
        cmds.append({'op': 'abs', 'a': a})
        cmds.append({'op': 'cmp', 'a': a, 'b': rng.choice([a, b, [a[0], b[1]]])})
        r = rng.choice([[0, 0], [0, 1], [0, secs()], [rng.randrange(0, 400), secs()], [rng.randrange(0, 40000), secs()]])
        if (a[0] + r[0]) < 49708:
            cmds.append({'op': 'rel', 'a': a, 'r': r})
    def wide():
        return [rng.choice([0, -1, 1, rng.randrange(-300, 300), rng.randrange(-700000, 2000000), rng.randrange(-10**8, 10**8)]), secs()]
    for _ in range(n):
        a, b = wide(), wide()
        cmds.append({'op': 'ut', 'a': a, 'b': rng.choice([a, b, b, [a[0], b[1]]])})
        x, y = rng.randrange(-40000, 40000), rng.randrange(-40000, 40000)
        cmds.append({'op': 'mul', 'x': x, 'y': y})
        big = rng.randrange(-2 * 10**9, 2 * 10**9)
        d = rng.choice([60, 3600, 86400, 7, -7, 1, -60, y or 1])
        cmds.append({'op': 'div', 'x': rng.choice([big, x]), 'y': d})
        cmds.append({'op': 'unit', 'x': rng.randrange(-500000, 500000)})
        p = [wide(), wide(), wide()]
        a = p[0]
        cmds.append({'op': 'in', 'a': a, 'from': rng.choice([a, p[1], [a[0] - 1, a[1]], [a[0], max(0, a[1] - 1)], [a[0], min(86399, a[1] + 1)]]),
                     'to': rng.choice([a, p[2], [a[0] + 1, a[1]], [a[0], max(0, a[1] - 1)], [a[0], min(86399, a[1] + 1)]])})
        a = [day(1679, 2260), secs()]                       # what the system clock of the platform can express
        cmds.append({'op': 'print', 'a': a})
        a = [day(1680, 2260), secs()]
        dt = EPOCH + datetime.timedelta(a[0])
        cmds.append({'op': 'parse', 'a': a, 'ymd': '%04d-%02d-%02d' % (dt.year, dt.month, dt.day),
                     'clock': '%02d:%02d:%02d' % (a[1] // 3600, a[1] // 60 % 60, a[1] % 60)})
    events = ctx.run_driver(exe, flat([[c] for c in cmds]))
    ctx.validate('Instants', events, parallel=8)
    ctx.assumptions.append('texts are printed for instants the system clock of the platform can express (1678 to 2261)')
