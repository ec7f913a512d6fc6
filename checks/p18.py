"""P18: service calendars. Specification Calendar.tla."""
from vlib.core import flat

LEN = 512


def history(rng, n):
    base = rng.choice([40, 60, 364, 18993, 19000, 19052])
    span = rng.choice([3, 8, 40, 70, 500])
    regs = {}
    h = []

    def day():
        return base + rng.randrange(span)

    def make(i):
        f = day()
        k = rng.choice([1, 1, 2, 3, 8, 31, 32, 33, 63, 64, 65, 200, max(1, min(LEN, base + LEN - f))]) if span > 8 else rng.randrange(1, 9)
        k = max(1, min(k, base + LEN - f))
        p = rng.choice([0, .1, .5, .9, 1])
        m = [1 if rng.random() < p else 0 for _ in range(k)]
        regs[i] = [f, f + k - 1, {f + x for x in range(k) if m[x]}]
        h.append({'op': 'make', 'i': i, 'first': f, 'mask': m})
    for i in range(3):
        if rng.random() < .8:
            make(i)
    for _ in range(n):
        if not regs:
            make(0)
        i, j = rng.choice(sorted(regs)), rng.choice(sorted(regs))
        b = regs[i]
        o = rng.choice(['make', 'set', 'set', 'set', 'copy', 'join', 'add', 'look', 'ends', 'at', 'index', 'between', 'after', 'compare', 'twin'])
        t = [rng.choice([day(), b[0], b[1], b[0] - 1, b[1] + 1, b[0] + rng.randrange(b[1] - b[0] + 1)]), rng.choice([0, 1, 43200, 86399])]
        if o == 'make':
            make(rng.randrange(3))
        elif o == 'set':
            d = rng.choice([day(), b[0], b[1], b[0] + rng.randrange(b[1] - b[0] + 1), b[1] + 1, max(0, b[0] - 1)])
            v = rng.random() < .6
            f, l = min(b[0], d), max(b[1], d)
            if l - f >= LEN:
                continue
            regs[i] = [f, l, (b[2] | {d}) if v else (b[2] - {d})]
            h.append({'op': 'set', 'i': i, 'd': d, 'v': v})
        elif o == 'copy':
            regs[i] = list(regs[j])
            h.append({'op': 'copy', 'i': i, 'j': j})
        elif o == 'twin':
            # the same days with another frame
            if not b[2]:
                continue
            f, l = min(b[2]), max(b[2])
            f -= rng.choice([0, 0, 1, 7, 30]) if f > 30 else 0
            l += rng.choice([0, 0, 1, 9])
            if l - f >= LEN:
                continue
            k = rng.randrange(3)
            m = [1 if x in b[2] else 0 for x in range(f, l + 1)]
            if rng.random() < .2:
                x = rng.randrange(len(m))
                m[x] = 1 - m[x]
            h += [{'op': 'make', 'i': k, 'first': f, 'mask': m}]
            if k != i:
                h += [{'op': 'compare', 'i': i, 'j': k}]
            regs[k] = [f, l, {f + x for x in range(len(m)) if m[x]}]
        elif o in ('join', 'add'):
            a = regs[j]
            f, l = min(a[0], b[0]), max(a[1], b[1])
            if l - f >= LEN:
                continue
            k = rng.randrange(3) if o == 'join' else i
            h.append({'op': 'join', 'i': i, 'j': j, 'k': k} if o == 'join' else {'op': 'add', 'i': i, 'j': j})
            regs[k] = [f, l, a[2] | b[2]]
        elif o == 'ends':
            if b[2]:
                h.append({'op': 'ends', 'i': i})
        elif o in ('at', 'index'):
            h.append({'op': o, 'i': i, 'd': t[0]})
        elif o == 'between':
            u = [t[0] + rng.choice([0, 0, 1, 2, 30]), rng.choice([0, 86399])]
            if u >= t:
                h.append({'op': 'between', 'i': i, 'f': t, 't': u})
        elif o == 'after':
            h.append({'op': 'after', 'i': i, 't': t})
        elif o == 'compare':
            h.append({'op': 'compare', 'i': i, 'j': j})
        else:
            h.append({'op': 'look', 'i': i})
    for i in sorted(regs):
        h.append({'op': 'look', 'i': i})
        if regs[i][2]:
            h.append({'op': 'ends', 'i': i})
        for j in sorted(regs):
            h.append({'op': 'compare', 'i': i, 'j': j})
    return h


def check(ctx):
    exe = ctx.build('calendar.cc', ['src/timetable/bitfield.cc'], ['-fsanitize=address,undefined', '-UNDEBUG'])
    rng = ctx.rng
    masks = '{<<1>>, <<0>>, <<1, 0>>, <<0, 1>>, <<0, 1, 1>>, <<0, 0>>}'
    hs = ctx.histories('Calendar', '{c \\in {[op |-> "make", i |-> 0, first |-> f, mask |-> m] : f \\in {4, 6}, m \\in %s}'
                       ' \\cup {[op |-> "set", i |-> 0, d |-> d, v |-> v] : d \\in {3, 5, 6, 8}, v \\in BOOLEAN}'
                       ' \\cup {[op |-> "make", i |-> 1, first |-> f, mask |-> m] : f \\in {4, 5}, m \\in {<<1>>, <<0, 1, 0>>}}'
                       ' \\cup {[op |-> "add", i |-> 0, j |-> 1], [op |-> "join", i |-> 1, j |-> 0, k |-> 2]} : Allowed(c, st) /\\ (Len(h) = 0 => c.op = "make") /\\ (Len(h) = 1 => c.op # "make" \\/ c.i = 1)}' % masks,
                       4 if ctx.thorough else 3, inv=['Sane'], defs='Sane == Sound(st)')
    if not ctx.thorough:
        hs = rng.sample(hs, min(len(hs), 800))
    for h in hs:
        made = {c['i'] for c in h if c['op'] == 'make'}
        if any(c['op'] == 'join' for c in h):
            made.add(2)
        for i in sorted(made):
            h.append({'op': 'look', 'i': i})
            h += [{'op': 'compare', 'i': i, 'j': j} for j in sorted(made)]
        i = rng.choice(sorted(made))
        h += [{'op': 'after', 'i': i, 't': [rng.randrange(2, 10), 0]}, {'op': 'between', 'i': i, 'f': [rng.randrange(2, 6), 5], 't': [rng.randrange(6, 10), 5]}]
        h += [{'op': 'at', 'i': i, 'd': d} for d in range(2, 10, 2)]
    for n in range(3000 if ctx.thorough else 350):
        hs.append(history(rng, rng.choice([3, 6, 12])))
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Calendar', events, parallel=8)
