"""P47: the maps of the browser and what it keeps between visits. Specifications Map.tla and Settings.tla."""
import json

from vlib import client
from vlib.core import flat

TECHNIQUE = 'TLA+ models of the maps with their legends and of the settings kept between visits; histories generated and checked by TLC ' \
            'are replayed into the real client and what it shows is validated'


def either(*cs):
    return '(' + ' \\cup '.join(cs) + ')'


def pick(*cs):
    return 'LET r == RandomElement(1..%d) IN CASE %s' % (len(cs), ' [] '.join('r = %d -> %s' % (i + 1, c) for i, c in enumerate(cs)))


def after(*first):
    return 'IF Len(h) < %d THEN {<<%s>>[Len(h) + 1]} ELSE ' % (len(first), ', '.join(first))


OPEN = '{[op |-> "open", w |-> w] : w \\in %s}'
SELECT = '{[op |-> "select", x |-> x] : x \\in %s}'
LOAD = '{[op |-> "load", w |-> w] : w \\in %s}'
ANSWER = '(IF st.ask = <<>> THEN {} ELSE {[op |-> "answer", k |-> k, how |-> a] : k \\in 1..Len(st.ask), a \\in %s})'
CHECK = '{[op |-> "check", w |-> w - 1, x |-> x, on |-> x \\notin st.tabs[w].checked] : w \\in {v \\in %s : st.tabs[v].open}, x \\in %s}'
RESET = '{[op |-> "reset", w |-> w] : w \\in %s}'
DARK = '{[op |-> "dark", x |-> x] : x \\in {"dark", "light"}}'
SHOW = '(IF st.infra = "" THEN {} ELSE {[op |-> "show", kind |-> k, id |-> i, on |-> i \\notin (IF k = "s" THEN st.s ELSE st.i)] : ' \
       'k \\in {"s", "i"}, i \\in %s})'
GO = '{[op |-> "go", n |-> n] : n \\in {7, 8}}'
CLICK = '{[op |-> "click", w |-> w, layer |-> y, id |-> i] : w \\in %s, y \\in {"station", "hlt", ""}, i \\in {3, 4}}'
PAGE = '{[op |-> "page"]}'
KINDS = '{"as", "border", "bumper", "cross", "ctc", "eotd", "hlt", "km_jump", "line_switch", "ms", "ps", "rtcp", "simple_switch", ' \
        '"slope", "spl", "station", "track_end", "tunnel", "Rising", "Falling"}'


def check(ctx):
    exe = client.build(ctx)
    deep = 1 if ctx.thorough else 0
    page, a, o = '[op |-> "page"]', '[op |-> "select", x |-> "A"]', '[op |-> "open", w |-> 0]'
    l = '[op |-> "load", w |-> 0]'
    some = [
        # the legend over visits
        (after(page, a, o, l), either(CHECK % ('{1}', '{"bumper", "Rising"}'), RESET % '{0}', PAGE, SELECT % '{"A"}', OPEN % '{0}'), 8 + deep),
        (after(page, a, o, l), either(CHECK % ('{1}', KINDS), RESET % '{0}', DARK), 6 + deep),
        # one choice after the other is given up, until there is none, and then the page is visited again
        (after(page, a, o, l), '(LET t == st.tabs[1] IN IF ~t.open THEN {[op |-> "open", w |-> 0]} '
                               'ELSE IF Len(h) < 13 /\\ t.checked # {} THEN {[op |-> "check", w |-> 0, x |-> CHOOSE y \\in t.checked : TRUE, on |-> FALSE]} '
                               '\\cup (IF Cardinality(t.checked) <= 2 THEN {[op |-> "page"]} ELSE {}) '
                               'ELSE {[op |-> "page"], [op |-> "select", x |-> "A"], [op |-> "load", w |-> 0], [op |-> "reset", w |-> 0]})', 15),
        # maps of several infrastructures, in two tabs
        (after(page, o), either(SELECT % '{"A", "B", ""}', OPEN % '{1}', LOAD % '{0, 1}', ANSWER % '{"ok"}'), 7 + deep),
        (after(page, a, o, l), either(SELECT % '{"A", "B"}', LOAD % '{0}', ANSWER % '{"ok", "no", "lost"}', GO), 8 + deep),
        # routes
        (after(page, a, o, l), either(SHOW % '{1, 2}', SELECT % '{"A", "B"}', DARK, OPEN % '{0, 1}'), 7 + deep),
        (after(page, a, o), either(CLICK % '{0}', OPEN % '{1}'), 5 + deep),
    ]
    hs = []
    for first, cs, n in some:
        got = ctx.histories('Map', first + cs, n, inv=['L'], defs='L == Law(st)')
        most = 40000 if ctx.thorough else 700
        hs += got if len(got) <= most else ctx.rng.sample(got, most)
    any_ = pick(SELECT % '{"A", "B", ""}', SELECT % '{"A", "B"}', OPEN % '{0, 1}', LOAD % '{0, 1}', CHECK % ('{1, 2}', KINDS), CHECK % ('{1, 2}', '{"Rising", "Falling"}'),
                RESET % '{0, 1}', DARK, SHOW % '{1, 2, 3}', SHOW % '{1, 2, 3}', GO, CLICK % '{0, 1}', ANSWER % '{"ok", "ok", "no"}', ANSWER % '{"ok"}',
                LOAD % '{0, 1}', 'IF RandomElement(1..3) = 1 THEN %s ELSE %s' % (PAGE, OPEN % '{0, 1}'))
    hs += ctx.histories('Map', after(page, a, o, l) + '(LET z == (%s) IN IF z = {} THEN %s ELSE z)' % (any_, LOAD % '{0}'), 40,
                        simulate=3000 if ctx.thorough else 250, inv=['L'], defs='L == Law(st)')
    hs = list({json.dumps(h, sort_keys=True): h for h in hs}.values())
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Map', events, parallel=8)

    prefer = '{[op |-> "prefer", x |-> x] : x \\in {"dark", "light", "os"}}'
    colour = '{[op |-> "colour", x |-> x] : x \\in {"#FF0000", "#00FF00"}}'
    system = '{[op |-> "system", x |-> x] : x \\in {"dark", "light"}}'
    tab = '{[op |-> "tab", x |-> x] : x \\in {"M", "O"}}'
    visit, keep = '{[op |-> "visit"]}', '{[op |-> "keep"]}'
    first = 'IF h = <<>> THEN {[op |-> "visit"]} ELSE '
    ss = ctx.histories('Settings', first + either(prefer, system, visit, '{[op |-> "colour", x |-> "#FF0000"]}'), 5 + deep, inv=['L'], defs='L == Remembers(st)')
    ss += ctx.histories('Settings', first + either(tab, visit, keep), 6 + deep, inv=['L'], defs='L == Remembers(st)')
    ss = ctx.rng.sample(ss, min(len(ss), 60000 if ctx.thorough else 2500))
    ss += ctx.histories('Settings', first + pick(prefer, colour, system, tab, visit, keep), 30, simulate=2000 if ctx.thorough else 150, inv=['L'], defs='L == Remembers(st)')
    events = ctx.run_driver(exe, flat(ss))
    ctx.validate('Settings', events, parallel=8)
    ctx.extra['histories'] = len(hs) + len(ss)
