"""P46: what the browser shows of what is selected. Specification Client.tla."""
import json

from vlib import client
from vlib.core import flat

TECHNIQUE = 'TLA+ model of the client: selections, questions, and answers that come in any order or not at all; histories generated and ' \
            'checked by TLC are replayed into the real client and what it shows is validated'

INFRA = '{[op |-> "infra", x |-> x] : x \\in %s}'
TT = '{[op |-> "tt", x |-> x] : x \\in %s}'
ANSWER = '{[op |-> "answer", k |-> k, how |-> w] : k \\in 1..(IF Len(st.open) < %d THEN Len(st.open) ELSE %d), w \\in %s}'
CHOOSE = '{[op |-> "choose", kind |-> k, id |-> i, on |-> o] : k \\in %s, i \\in %s, o \\in BOOLEAN}'
RANGE = '{[op |-> "range", a |-> a, b |-> a + 7] : a \\in %s}'
FILTER = '{[op |-> "filter", ids |-> f] : f \\in %s}'
# without an infrastructure the field to search is disabled and there is no map to click on
QUERY = '(IF st.infra = "" THEN {} ELSE {[op |-> "query", text |-> q, long |-> TRUE] : q \\in {"abc", "abcd"}} \\cup {[op |-> "query", text |-> "ab", long |-> FALSE]})'
STATION = '(IF st.infra = "" THEN {} ELSE {[op |-> "station", id |-> i] : i \\in %s})'
LAWS = 'Law == Belongs(st) /\\ Complete(st)'


def after(*first):
    """the commands of a history that starts with the given ones"""
    return 'IF Len(h) < %d THEN {<<%s>>[Len(h) + 1]} ELSE ' % (len(first), ', '.join(first))


def check(ctx):
    exe = client.build(ctx)
    deep = 1 if ctx.thorough else 0
    start, a, b = '[op |-> "start"]', '[op |-> "infra", x |-> "A"]', '[op |-> "answer", k |-> 1, how |-> "ok"]'
    t1 = '[op |-> "tt", x |-> "T1"]'
    some = [
        # infrastructures and timetables
        (after(start), [INFRA % '{"A", "B", ""}', TT % '{"T1", "T2", ""}', ANSWER % (3, 3, '{"ok"}')], 6 + deep),
        (after(start, b), [INFRA % '{"A", "B"}', TT % '{"T2"}', ANSWER % (2, 2, '{"ok", "no", "lost"}')], 7),
        # routes
        (after(start, b, a, b), [INFRA % '{"A", "B"}', CHOOSE % ('{"s"}', '{1}'), ANSWER % (2, 2, '{"ok", "no"}')], 9 + deep),
        (after(start, b, a, b), [CHOOSE % ('{"s", "i"}', '{1, 2}'), ANSWER % (3, 3, '{"ok"}')], 8),
        # search and station
        (after(start, b, a, b), [QUERY, STATION % '{0, 1}', ANSWER % (3, 3, '{"ok", "no"}')], 8),
        # the order of trains
        (after(start, b, a, b, t1), [RANGE % '{5, 6}', FILTER % '{<<>>, <<3, 4>>}', TT % '{"T2", ""}', ANSWER % (3, 3, '{"ok"}')], 9),
    ]
    hs = []
    for first, cs, n in some:
        got = ctx.histories('Client', first + '(' + ' \\cup '.join(cs) + ')', n, inv=['Law'], defs=LAWS)
        most = 40000 if ctx.thorough else 900
        hs += got if len(got) <= most else ctx.rng.sample(got, most)
    every = [INFRA % '{"A", "B", ""}', TT % '{"T1", "T2", "T3", ""}',
             CHOOSE % ('{"s", "i"}', '{1, 2}'), RANGE % '{5, 6, 7}', FILTER % '{<<>>, <<3, 4>>, <<0>>}', QUERY, STATION % '{0, 1, 2}']
    answers = [ANSWER % (5, 5, '{"ok", "no", "lost"}'), ANSWER % (5, 5, '{"ok"}'), ANSWER % (3, 3, '{"ok"}')]
    pick = 'LET r == RandomElement(1..12) IN IF st.open # <<>> /\\ r < 6 THEN %s ELSE %s' % (
        'CASE r = 1 -> %s [] r < 4 -> %s [] OTHER -> %s' % tuple(answers),
        'CASE r = 6 -> %s [] st.infra = "" -> %s [] r = 7 -> %s [] r = 8 -> %s [] r = 9 -> %s [] r = 10 -> %s [] r = 11 -> %s [] r = 12 -> %s [] OTHER -> %s \\cup %s' % (
            (every[0], every[0]) + tuple(every[1:]) + (every[0], every[1])))
    hs += ctx.histories('Client', after(start, b, a, b, t1, b) + '(' + pick + ')', 40, simulate=3000 if ctx.thorough else 250, inv=['Law'], defs=LAWS)
    hs = [list(x) for x in {json.dumps(h, sort_keys=True): h for h in hs}.values()]
    events = ctx.run_driver(exe, flat(hs))
    ctx.extra['histories'] = len(hs)
    ctx.validate('Client', events, parallel=8)
