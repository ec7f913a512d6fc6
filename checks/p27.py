"""P27: generators. Specification Generators.tla."""
from vlib.core import flat

D = '''
L0 == {I("y", 1, <<>>), I("w", 3, <<>>), I("m", 4, <<>>), I("x", 0, <<>>)}
P0 == Seqs(L0, 2)
Sub == P0 \\cup {<<I("r", 2, <<>>), I("y", 1, <<>>), I("x", 0, <<>>)>>, <<I("n", 0, <<>>), I("y", 1, <<>>)>>}
One == Leafs \\cup {I(k, 0, p) : k \\in Delegates, p \\in Sub}
Tails == {<<>>, <<I("y", 7, <<>>)>>, <<I("d", 0, <<I("y", 8, <<>>)>>), I("m", 9, <<>>)>>, <<I("x", 0, <<>>)>>}
P1 == {<<i>> \\o t : i \\in One, t \\in Tails}
\\* one level deeper: a failing or short generator below two delegations
P2 == {<<I(k, 0, <<I("m", 5, <<>>)>> \\o p), I("y", 6, <<>>)>> : k \\in Delegates, p \\in {<<I(j, 0, q)>> \\o t : j \\in Delegates, q \\in
      {<<>>, <<I("y", 1, <<>>)>>, <<I("x", 0, <<>>)>>, <<I("y", 1, <<>>), I("x", 0, <<>>)>>, <<I("w", 3, <<>>), I("y", 1, <<>>)>>},
      t \\in {<<>>, <<I("y", 2, <<>>)>>}}}
Progs == P1 \\cup P2
Plain == {p \\in Progs : Bare(p)}
Mk(p) == [op |-> "make", s |-> 1, kind |-> "rec", p |-> p]
'''
LIMIT = 9


def check(ctx):
    exe = ctx.build('generators.cc', [], ['-fsanitize=address,undefined'])
    # every program, followed to its end, dropped at every point, drained in every way
    progs = [h[0]['p'] for h in ctx.histories('Generators', '{Mk(p) : p \\in Progs}', 1, defs=D + 'LawInv == \\A i \\in 1..Len(h) : Law(h[i].p)',
                                              inv=['LawInv'])]
    plain = lambda p: all(i['k'] not in 'dDnxt' and plain(i['p']) for i in p)
    hs = []
    for p in progs:
        kinds = ['rec'] + (['gen', 'cgen', 'it', 'rit'] if plain(p) else [])
        for k in kinds:
            mk = {'op': 'make', 's': 1, 'kind': k, 'p': p}
            nx = {'op': 'next', 's': 1}
            h = [mk, {'op': 'begin', 's': 1}]
            for j in range(LIMIT):
                h += [{'op': 'get', 's': 1}, {'op': 'put', 's': 1, 'v': 50 + j}, dict(nx, post=j % 2 == 1)]
            hs.append(h + [{'op': 'drop', 's': 1}])
            for n in range(LIMIT - 2):                       # abandon after n values
                hs.append([mk, {'op': 'begin', 's': 1}] + [nx] * n + [{'op': 'drop', 's': 1}])
                if sum(len(str(i)) for i in p) < 60 * (n + 1):
                    break
            for w in ('drain', 'collect', 'collect2', 'map', 'into', 'fmap'):
                hs.append([mk, {'op': w, 's': 1}, {'op': 'drop', 's': 1}])
    # random schedules over three slots: advance, move, assign, swap, drop, drain
    cmds = '''{[op |-> "make", s |-> s, kind |-> "rec", p |-> RandomElement(Progs)] : s \\in Slots}
 \\cup {[op |-> "make", s |-> RandomElement(Slots), kind |-> k, p |-> RandomElement(Plain)] : k \\in {"gen", "cgen", "it", "rit"}}
 \\cup {[op |-> o, s |-> s] : o \\in {"begin", "next", "get"}, s \\in Slots}
 \\cup {[op |-> "next", s |-> s] : s \\in Slots} \\cup {[op |-> "put", s |-> s, v |-> RandomElement(20..40)] : s \\in Slots}
 \\cup {[op |-> o, s |-> RandomElement(Slots)] : o \\in {"drop", "drain", "collect", "collect2", "map", "into", "fmap"}}
 \\cup {[op |-> o, s |-> RandomElement(Slots), t |-> RandomElement(Slots)] : o \\in {"move", "assign", "swap"}}'''
    hs += ctx.histories('Generators', cmds, 40, simulate=3000 if ctx.thorough else 300, defs=D)
    if not ctx.thorough:
        first = hs[:1]
        hs = first + ctx.rng.sample(hs, min(len(hs), 3200))
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Generators', events, parallel=8)
    ctx.assumptions.append('errors of the bodies of plain generators are not part of the property')
