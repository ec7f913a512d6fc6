"""P42: what the web server answers. Specification Server.tla."""
from vlib import server

TECHNIQUE = 'TLA+ specification of the answers a server owes for the infrastructures and timetables it offers; TLC judges what the ' \
            'real server answers to every address it documents'


def check(ctx):
    exe = server.build(ctx)
    scs = server.scenarios(ctx, exe, 200 if ctx.thorough else 40, trains=3)

    def more(sc, books):
        sc['asked'] = server.targets(sc['rng'], sc, books)
        sc['rng'].shuffle(sc['asked'])
        return [{'op': 'ask', 'q': [q[3] for q in sc['asked'][i:i + 40]]} for i in range(0, len(sc['asked']), 40)]
    evs = []
    n = 0
    for sc, books, got in server.run(ctx, exe, scs, more):
        es, fine = server.start(sc, books, [e for e in got if e['op'] != 'ask'])
        if fine:
            it = iter(sc['asked'])
            for e in got:
                if e['op'] != 'ask':
                    continue
                if e['res'][0] != 'ok':
                    es.append({'op': 'get', 'asked': [], 'res': [e['res'][0]]})
                    break
                es.append({'op': 'get', 'asked': [[dict(zip(('kind', 'infra', 'args', 'target'), next(it))), server.answer(a)] for a in e['res'][1]],
                           'res': ['ok']})
                n += len(e['res'][1])
        evs += es
    ctx.extra['servers'] = len(scs)
    ctx.extra['questions'] = n
    ctx.validate('Server', evs, chunk=60)
