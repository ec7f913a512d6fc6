"""P43: what can be searched for on the web server. Specification Server.tla."""
import re

from vlib import server

TECHNIQUE = 'TLA+ specification of the things an infrastructure names; TLC judges the search index of the real server and what it ' \
            'finds under every name'


def check(ctx):
    exe = server.build(ctx)
    scs = server.scenarios(ctx, exe, 240 if ctx.thorough else 48)

    def more(sc, books):
        rng = sc['rng']
        sc['asked'] = []
        c = []
        for nm, b in books.items():
            names = ['%03d' % k for k in range(max(len(b['els']), len(b['irs'])) + 1)]
            names += [s[k] for s in b['stations'] for k in ('name', 'full')] + [r['name'] for r in b['routes']]
            names += [e['data'][k] for e in b['els'] for k in ('name', 'op', 'ext')]
            names = [x for x in sorted(set(names)) if re.fullmatch('[a-zA-Z0-9_-]+', x)]
            for x in rng.sample(names, min(len(names), 80)) + ['nosuchthing', 'a', '00', 'X1']:
                at = nm if rng.random() < .97 else 'nowhere'
                sc['asked'].append({'kind': 'search', 'infra': at, 'args': [x], 'short': len(x) < 3, 'target': '/infrastructure/%s/search/%s' % (at, x)})
            c.append({'op': 'index', 'infra': nm})
        return c + [{'op': 'ask', 'q': [q['target'] for q in sc['asked']]}]
    evs = []
    found = 0
    for sc, books, got in server.run(ctx, exe, scs, more):
        es, fine = server.start(sc, books, got)
        if fine:
            for nm, e in zip(books, [e for e in got if e['op'] == 'index']):
                es.append({'op': 'index', 'infra': nm, 'got': e['res'][1], 'res': ['ok']})
                found += len(e['res'][1])
            es.append({'op': 'search', 'asked': [[q, server.answer(a)] for q, a in zip(sc['asked'], got[-1]['res'][1])], 'res': ['ok']})
        evs += es
    ctx.extra['servers'] = len(scs)
    ctx.extra['things found'] = found
    ctx.validate('Server', evs, chunk=60)
