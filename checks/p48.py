"""P48: the railway's data on the lines of OpenStreetMap. Specification OsmTool.tla."""
from vlib import osm
from vlib.core import flat

TECHNIQUE = 'TLA+ model of the program that puts the railway\'s data on OpenStreetMap\'s lines; generated maps and data, in histories of its ' \
            'modes, are given to the real program and TLC checks the map and the lists it writes against the model'

NAMES = ['Neustadt', 'Köln & Süd', 'A<B', "Müller's Weg", 'Bf "West"', 'x']
REFS = ['5100', '0042', '1733', '9999', '2600']
STEP = (50, 150)                       # how far the nodes of a line are apart
APART = 2 * STEP[1] + 20


def km(rng, metres):
    if rng.random() < 0.25 and metres > 1000:
        a = metres - rng.randint(1, 900)
        return '%d,%03d+0,%03d' % (a // 1000, a % 1000, metres - a)
    return '%d,%03d' % (metres // 1000, metres % 1000)


class Scene:
    def __init__(self, rng):
        self.rng = rng
        self.id = 0
        self.n = 0
        self.nodes, self.ways, self.rels = [], [], []
        self.sections = []
        self.names = {}
        big = rng.random() < 0.3
        count = rng.choice([1, 1, 2, 2, 3])
        taken = rng.sample(REFS, count)
        for x, ref in enumerate(taken):
            self.line(x + 1, ref, big)
        self.others(taken)
        rng.shuffle(self.nodes)
        rng.shuffle(self.rels)
        if rng.random() < 0.5:
            rng.shuffle(self.ways)

    def new_id(self):
        self.id += self.rng.choice([1, 1, 2, 7, 90])
        return self.id

    def name(self, kind):
        self.n += 1
        return '%s%d' % (kind, self.n)

    def line(self, x, ref, big):
        rng = self.rng
        ms, m = [], 1000 + rng.randint(0, 50)
        for _ in range(rng.randint(12, 40) if big else rng.randint(4, 14)):
            ms.append(m)
            m += rng.randint(*STEP)
        ids = [self.new_id() for _ in ms]
        if rng.random() < 0.4:
            rng.shuffle(ids)
        nodes = [{'id': i, 'x': x, 'm': a, 'tags': []} for i, a in zip(ids, ms)]
        # ways
        cuts = sorted(rng.sample(range(1, len(ms) - 1), min(len(ms) - 2, rng.choice([0, 0, 1, 1, 2, 3]))))
        parts = [ids[a:b + 1] for a, b in zip([0] + cuts, cuts + [len(ms) - 1])]
        turned = [rng.random() < 0.25 for _ in parts]
        if rng.random() < 0.5:
            turned = [turned[0]] * len(parts)
        bad = {cuts[i] for i in range(len(cuts)) if turned[i] != turned[i + 1]}      # two ways that both end here, or both start
        ways = [{'id': self.new_id(), 'nd': p[::-1] if t else p,
                 'tags': [['railway', 'rail']] if rng.random() < 0.5 else []} for p, t in zip(parts, turned)]
        # places with what is on the map already
        anchors = []
        for i in rng.sample(range(len(ms)), len(ms)):
            if (i not in bad or rng.random() < 0.2) and all(abs(ms[i] - ms[j]) >= APART for j in anchors) and (i not in cuts or rng.random() < 0.3):
                anchors.append(i)
        anchors = anchors[:rng.choice([0, 1, 2, 2, 3, 3, 4, 6])]
        known = []
        for i in anchors:
            d = rng.choice('FS')
            tags = nodes[i]['tags']
            if rng.random() < 0.3:
                tags.append(['electrified', 'contact_line'])
            if rng.random() < 0.5:
                n = self.name('N')
                tags += [['railway', 'signal'], ['ref', n if rng.random() < 0.6 else n[:1] + ' ' + n[1:] + rng.choice(['', ' '])]]
                known.append(('ms', d, i, n))
            else:
                n = self.name('W')
                tags += [['railway', 'switch'], [rng.choice(['ref', 'name']), n]]
                kinds = rng.choice([['simple_switch'], ['simple_switch', 'stem'], ['stem'], ['left', 'right'], ['simple_switch', 'stem', 'left'], ['right']])
                known += [(k, '', i, n) for k in kinds]
            if rng.random() < 0.3:
                tags.append(['voltage', '15000'])
        # what two nodes claim to be
        if rng.random() < 0.3:
            free = [i for i in range(len(ms)) if not nodes[i]['tags']]
            if len(free) >= 2:
                n = self.name('D')
                for i in rng.sample(free, 2):
                    nodes[i]['tags'] = [['railway', 'signal'], ['ref', n]]
        # a station on the line
        if rng.random() < 0.3:
            for i in rng.sample(range(len(ms)), rng.randint(1, 3)):
                if not nodes[i]['tags']:
                    nodes[i]['tags'] = [['railway', rng.choice(['station', 'halt', 'facility'])]] + [['name', rng.choice(NAMES)]] * (rng.random() < 0.7) + \
                        [['subway', 'yes']] * (rng.random() < 0.15)
        # the railway's data
        rising, start = rng.random() < 0.6, rng.choice([0, 3000, 12345])
        text = {}

        def element(kind, d, m, name='', a='', b=''):
            if m not in text:
                text[m] = km(rng, start + (m - ms[0] if rising else ms[-1] - m))
            return {'kind': kind, 'dir': d, 'km': text[m], 'x': x, 'm': m, 'name': name, 'a': a, 'b': b}
        es = [element(k, d, ms[i], n) for k, d, i, n in known]
        dup = [t[1][1] for t in (n['tags'] for n in nodes) if len(t) == 2 and t[1][0] == 'ref' and t[1][1][0] == 'D']
        for _ in range(rng.randint(0, 12)):
            kind = rng.choice(list(osm.KINDS))
            i = rng.randrange(len(ms)) if not bad or rng.random() < 0.6 else rng.choice(list(bad))
            m = ms[i]
            if rng.random() < 0.5 and anchors and i + 1 < len(ms):
                between = ms[i] + (ms[i + 1] - ms[i]) * rng.randint(1, 4) // 5
                if all(abs(between - ms[j]) >= APART for j in anchors) and between != ms[i]:
                    m = between
            directed, named = osm.KINDS[kind]
            name = self.name(kind[0].upper()) if named == 'unique' else rng.choice(NAMES + [ref]) if named else ''
            if kind == 'ms' and dup and rng.random() < 0.5:
                name, dup = dup[0], []
            a, b = (rng.choice(['80', '120']), '') if kind == 'spl' else (rng.choice(['1,5', '0']), rng.choice(['2', '0'])) if kind == 'slope' else ('', '')
            es.append(element(kind, rng.choice('FS') if directed else '', m, name, a, b))
        rng.shuffle(es)
        knots = []
        while es:
            k = rng.randint(1, 4)
            knots.append(es[:k])
            es = es[k:]
        while knots:
            k = rng.randint(1, 3)
            self.sections.append({'line': ref, 'knots': knots[:k]})
            knots = knots[k:]
        # a track that branches off, perhaps to another line
        if rng.random() < 0.3:
            inner = [i for i in range(1, len(ms) - 1) if i not in cuts]
            for i in rng.sample(inner, min(len(inner), rng.choice([1, 1, 2]))):
                side = [{'id': self.new_id(), 'x': x + 10, 'm': ms[i] + 40 * (j + 1), 'tags': []} for j in range(rng.randint(1, 3))]
                nd = [ids[i]] + [n['id'] for n in side]
                if self.nodes and rng.random() < 0.5:
                    nd.append(rng.choice(self.nodes)['id'])
                nodes += side
                ways.append({'id': self.new_id(), 'nd': nd if rng.random() < 0.7 else nd[::-1], 'tags': []})
        self.nodes += nodes
        self.ways += ways
        ws = [w['id'] for w in ways]
        tags = [['route', rng.choice(['tracks', 'railway'])], ['ref', ref]]
        if rng.random() < 0.5:
            tags = [['name', rng.choice(NAMES)]] + tags[::-1]
        if len(ws) > 1 and rng.random() < 0.2:
            k = rng.randint(1, len(ws) - 1)
            self.rels.append({'id': self.new_id(), 'ways': ws[:k], 'tags': tags})
            ws = ws[k:]
        self.rels.append({'id': self.new_id(), 'ways': ws, 'tags': tags})

    def others(self, taken):
        rng = self.rng
        for _ in range(rng.choice([0, 0, 2, 5])):
            tags = [['railway', rng.choice(['station', 'halt', 'facility', 'tram_stop', 'signal'])]]
            if rng.random() < 0.8:
                tags.append(['name', rng.choice(NAMES)])
            if rng.random() < 0.3:
                tags.append([rng.choice(['subway', 'monorail']), rng.choice(['yes', 'no'])])
            self.nodes.append({'id': self.new_id(), 'x': 20 + rng.randint(0, 9), 'm': 500 + self.id, 'tags': tags})
        if rng.random() < 0.5:                        # what is no line
            ids = [self.new_id() for _ in range(3)]
            self.nodes += [{'id': i, 'x': 40, 'm': 500 + i, 'tags': []} for i in ids]
            w = self.new_id()
            self.ways.append({'id': w, 'nd': ids, 'tags': [['highway', 'x']]})
            tags = rng.choice([[['route', 'bus'], ['ref', '5100']], [['route', 'tracks'], ['ref', 'S 12']], [['route', 'tracks'], ['ref', '12']], [['route', 'railway']],
                               [['route', 'tracks'], ['ref', '12345']], [['type', 'route'], ['ref', '0042']]])
            self.rels.append({'id': self.new_id(), 'ways': [w], 'tags': tags})

    def files(self):
        rng = self.rng
        secs = list(self.sections)
        if rng.random() < 0.3:
            secs.append({'line': '7777', 'knots': [[{'kind': 'ms', 'dir': 'F', 'km': '1,000', 'x': 1, 'm': 1000, 'name': 'N1', 'a': '', 'b': ''}]]})
        rng.shuffle(secs)
        files = [[] for _ in range(rng.choice([1, 1, 2, 3]))]
        while secs:
            k = rng.randint(1, 3)
            rng.choice(files).append({'name': rng.choice(NAMES[:2]), 'sections': secs[:k]})
            secs = secs[k:]
        return files

    def command(self, mode):
        return {'op': 'generate', 'mode': mode, 'nodes': self.nodes, 'ways': self.ways, 'rels': self.rels, 'files': self.files()}


def history(rng):
    modes = rng.choice([['mdb'], ['mdb'], ['mdb'], ['mdb'], ['add'], ['mdb', 'gl'], ['gl', 'no'], ['no', 'mdb'], ['gl', 'mdb'], ['mdb', 'add']])
    h, s = [{'op': 'new'}], None
    for m in modes:
        if s is None or m != 'no':
            s = Scene(rng)
        h.append(s.command(m))
    return h


def check(ctx):
    exe = osm.build(ctx)
    hs = [history(ctx.rng) for _ in range(6000 if ctx.thorough else 400)]
    ctx.stat('maps', sum(len(h) - 1 for h in hs)) if hasattr(ctx, 'stat') else None
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('OsmTool', events, parallel=8)
