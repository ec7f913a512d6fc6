"""Track plans: random well-formed infrastructure descriptions, written as the
XML files the library reads and as the JSON the specification reads. The plan
is the input of both; nothing here comes from the library."""
import os
import shutil
import random
import xml.etree.ElementTree as ET

# tag -> (type name, direction) of track elements
DIRECTED = {}
for base, t in [('Hauptsignal', 'ms'), ('Vorsignal', 'as'), ('Schutzsignal', 'ps'), ('FstrZugschlussstelle', 'eotd'),
                ('SignalZugschlussstelle', 'eotd'), ('GeschwZulaessig', 'spl'), ('GeschwEndeSpeziell', 'spl'),
                ('Punktgeschw', 'point_speed'), ('Zwangshalt', 'forced_halt'), ('Fahrzeitmesspunkt', 'rtcp'),
                ('HalteplatzGz', 'hlt'), ('HalteplatzRzLinks', 'hlt'), ('HalteplatzRzRechts', 'hlt'),
                ('HalteplatzRzBeide', 'hlt'), ('HalteplatzRzRechtsLinks', 'hlt'), ('Bremsweg', 'brake_path'),
                ('LZBAnfang', 'lzb_start'), ('LZBEnde', 'lzb_end'), ('LZBBlockkennzeichen', 'lzb_block_sign'),
                ('ETCSAnfang', 'etcs_start'), ('ETCSEnde', 'etcs_end'), ('ETCSBlockkennzeichen', 'etcs_block_sign')]:
    DIRECTED[base + 'S'] = (t, 'S')
    DIRECTED[base + 'F'] = (t, 'F')
UNDIRECTED = {'Neigung': 'slope', 'Tunnel': 'tunnel', 'Gleisbezeichnung': 'track_name',
              'Bahnuebergang': 'level_crossing', 'Fahrzeitmesspunkt': 'rtcp_u', 'Zugang': 'entry'}
# port tag -> (type, port, is main node)
PORTS = {'Prellbock': ('bumper', 'a', True), 'Gleisende': ('track_end', 'a', True),
         'Betriebsstellengrenze': ('border', 'a', True),
         'KmSprungAnfang': ('km_jump', 'a', True), 'KmSprungEnde': ('km_jump', 'b', False),
         'Streckenwechsel0': ('line_switch', 'a', True), 'Streckenwechsel1': ('line_switch', 'b', False),
         'Weichenanfang': ('simple_switch', 'start', True), 'Weichenstamm': ('simple_switch', 'stem', False),
         'WeichenabzweigLinks': ('simple_switch', 'branch', False),
         'WeichenabzweigRechts': ('simple_switch', 'branch', False),
         'KreuzungAnfangLinks': ('cross', 'sl', True), 'KreuzungEndeLinks': ('cross', 'el', False),
         'KreuzungAnfangRechts': ('cross', 'sr', False), 'KreuzungEndeRechts': ('cross', 'er', False),
         'KreuzungsweicheAnfangLinks': ('cross', 'sl', True), 'KreuzungsweicheEndeLinks': ('cross', 'el', False),
         'KreuzungsweicheAnfangRechts': ('cross', 'sr', False), 'KreuzungsweicheEndeRechts': ('cross', 'er', False)}
ORDER = {'tunnel': 0, 'slope': 10, 'entry': 20, 'rtcp_u': 100, 'rtcp': 101, 'hlt': 110, 'ms': 120, 'as': 130,
         'ps': 140, 'eotd': 150, 'lzb_start': 160, 'lzb_block_sign': 170, 'lzb_end': 180, 'etcs_start': 190,
         'etcs_block_sign': 200, 'etcs_end': 210, 'spl': 220, 'forced_halt': 230, 'point_speed': 240,
         'brake_path': 250, 'track_name': 300, 'level_crossing': 310}
ATTRS = ['DurchfahrtOhneHaltMoeglich', 'Elektrifiziert', 'Falschfahrt', 'Gleiswechselbetrieb', 'Stumpfgleis',
         'AusDurchfahrt40', 'HaltImmerMoeglich', 'AutomatischErzeugt', 'UmleitungStreckenwechsel',
         'HerausDurchgehendesHauptgleis', 'HineinDurchgehendesHauptgleis']
SIGNALLING = {0: False, 1: True, 2: True, 3: False, 6: True, 8: True, 9: True, 12: True, 13: False, 14: False, 15: True,
              18: True, 20: True, 21: True, 23: True, 24: False}


def tagtype(tag):
    if tag in DIRECTED:
        return DIRECTED[tag][0]
    if tag in UNDIRECTED:
        return UNDIRECTED[tag]
    return PORTS[tag][0]


def km_text(mm, rng=None):
    """chainage of mm millimetres as the files write it"""
    def f(x, nd=6):
        s = '%d,%06d' % (x // 1000000, x % 1000000)
        return s[:len(s) - 6 + nd]
    if mm < 0:
        return '-' + f(-mm)
    return f(mm)


# chainages are whole decimetres, as in the files the library is made for: it
# takes chainages less than a centimetre apart for the same
Q = 100


class Head:
    """an open end of track, to be continued towards the east"""
    def __init__(self, elem, port, line, up, km, jump=False):
        self.elem, self.port, self.line, self.up, self.km = elem, port, line, up, km
        self.jump = jump


class Gen:
    def __init__(self, rng, stations=3, width=3, steps=6, mids=4, routes=6, etcs=False, ties=True, exotic=True,
                 ms=0.25, base=None, spl=0.1, dup=0.0, whole=0.65):
        self.rng = rng
        self.cfg = dict(stations=stations, width=width, steps=steps, mids=mids, routes=routes, etcs=etcs, ties=ties,
                        exotic=exotic, ms=ms, spl=spl, whole=whole)
        self.next_id = 0
        self.ids = list(range(1, 20000))
        rng.shuffle(self.ids)
        self.km_used = {}
        self.plan = {'stations': [], 'secs': [], 'lines': [], 'version': [rng.choice(['V-%d' % rng.randint(1, 99)]), rng.randint(1, 9999)]}
        self.elems = {}      # main id -> {'type', 'tags': {port: tag}, 'arcs'}
        self.port_sec = {}   # (elem, port) -> (sec index, 'lo' | 'hi')
        self.next_line = rng.choice([1, 100, 2651])
        self.signs = {}
        self.line_kms = {}
        self.route_no = 0

    # ------------------------------------------------------------ helpers
    def nid(self):
        return self.ids.pop()

    def newline(self):
        self.next_line += self.rng.randint(1, 7)
        return self.next_line

    def uniq(self, line, km):
        used = self.km_used.setdefault(line, set())
        km -= km % Q
        while km in used:
            km += Q
        used.add(km)
        self.line_kms.setdefault(line, []).append(km)
        return km

    def mids(self, line, lo, hi):
        rng = self.rng
        out = []
        n = rng.choice([0, 0, 1, 2, 3, 4, 5, 6])
        n = min(n, self.cfg['mids'])
        kms = []
        for _ in range(n):
            k = rng.randint(lo + 1, hi - 1) if hi - lo > 2 * Q else lo
            k = self.uniq(line, k)
            if lo < k < hi:
                kms.append(k)
        for k in kms:
            out.append(self.mid(rng.choice(['S', 'F']), k, line))
            if self.cfg['ties'] and rng.random() < 0.25:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    e = self.mid(rng.choice(['S', 'F', 'S', 'F', 'U']), k, line)
                    if all((tagtype(e['tag']), e['tag'][-1] if e['tag'] in DIRECTED else '', e['km']) !=
                           (tagtype(o['tag']), o['tag'][-1] if o['tag'] in DIRECTED else '', o['km']) for o in out):
                        out.append(e)
        seen = set()
        res = []
        for e in out:
            k = (tagtype(e['tag']), e['tag'][-1] if e['tag'] in DIRECTED else '', e['km'])
            if k in seen:
                continue
            seen.add(k)
            res.append(e)
        rng.shuffle(res)
        return res

    def mid(self, d, km, line):
        rng = self.rng
        r = rng.random()
        c = self.cfg
        if d == 'U' or r < 0.15:
            tag = rng.choice(list(UNDIRECTED))
        elif r < 0.15 + c['ms']:
            tag = 'Hauptsignal' + d
        elif r < 0.15 + c['ms'] + 0.2:
            tag = rng.choice(['HalteplatzGz', 'HalteplatzRzLinks', 'HalteplatzRzRechts', 'HalteplatzRzBeide',
                              'HalteplatzRzRechtsLinks']) + d
        elif r < 0.15 + c['ms'] + 0.2 + c['spl']:
            tag = rng.choice(['GeschwZulaessig', 'GeschwZulaessig', 'GeschwEndeSpeziell']) + d
        else:
            rest = ['Vorsignal', 'Schutzsignal', 'FstrZugschlussstelle', 'SignalZugschlussstelle', 'Fahrzeitmesspunkt',
                    'Fahrzeitmesspunkt']
            if c['exotic']:
                rest += ['Punktgeschw', 'Zwangshalt', 'Bremsweg', 'LZBAnfang', 'LZBEnde', 'LZBBlockkennzeichen']
            if c['etcs']:
                rest += ['ETCSAnfang', 'ETCSAnfang', 'ETCSEnde', 'ETCSBlockkennzeichen']
            tag = rng.choice(rest) + d
        e = {'id': self.nid(), 'tag': tag, 'km': km, 'x': {}}
        t = tagtype(tag)
        if t in ('ms', 'hlt'):
            e['x']['Name'] = 'N%d' % e['id']
        if t == 'hlt':
            e['x']['BezeichnerBetrieb'] = 'B%d' % rng.randint(0, 99)
            e['x']['BezeichnerExtern'] = 'X%d' % rng.randint(0, 99)
        if t == 'slope':
            e['x']['Steigend'] = '%d,%d' % (rng.randint(0, 12), rng.randint(0, 9))
            e['x']['Fallend'] = '%d,%d' % (rng.randint(0, 12), rng.randint(0, 9))
        if t == 'spl':
            if tag.startswith('GeschwZ'):
                e['x']['Geschw'] = str(rng.choice([20, 40, 60, 80, 100, 120, 160, 5, 230]))
            e['x']['Wirkungsort'] = rng.choice(['Hier', 'Signal'])
            e['x']['Zugbeeinflussung'] = rng.choice(['Alle', 'Konventionell', 'LZB'])
            if tag.startswith('GeschwZ') and e['x']['Wirkungsort'] == 'Hier' and rng.random() < 0.3:
                e['x']['Laenge'] = rng.choice([['m', str(rng.randint(10, 900))], ['km', '0,%03d' % rng.randint(1, 999)]])
            if rng.random() < 0.2:
                e['x']['Berechnet'] = ''
        return e

    # ------------------------------------------------------------ elements
    def element(self, typ):
        eid = self.nid()
        self.elems[eid] = {'type': typ, 'ports': {}}
        return eid

    def section(self, head, elem, port):
        """lay track from a head to a port of an element"""
        rng = self.rng
        length = rng.choice([2 * Q, 5 * Q, 1000, 50000, 200000, 700000, 2000000])
        line = head.line
        if head.up:
            lo = head.km
            hi = lo + length
        else:
            hi = head.km
            lo = hi - length
        far = self.uniq_far(line, hi if head.up else lo, head.up)
        if head.up:
            hi = far
        else:
            lo = far
        if rng.random() < 0.06:     # a section without length
            pass
        mids = self.mids(line, lo, hi)
        a = self.port_node(head.elem, head.port, head.km)
        b = self.port_node(elem, port, far)
        nodes = [a] + mids + [b] if head.up else [b] + mids + [a]
        self.cur_secs.append({'line': line, 'nodes': nodes})
        return far

    def uniq_far(self, line, km, up):
        used = self.km_used.setdefault(line, set())
        km -= km % Q
        while km in used:
            km += Q if up else -Q
        used.add(km)
        self.line_kms.setdefault(line, []).append(km)
        return km

    def port_node(self, elem, port, km):
        e = self.elems[elem]
        t = e['type']
        if t == 'cross':
            kind = 'Kreuzungsweiche' if e['slip'] else 'Kreuzung'
            tag = kind + {'sl': 'AnfangLinks', 'el': 'EndeLinks', 'sr': 'AnfangRechts', 'er': 'EndeRechts'}[port]
        elif t == 'simple_switch':
            tag = {'start': 'Weichenanfang', 'stem': 'Weichenstamm', 'branch': e['branch_tag']}[port]
        elif t == 'line_switch':
            tag = {'a': 'Streckenwechsel0', 'b': 'Streckenwechsel1'}[port]
        elif t == 'km_jump':
            tag = {'a': 'KmSprungAnfang', 'b': 'KmSprungEnde'}[port]
        else:
            tag = {'bumper': 'Prellbock', 'track_end': 'Gleisende', 'border': 'Betriebsstellengrenze'}[t]
        main = PORTS[tag][2]
        nid = elem if main else self.nid()
        n = {'id': nid, 'tag': tag, 'km': km, 'main': elem, 'x': {}}
        if t == 'border':
            n['partner'], n['sign'] = e['partner'], e['sign']
        if t == 'cross' and e['slip']:
            n['arc'] = (port in ('sl', 'er') and e['arc_lr']) or (port in ('sr', 'el') and e['arc_rl'])
        if t == 'simple_switch' and port == 'start':
            n['x']['Name'] = 'W%d' % elem
            if elem % 3 == 0:
                n['x']['Oberflaechenbezeichner'] = 'U%d' % (elem % 100)
        e['ports'][port] = nid
        return n

    def out(self, elem, port, head, keep=True, may_change=True, jump=None):
        """the head leaving `port`, on the line of `head`, or on another line"""
        rng = self.rng
        if may_change and rng.random() < 0.25:
            line = self.newline()
            return Head(elem, port, line, rng.random() < 0.5, Q * rng.randint(40000000 // Q, 90000000 // Q))
        return Head(elem, port, head.line, head.up, head.km if jump is None else jump)

    # ------------------------------------------------------------ topology
    def build(self):
        rng = self.rng
        n = self.cfg['stations']
        names = ['S%02d' % i if rng.random() < 0.7 else 'T %d' % i for i in range(n)]
        rng.shuffle(names)
        heads = []          # heads crossing from the previous station: dicts
        stations = []
        for i in range(n):
            self.cur_secs = []
            self.name = names[i]
            st = {'name': names[i], 'secs': [], 'routes': [], 'borders': []}
            cur = []
            for (line, up, km, sign) in heads:
                b = self.element('border')
                self.elems[b].update(partner=names[i - 1], sign=sign)
                st['borders'].append(b)
                cur.append(Head(b, 'a', line, up, km))
            if i == 0:
                for _ in range(rng.choice([1, 1, 2])):
                    self.open_head(cur, st, None)
            for _ in range(rng.randint(1, self.cfg['steps'])):
                self.step(cur, st)
            # leave the station
            heads = []
            keep = rng.randint(1, max(1, min(len(cur), self.cfg['width']))) if cur else 0
            k = 0
            for h in cur:
                if i < n - 1 and k < keep:
                    b = self.element('border')
                    sign = self.sign()
                    self.elems[b].update(partner=names[i + 1], sign=sign)
                    st['borders'].append(b)
                    far = self.section(h, b, 'a')
                    heads.append((h.line, h.up, far if rng.random() < 0.7 else far, sign))
                    k += 1
                else:
                    self.close_head(h, st, None)
            if not heads and i < n - 1:
                # nothing left to continue: start afresh
                pass
            for s in self.cur_secs:
                pass
            rng.shuffle(self.cur_secs)
            st['sections'] = self.cur_secs
            stations.append(st)
        order = list(range(n))
        rng.shuffle(order)
        for o in order:
            st = stations[o]
            idx = len(self.plan['stations'])
            for s in st['sections']:
                s['st'] = idx
                st['secs'].append(len(self.plan['secs']))
                self.plan['secs'].append(s)
            self.plan['stations'].append({'name': st['name'], 'secs': st['secs'], 'routes': []})
        self.lines()
        self.index()
        self.routes()
        return self.plan

    def sign(self):
        return self.nid()

    def open_head(self, cur, st, _):
        rng = self.rng
        line = self.newline()
        up = rng.random() < 0.5
        km = Q * rng.randint(40000000 // Q, 90000000 // Q)
        t = rng.choice(['bumper', 'track_end', 'track_end', 'border'])
        e = self.element(t)
        if t == 'border':
            self.elems[e].update(partner='ELSEWHERE', sign=self.sign())
        self.km_used.setdefault(line, set()).add(km)
        cur.insert(rng.randint(0, len(cur)), Head(e, 'a', line, up, km))

    def close_head(self, h, st, _):
        t = self.rng.choice(['bumper', 'track_end', 'track_end', 'border'])
        e = self.element(t)
        if t == 'border':
            self.elems[e].update(partner='ELSEWHERE', sign=self.sign())
        self.section(h, e, 'a')

    def step(self, cur, st):
        rng = self.rng
        r = rng.random()
        if not cur:
            self.open_head(cur, st, None)
            return
        i = rng.randrange(len(cur))
        h = cur[i]
        if r < 0.28 and len(cur) < self.cfg['width'] + 1:      # split
            e = self.element('simple_switch')
            self.elems[e]['branch_tag'] = rng.choice(['WeichenabzweigLinks', 'WeichenabzweigRechts'])
            far = self.section(h, e, 'start')
            h2 = Head(e, 'start', h.line, h.up, far)
            cur[i:i + 1] = [self.out(e, 'stem', h2), self.out(e, 'branch', h2)]
            if rng.random() < 0.5:
                cur[i], cur[i + 1] = cur[i + 1], cur[i]
        elif r < 0.48 and len(cur) > 1:                         # merge
            j = i + 1 if i + 1 < len(cur) else i - 1
            a, b = (i, j) if rng.random() < 0.5 else (j, i)
            hs, hb = cur[a], cur[b]
            e = self.element('simple_switch')
            self.elems[e]['branch_tag'] = rng.choice(['WeichenabzweigLinks', 'WeichenabzweigRechts'])
            k1 = self.section(hs, e, 'stem')
            k2 = self.section(hb, e, 'branch')
            # the start: on the line of the stem or of the branch (aligned) or on a new one
            base = Head(e, 'start', hs.line, hs.up, k1) if rng.random() < 0.6 else Head(e, 'start', hb.line, hb.up, k2)
            h3 = self.out(e, 'start', base)
            # a leg on the line of the start must be aligned with it
            if (hs.line == h3.line and hs.up != h3.up) or (hb.line == h3.line and hb.up != h3.up):
                h3 = Head(e, 'start', self.newline(), rng.random() < 0.5, Q * rng.randint(40000000 // Q, 90000000 // Q))
            lo, hi = min(i, j), max(i, j)
            cur[lo:hi + 1] = [h3]
        elif r < 0.62 and len(cur) > 1:                         # crossing
            j = i + 1 if i + 1 < len(cur) else i - 1
            i, j = min(i, j), max(i, j)
            h1, h2 = cur[i], cur[j]
            e = self.element('cross')
            slip = rng.random() < 0.6
            self.elems[e].update(slip=slip, arc_lr=slip and rng.random() < 0.6, arc_rl=slip and rng.random() < 0.6)
            # which way round the crossing lies
            flip = rng.random() < 0.5
            pin = ('sl', 'sr') if not flip else ('el', 'er')
            pout = ('el', 'er') if not flip else ('sl', 'sr')
            k1 = self.section(h1, e, pin[0])
            k2 = self.section(h2, e, pin[1])
            o1 = self.out(e, pout[0], Head(e, pout[0], h1.line, h1.up, k1))
            o2 = self.out(e, pout[1], Head(e, pout[1], h2.line, h2.up, k2))
            cur[i:j + 1] = [o2, o1]
        elif r < 0.72:                                          # line switch
            e = self.element('line_switch')
            a, b = rng.choice([('a', 'b'), ('b', 'a')])
            self.section(h, e, a)
            cur[i] = Head(e, b, self.newline(), rng.random() < 0.5, Q * rng.randint(40000000 // Q, 90000000 // Q))
        elif r < 0.80:                                          # chainage jump
            e = self.element('km_jump')
            a, b = ('b', 'a') if h.up else ('a', 'b')
            far = self.section(h, e, a)
            km = far + rng.choice([-3000, 5000, 123456, -98765]) * (7 if rng.random() < 0.3 else 1)
            km = self.uniq_far(h.line, max(km, 1000), h.up)
            cur[i] = Head(e, b, h.line, h.up, km)
        elif r < 0.88 and len(cur) < self.cfg['width'] + 1:     # a track begins here
            self.open_head(cur, st, None)
        elif r < 0.93 and len(cur) > 1:                         # a track ends here
            self.close_head(h, st, None)
            del cur[i]
        else:                                                   # nothing but a plain switch pair
            pass

    def lines(self):
        rng = self.rng
        for line in sorted({s['line'] for s in self.plan['secs']}):
            kms = sorted(self.line_kms.get(line, [0]))
            lo, hi = kms[0] - 100000, kms[-1] + 100000
            cuts = sorted(rng.sample(range(lo + 1, hi), rng.choice([0, 0, 1, 2])))
            bounds = [lo] + cuts + [hi]
            segs = []
            for a, b in zip(bounds, bounds[1:]):
                art = rng.choice([1, 2, 3, 13, 14, 8, 24, 13, 9])
                segs.append([a, b, art])
            self.plan['lines'].append([line, segs])

    # ------------------------------------------------------------ walking (only to choose routes)
    def index(self):
        self.port_sec = {}
        self.node_elem = {}
        for si, s in enumerate(self.plan['secs']):
            for pos, n in (('lo', s['nodes'][0]), ('hi', s['nodes'][-1])):
                self.port_sec[(n['main'], PORTS[n['tag']][1])] = (si, pos)
            for n in s['nodes'][1:-1]:
                self.node_elem[n['id']] = (si, n)

    def mids_in(self, si, rising):
        ns = [n for n in self.plan['secs'][si]['nodes'][1:-1]
              if n['tag'] in UNDIRECTED or (n['tag'] in DIRECTED and (n['tag'][-1] == 'S') == rising)]
        ns.sort(key=lambda n: (n['km'] if rising else -n['km'], ORDER[tagtype(n['tag'])], n['id']))
        return ns

    def legs(self, e, entry):
        t = self.elems[e]['type']
        if t in ('line_switch', 'km_jump'):
            return [('next', 'b' if entry == 'a' else 'a')]
        if t == 'simple_switch':
            return [('next', 'start')] if entry != 'start' else [('next', 'stem'), ('branch', 'branch')]
        if t == 'cross':
            x = self.elems[e]
            r = [('next', {'sl': 'el', 'el': 'sl', 'sr': 'er', 'er': 'sr'}[entry])]
            if x['arc_lr'] and entry in ('sl', 'er'):
                r.append(('branch', 'er' if entry == 'sl' else 'sl'))
            if x['arc_rl'] and entry in ('sr', 'el'):
                r.append(('branch', 'el' if entry == 'sr' else 'sr'))
            return r
        return []

    def is_switch(self, e):
        x = self.elems[e]
        return x['type'] == 'simple_switch' or (x['type'] == 'cross' and (x['arc_lr'] or x['arc_rl']))

    def routes(self):
        rng = self.rng
        for idx, st in enumerate(self.plan['stations']):
            ends = []
            for si in st['secs']:
                s = self.plan['secs'][si]
                for n in (s['nodes'][0], s['nodes'][-1]):
                    if self.elems[n['main']]['type'] in ('border', 'track_end', 'bumper'):
                        ends.append(n['main'])
            if not ends:
                continue
            total = rng.randint(2, self.cfg['routes'])
            names = set()
            for _ in range(total):
                r = self.route(rng.choice(ends))
                if r is None:
                    continue
                name = 'R%d' % rng.randint(1, 9999)
                while name in names:
                    name += 'x'
                names.add(name)
                r['name'] = name
                st['routes'].append(r)
                if rng.random() < 0.2:       # the same path again, described anew
                    q = self.describe(r['_path'], r['start'], r['end'], r['course'])
                    q['name'] = name + 'b'
                    names.add(q['name'])
                    st['routes'].append(q)
            for r in st['routes']:
                del r['_path']

    def route(self, start):
        rng = self.rng
        # walk from an end of the station until an end of it
        path = []       # (kind, element id or mid node)
        e, port = start, 'a'
        path.append(('E', e, None))
        guard = 0
        course = []
        while True:
            guard += 1
            if guard > 60:
                return None
            si, pos = self.port_sec[(e, port)]
            rising = pos == 'lo'
            for n in self.mids_in(si, rising):
                path.append(('M', n['id'], n))
            s = self.plan['secs'][si]
            far = s['nodes'][-1] if rising else s['nodes'][0]
            e2, p2 = far['main'], PORTS[far['tag']][1]
            path.append(('E', e2, None))
            legs = self.legs(e2, p2)
            if not legs:
                break
            kind, out = rng.choice(legs)
            if self.is_switch(e2):
                course.append((len(path) - 1, kind if len(legs) > 1 else rng.choice(['next', 'branch'])))
            e, port = e2, out
        # whole or part of it
        lo, hi = 0, len(path) - 1
        dirs = [i for i, p in enumerate(path) if p[0] == 'M' and p[2]['tag'] in DIRECTED]
        r = rng.random()
        w = self.cfg['whole']
        if r < w or not dirs:
            pass
        elif r < w + (1 - w) * 0.37:
            hi = rng.choice(dirs)
        elif r < w + (1 - w) * 0.77:
            lo = rng.choice(dirs)
        else:
            a, b = rng.choice(dirs), rng.choice(dirs)
            lo, hi = min(a, b), max(a, b)
        if lo == hi:
            return None
        # the end must not be met before: the walk is acyclic
        sub = path[lo:hi + 1]
        cs = [k for i, k in course if lo <= i < hi]
        if rng.random() < 0.3 and course and hi == course[-1][0]:
            pass
        return self.describe(sub, path[lo][1], path[hi][1], cs)

    def describe(self, sub, start, end, cs):
        rng = self.rng
        mids = [p[2] for p in sub if p[0] == 'M']
        dirm = [n for n in mids if n['tag'] in DIRECTED]
        r = {'start': start, 'end': end, 'course': list(cs), '_path': sub, 'omit': [], 'spl': [], 'attrs': [],
             'pass': 0, 'freight': 0, 'rtcp': 0}
        hp = [n for n in dirm if n['tag'].startswith('HalteplatzRz')]
        hf = [n for n in dirm if n['tag'].startswith('HalteplatzGz')]
        if hp and rng.random() < 0.8:
            r['pass'] = rng.choice(hp)['id']
        if (hf or hp) and rng.random() < 0.7:
            r['freight'] = rng.choice(hf or hp)['id']
        cp = [n for n in mids if tagtype(n['tag']) in ('rtcp', 'rtcp_u')]
        if cp and rng.random() < 0.7:
            r['rtcp'] = rng.choice(cp)['id']
        ends = {start, end}
        inner = [n for n in dirm if n['id'] not in ends]
        if inner and rng.random() < 0.5:
            for n in rng.sample(inner, rng.randint(1, min(3, len(inner)))):
                if n['id'] not in (r['pass'], r['freight'], r['rtcp']) and not tagtype(n['tag']).startswith('etcs'):
                    r['omit'].append(n['id'])
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            x = {'Geschw': str(rng.choice([10, 20, 30, 40, 60, 90])), 'Wirkungsort': rng.choice(['Hier', 'Signal']),
                 'Zugbeeinflussung': rng.choice(['Alle', 'Konventionell', 'LZB'])}
            if rng.random() < 0.3:
                x['Laenge'] = ['m', str(rng.randint(5, 500))]
            pool = dirm + [n for n in mids if n['tag'] in UNDIRECTED]
            if pool and rng.random() < 0.93:
                r['spl'].append([rng.choice(pool)['id'], x])
            elif rng.random() < 0.5:
                r['spl'].append([rng.choice([p[1] for p in sub if p[0] == 'E'] or [start]), x])
        r['attrs'] = [a for a in ATTRS if rng.random() < (0.6 if a == 'Elektrifiziert' else 0.2)]
        return r


def finish(plan):
    """number the routes as the files list them"""
    plan['routes'] = []
    for i, st in enumerate(plan['stations']):
        for r in st['routes']:
            r['st'] = i
            plan['routes'].append(r)
    return plan


def random_plan(rng, **kw):
    for _ in range(50):
        p = finish(Gen(rng, **kw).build())
        if p['routes']:
            return p
    raise RuntimeError('no plan')


# ---------------------------------------------------------------- XML
def esc(s):
    return str(s).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def node_xml(n, plan, tags):
    o = ['<%s><ID>%d</ID><Kilometrierung>%s</Kilometrierung>' % (n['tag'], n['id'], n.get('kmtext') or km_text(n['km']))]
    t = n['tag']
    for k, v in n['x'].items():
        if isinstance(v, list):
            o.append('<%s Einheit="%s">%s</%s>' % (k, v[0], esc(v[1]), k))
        else:
            o.append('<%s>%s</%s>' % (k, esc(v), k))
    if 'xy' in n:
        o.append('<Bildkoordinaten><X>%s</X><Y>%s</Y></Bildkoordinaten>' % n['xytext'])
    if t == 'Betriebsstellengrenze':
        o.append('<PartnerBtrst>%s</PartnerBtrst><Gleiskennzeichen>%d</Gleiskennzeichen>' % (esc(n['partner']), n['sign']))
    if t in PORTS:
        m = n['main']
        if t.startswith('Weichen') and t != 'Weichenanfang':
            o.append('<Partner Typ="Weichenanfang" ID="%d"/>' % m)
        if t in ('Streckenwechsel1', 'KmSprungEnde'):
            o.append('<Partnerknoten Typ="x" ID="%d"/>' % m)
        if t.startswith('Kreuzung'):
            if t.endswith('EndeLinks'):
                o.append('<NachbarGeradeaus Typ="x" ID="%d"/>' % m)
            elif t.endswith('AnfangRechts') or t.endswith('EndeRechts'):
                o.append('<HauptknotenAnfang Typ="x" ID="%d"/>' % m)
            if n.get('arc'):
                o.append('<NachbarAbzweig Typ="x" ID="0"/>')
    o.append('</%s>' % t)
    return ''.join(o)


def write_iss(plan, d, split=1):
    os.makedirs(d, exist_ok=True)
    tags = {}
    for s in plan['secs']:
        for n in s['nodes']:
            tags[n['id']] = n['tag']
    files = []
    chunks = [plan['stations'][i::1] for i in range(1)]
    per = max(1, (len(plan['stations']) + split - 1) // split)
    chunks = [plan['stations'][i:i + per] for i in range(0, len(plan['stations']), per)]
    for ci, sts in enumerate(chunks):
        o = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<XmlIssDaten><Spurplanbetriebsstellen>']
        for st in sts:
            o.append('<Spurplanbetriebsstelle><Betriebsstelle>%s</Betriebsstelle><Spurplanabschnitte>' % esc(st['name']))
            for si in st['secs']:
                s = plan['secs'][si]
                o.append('<Spurplanabschnitt><Strecke>%d</Strecke><Spurplanknoten>' % s['line'])
                o += [node_xml(n, plan, tags) for n in s['nodes'][:-1]]
                o += ['<Bildpunkt><ID>%d</ID><Bildkoordinaten><X>%s</X><Y>%s</Y></Bildkoordinaten></Bildpunkt>' % (900000 + 10 * si + k, x, y)
                      for k, (x, y) in enumerate(s.get('points', []))]
                o.append(node_xml(s['nodes'][-1], plan, tags))
                o.append('</Spurplanknoten></Spurplanabschnitt>\n')
            o.append('</Spurplanabschnitte><Betriebsstellenfahrwege>')
            for r in st['routes']:
                o.append('<Betriebsstellenfahrweg><Name>%s</Name><Anfang Typ="%s" ID="%d"/><Ende Typ="%s" ID="%d"/>' % (
                    esc(r['name']), tags[r['start']], r['start'], tags[r['end']], r['end']))
                for k, t in (('pass', 'Reisezughalt'), ('freight', 'Gueterzughalt'), ('rtcp', 'Fahrzeitmesspunkt')):
                    if r[k]:
                        o.append('<%s Typ="%s" ID="%d"/>' % (t, tags[r[k]], r[k]))
                if r['omit']:
                    o.append('<EntfallendeKnoten>' + ''.join('<EntfallenderKnoten Typ="%s" ID="%d"/>' % (tags[x], x)
                                                            for x in r['omit']) + '</EntfallendeKnoten>')
                o.append('<Attribute>' + ''.join('<%s/>' % a for a in r['attrs']) + '</Attribute>')
                o.append('<Verlauf>' + ''.join('<Stamm/>' if c == 'next' else '<Abzweig/>' for c in r['course']) + '</Verlauf>')
                if r['spl']:
                    o.append('<GeschwBeschraenkungen>')
                    if r['start'] % 2:      # limits at warning signs are left out
                        o.append('<GeschwBeschraenkung><Knoten Typ="Warnfeld" ID="%d"/><Geschw Einheit="km/h">10</Geschw></GeschwBeschraenkung>' % r['end'])
                    for eid, x in r['spl']:
                        o.append('<GeschwBeschraenkung><Knoten Typ="%s" ID="%d"/>' % (tags[eid], eid))
                        for k, v in x.items():
                            o.append('<%s Einheit="%s">%s</%s>' % (k, v[0], v[1], k) if isinstance(v, list)
                                     else '<%s>%s</%s>' % (k, v, k))
                        o.append('</GeschwBeschraenkung>')
                    o.append('</GeschwBeschraenkungen>')
                if r.get('publish_only'):
                    o.append('<nurVeroeffentlichung/>')
                o.append('</Betriebsstellenfahrweg>\n')
            o.append('</Betriebsstellenfahrwege></Spurplanbetriebsstelle>\n')
        o.append('</Spurplanbetriebsstellen></XmlIssDaten>')
        fn = 'Spurplanbetriebsstellen_%d.xml' % ci
        files.append(fn)
        with open(os.path.join(d, fn), 'w', encoding='latin-1') as f:
            f.write('\n'.join(o))
    o = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<XmlIssDaten><Ordnungsrahmen><Strecken>']
    for nr, segs in plan['lines']:
        o.append('<Strecke><Nr>%d</Nr><Streckenabschnitte>' % nr)
        for a, b, art in segs:
            o.append('<Streckenabschnitt><KilometrierungVon>%s</KilometrierungVon><KilometrierungBis>%s</KilometrierungBis>'
                     '%s</Streckenabschnitt>' % (km_text(a), km_text(b), '<Art Schluessel="%d"/>' % art if art else ''))
        o.append('</Streckenabschnitte></Strecke>')
    o.append('</Strecken></Ordnungsrahmen></XmlIssDaten>')
    with open(os.path.join(d, 'Ordnungsrahmen_ORStr_1.xml'), 'w', encoding='latin-1') as f:
        f.write('\n'.join(o))
    files.append('Ordnungsrahmen_ORStr_1.xml')
    if plan.get('full_names'):
        o = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<XmlIssDaten><Ordnungsrahmen><Betriebsstellen>']
        for a, b in plan['full_names']:
            o.append('<Betriebsstelle><DS100>%s</DS100><Name>%s</Name></Betriebsstelle>' % (esc(a), esc(b)))
        o.append('</Betriebsstellen></Ordnungsrahmen></XmlIssDaten>')
        with open(os.path.join(d, 'Ordnungsrahmen_ORBtrst_1.xml'), 'w', encoding='latin-1') as f:
            f.write('\n'.join(o))
        files.append('Ordnungsrahmen_ORBtrst_1.xml')
    if plan.get('core_xml'):
        with open(os.path.join(d, 'Stammdaten_1.xml'), 'w', encoding='latin-1') as f:
            f.write(plan['core_xml'])
        files.append('Stammdaten_1.xml')
    if len(plan['secs']) % 3 == 1 and files[0].startswith('Spur'):      # files that do not concern the infrastructure
        for fn in ('BaubetrieblicheMassnahmen_1.xml', 'Anlage_Spurplanbetriebsstellen.xml'):
            shutil.copy(os.path.join(d, files[0]), os.path.join(d, fn))
            files.insert(0 if fn[0] == 'B' else len(files), fn)
    if 'cliques' in plan:
        with open(os.path.join(d, 'exclusion_sets'), 'w') as f:
            f.write(''.join(' '.join(map(str, c)) + '\n' for c in plan['cliques']))
    with open(os.path.join(d, 'Index.xml'), 'w', encoding='latin-1') as f:
        f.write('<?xml version="1.0" encoding="ISO-8859-1"?>\n<XmlIssIndex><SpurplandatenVersion><Name>%s</Name><Nummer>%d</Nummer>'
                '</SpurplandatenVersion><Dateien>%s</Dateien></XmlIssIndex>' % (
                    plan['version'][0], plan['version'][1],
                    ''.join('<Datei><Name>%s</Name></Datei>' % x for x in files)))


# ---------------------------------------------------------------- what TLC reads
def spl_values(x):
    """limit in m/h, point of application, length in mm, trains concerned"""
    ln = -1
    if 'Laenge' in x:
        unit, v = x['Laenge']
        ln = round(float(v.replace(',', '.')) * (1000000 if unit == 'km' else 1000))
    return [int(x['Geschw']) * 1000 if 'Geschw' in x else -1, 'here' if x['Wirkungsort'] == 'Hier' else 'signal', ln,
            {'Alle': 'all', 'Konventionell': 'conventional', 'LZB': 'lzb'}[x['Zugbeeinflussung']]]


def tla_plan(plan):
    """the plan with only what the specification of the track needs"""
    secs = []
    for s in plan['secs']:
        secs.append({'line': s['line'], 'st': s['st'] + 1,
                     'lo': port_json(s['nodes'][0]), 'hi': port_json(s['nodes'][-1]),
                     'mids': [[n['id'], n['tag'], n['km']] for n in s['nodes'][1:-1]]})
    routes = [{'st': r['st'] + 1, 'start': r['start'], 'end': r['end'], 'course': [c == 'next' for c in r['course']],
               'omit': r['omit'], 'pass': r['pass'], 'freight': r['freight'], 'rtcp': r['rtcp'],
               'spl': [[eid] + spl_values(x) for eid, x in r['spl']], 'attrs': sorted(ATTRS.index(a) for a in r['attrs']),
               'name': r['name']} for r in plan['routes']]
    lines = [[nr, [[a, b, SIGNALLING[art]] for a, b, art in segs]] for nr, segs in plan['lines']]
    return {'secs': secs, 'routes': routes, 'lines': lines, 'names': [s['name'] for s in plan['stations']]}


def port_json(n):
    return {'id': n['id'], 'tag': n['tag'], 'km': n['km'], 'main': n['main'], 'arc': bool(n.get('arc')),
            'partner': n.get('partner', ''), 'sign': n.get('sign', 0)}
