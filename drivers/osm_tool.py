"""Asks the program that puts the railway's data on OpenStreetMap's.
  osm_tool.py build REPO OUT     builds it with stand-ins for its libraries and for osmium
  osm_tool.py run OUT            answers commands, one JSON object a line"""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_NEW = 100000000000
SHOWN_NEW = 1000000000
DEGREE = 6371000.0 * math.pi / 180 / 1.00001      # a touch more than the kilometrage says: what is exactly as far is reached
TAGS = {'as': 'Vorsignal', 'ms': 'Hauptsignal', 'ps': 'Schutzsignal', 'gz': 'HalteplatzGz', 'rz': 'HalteplatzRz',
        'spl': 'GeschwZulaessig', 'eotd1': 'SignalZugschlussstelle', 'eotd2': 'FstrZugschlussstelle',
        'border': 'Betriebsstellengrenze', 'bumper': 'Prellbock', 'track_end': 'Gleisende', 'tunnel': 'Tunnel', 'km_jump': 'KmSprungAnfang',
        'km_jump_end': 'KmSprungEnde', 'line_switch': 'Streckenwechsel0', 'line_switch_1': 'Streckenwechsel1', 'slope': 'Neigung',
        'simple_switch': 'Weichenanfang', 'cross': 'KreuzungsweicheAnfangLinks', 'cross_end': 'KreuzungsweicheEndeLinks',
        'stem': 'Weichenstamm', 'left': 'WeichenabzweigLinks', 'right': 'WeichenabzweigRechts'}


def build(repo, out):
    os.makedirs(out, exist_ok=True)
    mod = open(HERE + '/shim/go/go.mod.tmpl').read().replace('@SHIM@', HERE + '/shim/go')
    open(out + '/go.mod', 'w').write(mod)
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GO111MODULE='on', GOWORK='off',
               GOCACHE=os.environ.get('VERIF_GOCACHE', out + '/cache'), HOME=os.environ.get('HOME', '/root'))
    for d, args in ((repo + '/tools/generate-osm', ['-modfile=' + out + '/go.mod', '-o', out + '/generate']), (HERE + '/drivers/osmium', ['-o', out + '/osmium'])):
        r = subprocess.run(['go', 'build'] + args + ['.'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            return 1
    if 'VERIF_GOCACHE' not in os.environ:
        shutil.rmtree(out + '/cache', ignore_errors=True)
    return 0


def lat(m):
    return '%.12f' % (50 + m / DEGREE)


def lon(x):
    return '%.3f' % (8 + x / 100)


def tags(ts):
    return ''.join('<tag k=%s v=%s/>' % (quoteattr(k), quoteattr(v)) for k, v in ts)


def osm_xml(c):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<osm version="0.6" generator="x">']
    for n in c['nodes']:
        o.append('<node id="%d" lat="%s" lon="%s">%s</node>' % (n['id'], lat(n['m']), lon(n['x']), tags(n['tags'])))
    for w in c['ways']:
        o.append('<way id="%d">%s%s</way>' % (w['id'], ''.join('<nd ref="%d"/>' % i for i in w['nd']), tags(w['tags'])))
    for r in c['rels']:
        o.append('<relation id="%d">%s%s</relation>' % (r['id'], ''.join('<member type="way" ref="%d" role=""/>' % i for i in r['ways']), tags(r['tags'])))
    return '\n'.join(o) + '\n</osm>\n'


def element(e):
    kind, text = e['kind'], lambda t, v: '<%s>%s</%s>' % (t, escape(v), t)
    tag = TAGS[kind] + e['dir']
    body = text('ID', '1') + text('Kilometrierung', e['km'])
    if kind == 'spl':
        body += text('Geschw', e['a'])
    elif kind == 'slope':
        body += text('Steigend', e['a']) + text('Fallend', e['b'])
    elif kind == 'cross':
        body += text('NameAnfang', e['name'])
    elif kind in ('stem', 'left', 'right'):
        body += '<Partner ID="2">%s</Partner>' % escape(e['name'])
    elif e['name']:
        body += text('Name', e['name'])
    return '<%s>%s</%s>' % (tag, body, tag)


def db_xml(stations, label):
    o = ['<?xml version="1.0" encoding="%s"?>\n<XmlIssDaten><Spurplanbetriebsstellen>' % label]
    for s in stations:
        o.append('<Spurplanbetriebsstelle><Betriebsstelle>%s</Betriebsstelle><Spurplanabschnitte>' % escape(s['name']))
        for a in s['sections']:
            o.append('<Spurplanabschnitt><Strecke>%s</Strecke>' % a['line'])
            for k in a['knots']:
                o.append('<Spurplanknoten>%s</Spurplanknoten>' % ''.join(element(e) for e in k))
            o.append('</Spurplanabschnitt>')
        o.append('</Spurplanabschnitte></Spurplanbetriebsstelle>')
    return ('\n'.join(o) + '\n</Spurplanbetriebsstellen></XmlIssDaten>\n').encode(label)


def local(e):
    return e.tag.split('}')[-1]


def shown(i):
    i = int(i)
    return i if i < FIRST_NEW else min(i - FIRST_NEW + SHOWN_NEW, 2 ** 31 - 1)


def number(i):
    try:
        return shown(i)
    except ValueError:
        return -1


class Answers:
    def __init__(self, exe):
        self.exe = exe
        self.dir = None

    def new(self, c):
        self.close()
        self.dir = tempfile.mkdtemp(dir=os.getcwd())
        return ['ok']

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def generate(self, c):
        d = self.dir
        os.makedirs(d + '/temp/DBResources', exist_ok=True)
        for f in os.listdir(d + '/temp/DBResources'):
            os.unlink(d + '/temp/DBResources/' + f)
        open(d + '/temp/base.osm.pbf', 'w').write(osm_xml(c))
        for i, f in enumerate(c['files']):
            open('%s/temp/DBResources/%d.xml' % (d, i), 'wb').write(db_xml(f, ['utf-8', 'iso-8859-1'][i % 2]))
        args = {'mdb': ['--map-DB'], 'gl': ['--generate-lines'], 'no': [], 'add': ['--map-DB', '--additional-osm', 'more.xml']}[c['mode']]
        if c['mode'] == 'add':
            open(d + '/more.xml', 'w').write(osm_xml({'nodes': c['nodes'], 'ways': c['ways'], 'rels': c['rels']}))
        for f in ('finalOsm.xml', 'finalOsm.json'):
            if os.path.exists(d + '/' + f):
                os.unlink(d + '/' + f)
        try:
            r = subprocess.run([self.exe + '/generate'] + args, cwd=d, env={'PATH': self.exe, 'HOME': d}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        except subprocess.TimeoutExpired:
            return ['hang']
        if r.returncode == 2 or r.returncode < 0 or b'panic:' in r.stdout:
            return ['crash']
        if r.returncode != 0:
            return ['exc']
        return ['ok', self.result(c, d)]

    def result(self, c, d):
        places = {(lat(n['m']), lon(n['x'])): (n['x'], n['m']) for n in c['nodes']}
        at = lambda a, o: places.get((a, o), (-1, -1))
        root = ET.parse(d + '/finalOsm.xml').getroot()
        ts = lambda e: [[t.get('k'), t.get('v')] for t in e if local(t) == 'tag']
        nodes, ways, rels = [], [], []
        for e in root:
            if local(e) == 'node':
                x, m = at(e.get('lat'), e.get('lon'))
                nodes.append({'id': shown(e.get('id')), 'x': x, 'm': m, 'tags': ts(e)})
            elif local(e) == 'way':
                t = ts(e)
                colours = [v for k, v in t if k == 'color']
                rgb = [bytes.fromhex(v[1:]) for v in colours if re.fullmatch('#[0-9a-f]{6}', v)]
                ways.append({'id': shown(e.get('id')), 'nd': [number(n.get('ref')) for n in e if local(n) == 'nd'],
                             'tags': [kv for kv in t if kv[0] != 'color'], 'colours': colours,
                             'bright': len(rgb) == len(colours) and all(max(v) == 255 and min(v) == 0 for v in rgb)})
            elif local(e) == 'relation':
                rels.append({'id': shown(e.get('id')), 'ways': [number(m.get('ref')) for m in e if local(m) == 'member' and m.get('type') == 'way'], 'tags': ts(e)})
        res = {'nodes': nodes, 'ways': ways, 'rels': rels, 'stations': [], 'halts': [], 'main_signals': [], 'other_signals': []}
        if os.path.exists(d + '/finalOsm.json'):
            f = json.load(open(d + '/finalOsm.json'))
            for k in ('stations', 'halts', 'main_signals', 'other_signals'):
                for i, v in sorted((f[k] or {}).items()):
                    x, m = at(v['lat'], v['lon'])
                    res[k].append({'id': shown(i), 'name': v['name'], 'x': x, 'm': m})
        return res


if __name__ == '__main__':
    if sys.argv[1] == 'build':
        sys.exit(build(sys.argv[2], sys.argv[3]))
    a = Answers(sys.argv[2])
    for line in sys.stdin:
        c = json.loads(line)
        print('@' + json.dumps(getattr(a, c['op'])(c)), flush=True)
    a.close()
