"""Timetables: random rolling stock and trains over a loaded plan, written as the
XML files the library reads and as the JSON the specification reads."""
import datetime
import os

from vlib import plan as vp

EPOCH = datetime.date(1970, 1, 1)


def date_text(day):
    return (EPOCH + datetime.timedelta(days=day)).isoformat()


# ---------------------------------------------------------------- rolling stock
def stock(rng, n=3):
    """[{nr, company, variants: [{variant, name, weight (t), speed (km/h), res: three factors, curve}]}];
    factors in thousandths"""
    out = []
    keys = set()
    for _ in range(n):
        k = (str(rng.randint(1, 999)), str(rng.choice([8000, 8000, 9000, 7])))
        if k in keys:
            continue
        keys.add(k)
        vs = []
        for v in rng.sample(range(1, 12), rng.randint(1, 3)):
            top = rng.choice([60, 80, 100, 120, 160])
            cuts = sorted(rng.sample(range(10, top), rng.randint(0, 3))) + [top + rng.choice([0, 20, 40])]
            curve = []
            lo = 0
            for c in cuts:
                curve.append([lo, c, rng.choice([150000, 230000, 300000, 180000]), -rng.choice([500, 1000, 900]), rng.choice([0, 2, 3])])
                lo = c
            vs.append({'variant': v, 'name': 'V%d' % v, 'weight': rng.choice([40, 80, 100, 450]), 'speed': top,
                       'res': [rng.choice([1000, 2000, 3000]), rng.choice([0, 10, 20]), rng.choice([10, 30, 60])], 'curve': curve})
        out.append({'nr': k[0], 'company': k[1], 'variants': vs})
    return out


def dec(x, comma=True):
    """thousandths as a decimal number"""
    s = '%s%d.%03d' % ('-' if x < 0 else '', abs(x) // 1000, abs(x) % 1000)
    return s.replace('.', ',') if comma else s


def stock_xml(series, defaults=('D4', 9000, 1000000, 160)):
    o = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<XmlIssDaten><Stammdaten>']
    if defaults:
        o.append('<Standardwerte><Fahrstrassenbildezeit Einheit="s">%s</Fahrstrassenbildezeit><Streckenklasse>%s</Streckenklasse>'
                 '<BremswegArt Einheit="m">%s</BremswegArt><ZulaessigeOrtsfesteGeschwindigkeit Einheit="km/h">%d'
                 '</ZulaessigeOrtsfesteGeschwindigkeit></Standardwerte>' % (dec(defaults[1]), defaults[0], dec(defaults[2]), defaults[3]))
    o.append('<Triebfahrzeugbaureihen>')
    for s in series:
        o.append('<Triebfahrzeugbaureihe><Nr>%s</Nr><Eisenbahnunternehmen Typ="U" Nr="%s">X</Eisenbahnunternehmen>'
                 '<Triebfahrzeugbaureihenvarianten>' % (s['nr'], s['company']))
        for v in s['variants']:
            o.append('<Triebfahrzeugbaureihenvariante><Variante>%d</Variante><Bezeichnung>%s</Bezeichnung><EigenGewicht Einheit="t">%s</EigenGewicht>'
                     '<ZulaessigeGeschwindigkeit>%d</ZulaessigeGeschwindigkeit>' % (v['variant'], vp.esc(v['name']), v['weight'], v['speed']))
            for i, f in enumerate(v['res']):
                o.append('<Laufwiderstandsfaktor%d>%s</Laufwiderstandsfaktor%d>' % (i + 1, dec(f), i + 1))
            o.append('<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren>')
            for lo, hi, f1, f2, f3 in v['curve']:
                o.append('<Zugkraftfaktor><Faktor1>%s</Faktor1><Faktor2>%s</Faktor2><Faktor3>%s</Faktor3><GeschwindigkeitVon>%d</GeschwindigkeitVon>'
                         '<GeschwindigkeitBis>%d</GeschwindigkeitBis></Zugkraftfaktor>' % (dec(f1), dec(f2), dec(f3), lo, hi))
            o.append('</Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>')
        o.append('</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe>\n')
    o.append('</Triebfahrzeugbaureihen></Stammdaten></XmlIssDaten>')
    return ''.join(o)


# ---------------------------------------------------------------- trains
def services(rng, base):
    """what the files say: ranges with a mask, and special days; a range never ends beyond its span"""
    out = []
    n = rng.choice([1, 1, 2])
    first = base + rng.randint(0, 40)
    lo, hi = first, first
    days = set()
    for _ in range(n):
        a = first + rng.randint(0, 30)
        ln = rng.choice([1, 1, 2, 7, 20, 63, 64, 65])
        mask = ''.join(rng.choice('01') if rng.random() < .7 else '1' for _ in range(ln))
        for i, m in enumerate(mask):
            if m == '1':
                if a + i in days and True:
                    pass
                days.add(a + i)
        out.append({'from': a, 'mask': mask})
        lo, hi = min(lo, a), max(hi, a + ln - 1)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        d = rng.randint(lo, hi + 3)
        inc = rng.random() < .6
        out.append({'day': d, 'include': inc})
        (days.add if inc else days.discard)(d)
    for _ in range(rng.choice([0, 0, 0, 1])):
        out.insert(rng.randint(n, len(out)), {'day': rng.randint(lo, hi), 'other': rng.choice(['maybe', 'Include', 'EXCLUDE', ''])})
    if not days:
        d = rng.randint(lo, hi)
        out.append({'day': d, 'include': True})
    return out


def hms(rng, sec, frac=True):
    leap = sec >= 86400
    s = sec - 86400 if leap else sec
    return [s // 3600, s // 60 % 60, s % 60, rng.choice([0, 0, 50, 99]) if frac else 0, leap]


def time_xml(tag, t):
    return '<%s><time>%02d:%02d:%02d.%02d</time>%s</%s>' % (tag, t[0], t[1], t[2], t[3], '<nightLeap>1</nightLeap>' if t[4] else '', tag)


def dur_text(d):
    """[hours, minutes, seconds, hundredths]; -1 is left out"""
    s = 'PT'
    if d[0] >= 0:
        s += '%dH' % d[0]
    if d[1] >= 0:
        s += '%dM' % d[1]
    if d[2] >= 0:
        s += '%d' % d[2] + ('.%02d' % d[3] if d[3] >= 0 else '') + 'S'
    return s


def walk(rng, l, freight, longest=6):
    """a random drive over the station routes of a loaded plan, with a stop at both ends"""
    rs = l['routes']
    key = 'freight' if freight else 'pass'
    starts = [r['id'] for r in rs if r[key] is not None and not r['etcs']]
    if not starts:
        return None
    succ = l['srg']['succ']
    for _ in range(12):
        w = [rng.choice(starts)]
        for _ in range(rng.randint(1, longest)):
            s = succ[w[-1]]
            if not s:
                break
            w.append(rng.choice(s))
        while len(w) > 1 and rs[w[-1]][key] is None:
            w.pop()
        if len(w) > 1:
            return w
    return None


def train(rng, l, series, number, base, **kw):
    """one construction train as the files state it, or None"""
    freight = rng.random() < .4
    w = walk(rng, l, freight, kw.get('longest', 6))
    if w is None:
        return None
    rs = l['routes']
    names = {}
    key = 'freight' if freight else 'pass'
    t = kw.get('start')
    t = rng.choice([0, 1800, 43200, 80000, 86000]) + rng.randint(0, 3599) if t is None else t
    pts = []
    for i, k in enumerate(w):
        r = rs[k]
        p = {'st': l['stations'][r['st']]['name'], 'route': r['name'], 'arr': [], 'dep': [], 'mode': 0, 'min': []}
        stop = i in (0, len(w) - 1) or (r[key] is not None and rng.random() < .5)
        run = rng.choice([30, 120, 300, 900])
        if stop:
            p['mode'] = rng.choice([2, 3, 4])
            if i > 0:
                t += run
                p['arr'] = hms(rng, t)
            if i < len(w) - 1:
                t += rng.choice([0, 30, 60, 600]) if i else 0
                p['dep'] = hms(rng, t)
            if rng.random() < .7:
                p['min'] = rng.choice([[-1, -1, 6, -1], [-1, 5, -1, -1], [-1, 1, 30, -1], [-1, -1, 54, 99], [-1, 1, 54, 49],
                                       [1, 0, 0, -1], [0, -1, 7, 50], [-1, -1, rng.randint(0, 59), rng.randint(0, 99)]])
        elif r['rtcp'] is not None and rng.random() < .6:
            t += run
            p['dep'] = hms(rng, t)
        pts.append(p)
    vs = []
    for _ in range(rng.choice([1, 1, 2])):
        s = rng.choice(series)
        vs.append([s['nr'], s['company'], rng.choice(s['variants'])['variant']])
    return {'number': number, 'services': services(rng, base), 'pts': pts, 'bi': False, 'bo': False, 'vehicles': vs,
            'len': rng.choice([0, 20000, 123450, 400000]), 'weight': rng.choice([100000, 250500, 800000, 40000]),
            'speed': rng.choice([40, 80, 100, 120, 160]), 'freight': freight, 'ctc': False}


def spoil(rng, ct, l):
    """make a construction train one the system does not support"""
    kind = rng.choice(['ctc', 'bi', 'bo', 'single', 'first', 'last', 'station', 'route', 'vehicle', 'variant', 'nohalt', 'norc'])
    p = ct['pts']
    if kind == 'ctc':
        ct['ctc'] = True
    elif kind == 'bi':
        ct['bi'] = True
    elif kind == 'bo':
        ct['bo'] = True
    elif kind == 'single':
        del p[1:]
    elif kind == 'first':
        p[0]['mode'] = 0
    elif kind == 'last':
        p[-1]['mode'] = 0
        p[-1]['dep'] = []
    elif kind == 'station':
        rng.choice(p)['st'] = 'NOWHERE'
    elif kind == 'route':
        rng.choice(p)['route'] = 'nosuch'
    elif kind == 'vehicle':
        ct['vehicles'][-1][0] = '100000'
    elif kind == 'variant':
        ct['vehicles'][-1][2] = 77
    elif kind == 'norc':
        c = [r for r in l['routes'] if r['rtcp'] is None]
        if c:
            r = rng.choice(c)
            p.insert(1, {'st': l['stations'][r['st']]['name'], 'route': r['name'], 'arr': [], 'dep': p[0]['dep'], 'mode': 0, 'min': []})
    elif kind == 'nohalt':
        key = 'freight' if ct['freight'] else 'pass'
        c = [r for r in l['routes'] if r[key] is None]
        if c:
            r = rng.choice(c)
            p.insert(1, {'st': l['stations'][r['st']]['name'], 'route': r['name'], 'arr': p[0]['dep'], 'dep': p[0]['dep'], 'mode': 4, 'min': []})
    return ct


def timetable(rng, l, series, trains=6, spoiled=.15, files=None, mismatch=0, others=0, **kw):
    """{version, files: [[train element]]}; a train element is {status, cts}"""
    base = kw.pop('base', rng.choice([18900, 19300, 20000]))
    n = 0
    els = []
    used = set()
    for _ in range(trains):
        cts = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            no = (rng.randint(1, 99999), rng.randint(0, 9))
            while no in used:
                no = (rng.randint(1, 99999), rng.randint(0, 9))
            used.add(no)
            ct = train(rng, l, series, list(no), base, **kw)
            if ct is None:
                continue
            if rng.random() < spoiled:
                ct = spoil(rng, ct, l)
            cts.append(ct)
        if cts:
            els.append({'status': 'freig' if spoiled == 0 or rng.random() > .1 else rng.choice(['bearb', 'frei', '']), 'cts': cts})
    k = files or rng.choice([1, 2, 3])
    v = list(l.plan['version'])
    if rng.random() < mismatch:
        v = rng.choice([[v[0] + 'x', v[1]], [v[0], v[1] + 1], ['', v[1]], [v[0], 0], [v[0][:-1], v[1]]])
    return {'version': v, 'files': [els[i::k] for i in range(k)], 'others': rng.random() < others}


def write_kss(tt, d, rng=None):
    os.makedirs(d, exist_ok=True)
    if tt.get('others'):   # a timetable's folder may hold other things, too
        os.makedirs(d + '/KSS-archive.xml', exist_ok=True)
        for n in ('notes.txt', 'about.xml', 'AAA', 'zzz.dat', 'KSS-notes.txt', 'OLD-KSS-1.xml'):
            with open(os.path.join(d, n), 'w') as f:
                f.write('<nothing/>' if n.endswith('xml') else 'nothing here')
    for i, els in enumerate(tt['files']):
        o = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<KSS><header><spurplanVersionDescription><name>%s</name><number>%d</number>'
             '</spurplanVersionDescription></header><railml><timetable>' % (vp.esc(tt['version'][0]), tt['version'][1])]
        for e in els:
            o.append('<train trainStatus="%s"><fineConstruction>' % e['status'])
            for c in e['cts']:
                o.append('<constructionTrain><trainNumber><mainNumber>%d</mainNumber><subNumber>%d</subNumber></trainNumber>' % tuple(c['number']))
                o.append('<characteristic><tractionUnits>')
                for s, own, v in c['vehicles']:
                    o.append('<tractionUnit><tractionUnitDesignSeries><designSeries Typ="L" Nr="%s">%s</designSeries><variante>%d</variante>'
                             '</tractionUnitDesignSeries></tractionUnit>' % (own, s, v))
                o.append('</tractionUnits><maxVelocity>%d</maxVelocity><relevantStopPositionMode>%s</relevantStopPositionMode>'
                         '<trainProtection>%s</trainProtection><totalLength>%s</totalLength><totalWeight>%s</totalWeight></characteristic>' % (
                             c['speed'], 'G' if c['freight'] else 'R', 'true' if c['ctc'] else 'false', dec(c['len'], False), dec(c['weight'], False)))
                o.append('<services>')
                for s in c['services']:
                    if 'mask' in s:
                        o.append('<service startDate="%s" endDate="%s" bitMask="%s"/>' % (
                            date_text(s['from']), date_text(s['from'] + len(s['mask']) - 1), s['mask']))
                    else:
                        o.append('<service><special date="%s" type="%s"/></service>' % (date_text(s['day']), s.get('other', 'include' if s.get('include') else 'exclude')))
                o.append('</services><sequence>')
                if c['bi'] or c['number'][0] % 2:
                    o.append('<breakin>%s</breakin>' % ('true' if c['bi'] else 'false'))
                if c['bo'] or c['number'][0] % 3:
                    o.append('<breakout>%s</breakout>' % ('true' if c['bo'] else 'false'))
                o.append('<sequenceServicePoints>')
                for p in c['pts']:
                    o.append('<sequenceServicePoint><servicePoint>%s</servicePoint><trackSystem>%s</trackSystem>' % (vp.esc(p['st']), vp.esc(p['route'])))
                    if p['arr']:
                        o.append(time_xml('arrival', p['arr']))
                    if p['dep']:
                        o.append(time_xml('departure', p['dep']))
                    if p['mode']:
                        o.append('<stopMode Typ="x" Schluessel="%d">x</stopMode>' % p['mode'])
                    if p['min']:
                        o.append('<minStopTime>%s</minStopTime>' % dur_text(p['min']))
                    if c['number'][1] == 7:     # not taken into account
                        o.append('<additionalStop><additionalStopTime>PT5M</additionalStopTime></additionalStop>')
                    o.append('</sequenceServicePoint>')
                o.append('</sequenceServicePoints></sequence></constructionTrain>\n')
            o.append('</fineConstruction></train>\n')
        o.append('</timetable></railml></KSS>')
        with open(os.path.join(d, 'KSS-%d.xml' % i), 'w', encoding='latin-1') as f:
            f.write(''.join(o))


# ---------------------------------------------------------------- what TLC reads
def tla_train(c):
    return {'number': c['number'], 'bi': c['bi'], 'bo': c['bo'], 'freight': c['freight'], 'ctc': c['ctc'], 'len': c['len'],
            'weight': c['weight'], 'speed': c['speed'], 'vehicles': [[s + '/' + o, v] for s, o, v in c['vehicles']],
            'services': [[1, s['from'], [m == '1' for m in s['mask']]] if 'mask' in s else [4 if 'other' in s else 2 if s['include'] else 3, s['day'], []] for s in c['services']],
            'pts': [[p['st'], p['route'], p['arr'] and p['arr'][:3] + [1 if p['arr'][4] else 0], p['dep'] and p['dep'][:3] + [1 if p['dep'][4] else 0],
                     p['mode'], p['min']] for p in c['pts']]}


def tla_stock(series):
    return [[s['nr'] + '/' + s['company'], [v['variant'], v['speed']]] for s in series for v in s['variants']]


SRC = ['src/infrastructure/**/*.cc', 'src/rolling_stock/*.cc', 'src/utls/*.cc', 'src/utls/**/*.cc', 'src/timetable/*.cc', 'src/timetable/parsers/**/*.cc']
BASE = ['elements', 'nodes', 'stations', 'routes', 'srg', 'irs']


def networks(ctx, n, **kw):
    """loaded plans to run trains on"""
    from vlib import tracks
    import random
    kw.setdefault('routes', 12)
    kw.setdefault('steps', 3)
    kw.setdefault('whole', .85)
    kw.setdefault('stations', 4)
    out = []
    for i, p in enumerate(tracks.random_plans(ctx, n, **kw)):
        rng = random.Random('stock-%s-%d-%d' % (ctx.prop, ctx.seed, i))
        p['series'] = stock(rng)
        p['core_xml'] = stock_xml(p['series'])
        out.append(p)
    return out


def with_trains(ctx, exe, plans, ops, make, env=None, timeout=600, opts=None, names=None):
    """first load the plans, then the timetables made for them; returns [(Loaded, timetable)]"""
    from vlib import infra
    import random
    ls = infra.load(ctx, exe, plans, BASE, opts=opts, env=env, timeout=timeout)
    cmds = []
    tts = []
    for i, l in enumerate(ls):
        if l.crashed:
            tts.append(None)
            continue
        rng = random.Random('tt-%s-%d-%d' % (ctx.prop, ctx.seed, i))
        tt = make(rng, l)
        tts.append(tt)
        if tt is None or not any(tt['files']):
            tts[-1] = None
            continue
        d = '%s/p%d' % (ctx.work, i)
        t = '%s/t%d' % (ctx.work, i)
        write_kss(tt, t)
        tt['dir'] = t
        cmds.append(dict({'op': 'new', 'dir': d}, **(opts or {})))
        cmds.append({'op': 'timetable', 'dir': t, 'try': bool(i % 2)})
        for o in ops:
            o = o(l, tt) if callable(o) else o
            cmds.append({'op': o} if isinstance(o, str) else o)
    evs = ctx.run_driver(exe, cmds, env=env, timeout=timeout)
    groups = []
    for e in evs:
        if e['op'] == 'new':
            groups.append([])
        groups[-1].append(e)
    it = iter(groups)
    out = []
    for l, tt in zip(ls, tts):
        if tt is not None:
            g = next(it, None)
            if g is None:        # the driver was not asked any more
                out.append((l, None))
                continue
            for e in g:
                l.a[e['op']] = e['res']
            l.refused = l.a['timetable'] == ['ok', 'refused'] or (tt['version'] != l.plan['version'] and l.a['timetable'][0] == 'exc')
            if l.refused:
                l.a['timetable'] = ['ok', 'refused']
            l.tt_crash = next((op for op in l.a if l.a[op][0] not in ('ok',)), None)
        out.append((l, tt))
    return out


def events(pairs, facts):
    from vlib import infra, net
    out = []
    for l, tt in pairs:
        if l.crashed or tt is None:
            if l.crashed:
                out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
                out.append({'op': 'loads', 'res': ['crash' if l.crashed[1][0] == 'crash' else 'exc']})
            continue
        out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
        if l.tt_crash:
            out.append({'op': 'loads', 'what': l.tt_crash, 'res': [l.a[l.tt_crash][0]]})
            continue
        out.append({'op': 'loads', 'res': ['ok']})
        e, r = net.names(l)
        out.append(dict(e, res=r))
        for ev, res in (facts(l, tt) if not l.refused else [({'op': 'version', 'same': tt['version'] == l.plan['version']}, l.a['timetable'])]):
            out.append(dict(ev, res=res))
    return out


def elements(tt):
    return [{'status': e['status'], 'cts': [tla_train(c) for c in e['cts']]} for f in tt['files'] for e in f]


def by_number(tt):
    return {tuple(c['number']): c for f in tt['files'] for e in f for c in e['cts']}
