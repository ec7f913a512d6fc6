"""What a plan says, for the specification Attributes.tla, and the random
additions to plans that only that specification looks at."""
from vlib import plan as vp


def dec(text):
    """'12,5' as <<digits, decimals>>"""
    t = text.replace('.', ',')
    neg = t.startswith('-')
    t = t.lstrip('-')
    a, _, b = t.partition(',')
    v = int(a + b)
    return [-v if neg else v, len(b)]


def x_json(n):
    x = n['x']
    return {'name': x.get('Name', ''), 'op': x.get('BezeichnerBetrieb', ''), 'ext': x.get('BezeichnerExtern', ''),
            'rise': dec(x['Steigend']) if 'Steigend' in x else [], 'fall': dec(x['Fallend']) if 'Fallend' in x else [],
            'limit': dec(x['Geschw']) if 'Geschw' in x else [], 'where': x.get('Wirkungsort', ''), 'whom': x.get('Zugbeeinflussung', ''),
            'unit': x['Laenge'][0] if 'Laenge' in x else '', 'len': dec(x['Laenge'][1]) if 'Laenge' in x else [],
            'calc': 'Berechnet' in x, 'label': x.get('Oberflaechenbezeichner', '')}


def description(p):
    return {'stations': [s['name'] for s in p['stations']], 'full': [list(x) for x in p.get('full_names', [])],
            'secs': [{'st': s['st'] + 1, 'line': s['line'],
                      'nodes': [{'id': n['id'], 'main': n.get('main', 0), 'tag': n['tag'], 'km': n['km'], 'x': x_json(n),
                                 'partner': n.get('partner', ''), 'sign': n.get('sign', 0)} for n in s['nodes']]}
                     for s in p['secs']],
            'lines': [[nr, [list(s) for s in segs]] for nr, segs in p['lines']],
            'version': list(p['version']),
            'series': [{'nr': s['nr'], 'company': s['company'],
                        'variants': [{k: v[k] for k in ('variant', 'name', 'weight', 'speed', 'curve')} for v in s['variants']]}
                       for s in p['series']],
            'defaults': list(p['defaults'] or [])}


def spice(rng, p):
    """values of every written form"""
    for s in p['secs']:
        for n in s['nodes']:
            x = n['x']
            if rng.random() < .2 and n['km'] >= 0:
                a = n['km'] // 100000 * 100000 if rng.random() < .7 else n['km'] // 2000 * 1000
                n['kmtext'] = '%s+%s' % (vp.km_text(a), vp.km_text(n['km'] - a))
            if 'Steigend' in x and rng.random() < .7:
                for k in ('Steigend', 'Fallend'):
                    x[k] = rng.choice(['0', '0,0', '12,345', '%d,%02d' % (rng.randint(0, 40), rng.randint(0, 99)), '7'])
            if 'Geschw' in x and rng.random() < .5:
                x['Geschw'] = rng.choice(['0', '7', '47,5', '120,0', '299'])
            if 'Laenge' in x and rng.random() < .5:
                x['Laenge'] = rng.choice([['m', '37,5'], ['m', '0'], ['km', '1,25'], ['km', '12'], ['m', '1500']])
            if 'Name' in x and rng.random() < .2:
                x['Name'] = rng.choice(['', 'A', 'ZR 1', 'N&W', '60<->70', 'F' * 40, x['Name'] + ' "x"'])
    for nr, segs in p['lines']:
        for s in segs:
            s[2] = rng.choice([0, 1, 2, 3, 6, 8, 9, 12, 13, 14, 15, 18, 20, 21, 23, 24])
    p['full_names'] = [[s['name'], rng.choice(['Stadt %s' % s['name'], 'X', 'Ort (Kr. %s)' % s['name']])] for s in p['stations'] if rng.random() < .7]
    p['full_names'] += [['NOT' + str(rng.randint(0, 9)), 'elsewhere']]
    p['defaults'] = None if rng.random() < .2 else (rng.choice(['D4', 'C2', 'A']), rng.choice([9000, 12500, 0, 300]), rng.choice([1000000, 700000, 400500]),
                                                    rng.choice([100, 160, 40]))
    for s in p['series']:
        for v in s['variants']:
            if rng.random() < .15:
                v['curve'] = [] if rng.random() < .3 else [[a, b - 5 if i == 0 and len(v['curve']) > 1 else b] + r for i, (a, b, *r) in enumerate(v['curve'])]
            if rng.random() < .3:
                v['name'] = rng.choice(['', 'BR 101 & Co', 'V160 "Lollo"', 'x' * 60])
    return p
