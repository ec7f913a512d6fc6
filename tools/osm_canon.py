"""An answer of the program generate-osm without what may differ from run to run: the colours of
lines, the numbers of new nodes, and the order of the nodes that are at one place."""
NEW = 1000000000


def canon(res):
    if len(res) < 2:
        return res
    r = res[1]
    name = {n['id']: str([n['x'], n['m'], n['tags']]) if n['id'] >= NEW else str(n['id']) for n in r['nodes']}
    place = {n['id']: (n['x'], n['m']) for n in r['nodes']}
    ways = []
    for w in r['ways']:
        runs = []
        for i in w['nd']:
            if not runs or place.get(i) != runs[-1][0]:
                runs.append((place.get(i), []))
            runs[-1][1].append(name.get(i, str(i)))
        ways.append([w['id'], [sorted(x) for _, x in runs], w['tags'], len(w['colours']), w['bright']])
    lists = [sorted([name.get(e['id'], str(e['id'])), e['name'], e['x'], e['m']] for e in r[k]) for k in ('stations', 'halts', 'main_signals', 'other_signals')]
    return [res[0], sorted([name[n['id']], n['x'], n['m'], str(n['tags'])] for n in r['nodes']), sorted(ways, key=str), sorted(map(str, r['rels'])), lists]
