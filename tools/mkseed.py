"""Writes planted changes (/verif/seeded/<id>) with a demonstration: a recorded sequence
of questions to the real code that the change makes it answer differently. The inputs are
those of the property's check with some seed. Used by hand:
  from mkseed import mk; mk(id, prop, [(file, old, new)], needs, breaks)"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from osm_canon import canon as seed_demo_canon

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
R = os.environ.get('VERIF_REPO', '/repo')


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def record(prop, seed, repo, out):
    sh('rm -rf %s' % out)
    r = sh('timeout 800 python3 run.py %s' % prop, cwd=V, env=dict(os.environ, VERIF_RECORD=out, VERIF_REPO=repo, VERIF_SEED=str(seed),
                                                                   VERIF_CACHE='1', VERIF_STALL='20'))
    if not os.path.isdir(out):
        raise SystemExit('recording %s failed\n%s' % (prop, r.stdout + r.stderr[-3000:]))


def groups(rec):
    out = []
    for e in rec['events']:
        if e['op'] == 'new' or not out:
            out.append([])
        out[-1].append(e)
    return out


def question(e):
    return {k: v for k, v in e.items() if k not in ('res', 'crash')}


def canon(rec, res):
    """Answers without what differs from run to run."""
    return seed_demo_canon(res) if rec['build']['driver'] == 'osm_tool.py' else res


def mk(id, prop, edits, needs, breaks, seeds=(1001, 1002), check=True, only=None, short=True):
    d = V + '/seeded/' + id
    os.makedirs(W, exist_ok=True)
    mut = W + '/mut-' + id
    sh('rm -rf %s; mkdir -p %s; cp -a %s/include %s/src %s/web %s/; mkdir %s/tools; cp -a %s/tools/generate-osm %s/tools/' % (mut, mut, R, R, R, mut, mut, R, mut))
    sh('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % mut)
    for f, old, new in edits:
        p = mut + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(id, ':', s.count(old), 'matches in', f, 'of', repr(old))
            sh('rm -rf ' + mut)
            return False
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % mut).stdout
    best = None
    head = sh('git -C %s rev-parse HEAD' % R).stdout.strip()[:10]
    for seed in seeds:
        base = '%s/base-%s-%d-%s' % (W, prop, seed, head)
        if not os.path.isdir(base):
            record(prop, seed, R, base)
        rec = '%s/rec-%s' % (W, id)
        record(prop, seed, mut, rec)
        for n in range(len(glob.glob(base + '/rec-*.json'))):
            a = json.load(open('%s/rec-%d.json' % (base, n)))
            if not os.path.exists('%s/rec-%d.json' % (rec, n)):
                break
            b = json.load(open('%s/rec-%d.json' % (rec, n)))
            wa, wb = a['work'], b['work']
            ga = groups(json.loads(json.dumps(a).replace(wa, '@WORK@')))
            gb = groups(json.loads(json.dumps(b).replace(wb, '@WORK@')))
            same = {json.dumps([question(e) for e in y], sort_keys=True): y for y in gb}
            for x, y in ((x, same.get(json.dumps([question(e) for e in x], sort_keys=True), [])) for x in ga):
                for i, (e, f) in enumerate(zip(x, y)):
                    if question(e) != question(f):
                        break
                    if canon(a, e['res']) != canon(a, f['res']) and e['res'] != ['crash'] and (only is None or e['op'] in only):
                        c = x[:i + 1]
                        if short and any('dir' in q for q in c):
                            c = [q for q in c[:-1] if q['op'] in ('new', 'timetable', 'graph')] + [c[-1]]
                        size = len(json.dumps(c))
                        if best is None or size < best[0]:
                            best = (size, c, a, '%s/work-%d' % (base, n))
                        break
        if best:
            break
    sh('rm -rf %s/rec-%s' % (W, id))
    if not best:
        print(id, ': nothing differs')
        sh('rm -rf ' + mut)
        return False
    _, c, a, work = best
    sh('rm -rf ' + d)
    os.makedirs(d + '/drivers')
    kind = a['build']['driver'].rsplit('.', 1)[-1]
    shutil.copytree(V + '/shim', d + '/shim', ignore=shutil.ignore_patterns(*({'client', 'go'} - {{'mjs': 'client', 'py': 'go'}.get(kind)})))
    if kind == 'py':
        shutil.copytree(V + '/drivers/osmium', d + '/drivers/osmium')
        shutil.copy(V + '/tools/osm_canon.py', d + '/osm_canon.py')
    todo = [a['build']['driver']] if kind == 'py' else [a['build']['driver'], 'client-build.mjs'] if a['build']['driver'].endswith('.mjs') else [a['build']['driver'], 'driver.h']
    done = set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        shutil.copy(V + '/drivers/' + x, d + '/drivers/' + x)
        todo += [y for y in re.findall(r'#include "([^"/]+)"', open(V + '/drivers/' + x).read()) if os.path.exists(V + '/drivers/' + y)]
    text = json.dumps([question(q) for q in c])
    for m in sorted(set(re.findall(r'@WORK@/([A-Za-z0-9_.-]+)', text))):
        src = work + '/' + m
        if os.path.exists(src):
            os.makedirs(d + '/data', exist_ok=True)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, d + '/data/' + m)
    spec = {'driver': a['build']['driver'], 'srcs': a['build']['srcs'], 'flags': a['build']['flags'], 'env': a['env'],
            'questions': [question(q) for q in c], 'answers': [q['res'] for q in c]}
    with open(d + '/questions.json', 'w') as f:
        f.write(json.dumps(spec).replace('@WORK@', '@DATA@').replace(V + '/shim', '@HERE@/shim').replace(R + '/', '@REPO@/'))
    shutil.copy(V + '/tools/seed_demo.py', d + '/demo.py')
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# run in the repository\'s directory\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r1 = sh('bash %s/demo.sh' % d, cwd=R)
    r2 = sh('bash %s/demo.sh' % d, cwd=mut)
    chk = sh('VERIF_REPO=%s VERIF_CACHE=1 python3 /verif/run.py %s' % (mut, prop), cwd='/verif')
    viol = [x for x in chk.stdout.split('\n') if x.startswith('VIOLATION')]
    sh('rm -rf ' + mut)
    print(id, 'check rc', chk.returncode, 'violations', len(viol), 'CAUGHT' if chk.returncode == 1 and viol else 'MISSED')
    print(id, 'made; demo:', r1.returncode, r2.returncode, '' if (r1.returncode, r2.returncode != 0) == (0, True) else r1.stdout[-800:] + r2.stdout[-500:])
    return True
