"""Small systematic changes to the sources, each run against the checks whose properties are
anchored in the file: finds what the checks do not notice. By hand:
  mutate.py WORKDIR SEED PER [FILE-SUBSTRING ...]   (PER: one change per so many code lines)"""
import glob
import json
import os
import random
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
         (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if \(!', 'if ('), (r'\bif \((?=[a-z])', 'if (!'),
         (r'std::min\b', 'std::max'), (r'std::max\b', 'std::min'), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'),
         (r'rising', 'falling'), (r'falling', 'rising'), (r'Rising', 'Falling'), (r'Falling', 'Rising'),
         (r'left', 'right'), (r'right', 'left'), (r'start', 'end'), (r'begin\(', 'end('), (r'first', 'last'), (r'last', 'first'),
         (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\+\+', '--'), (r' \+= ', ' -= '), (r' -= ', ' += '),
         (r'^(\s+)continue;', r'\1;'), (r'^(\s+)break;', r'\1;'), (r'::Yes\b', '::No'), (r'::No\b', '::Yes'),
         (r'::YES\b', '::NO'), (r'::NO\b', '::YES'), (r'^(\s+)[a-z_.>\-]+(\[[^=]*\])?\.?[a-z_]* = [^;{]*;$', r'\1;'),
         (r'^(\s+)[a-z_:.>\-]+\([^;{]*\);$', r'\1;'), (r'passenger', 'freight'), (r'freight', 'passenger'),
         (r'arrival', 'departure'), (r'departure', 'arrival'), (r'\bfrom\b', 'to'), (r'\bto\b', 'from'), (r'main', 'approach'),
         (r'\bin_', 'out_'), (r'\bout_', 'in_'), (r'<=', '<'), (r'emplace_back\(', 'emplace_front(')]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|using |namespace|template|static_assert)|uLOG|assert|ensure|expect\(|utl::fail|verify|\boperator<<|scoped_timer|noexcept\(')


def code_lines(L):
    out = []
    for i, l in enumerate(L):
        if SKIP.search(l) or not l.strip() or l.strip() in ('{', '}', '};', '});'):
            continue
        out.append(i)
    return out


def mutants(text, rng, n):
    L = text.split('\n')
    c = [(i, k) for i in code_lines(L) for k, (a, b) in enumerate(SWAPS) if re.search(a, L[i].split('//')[0])]
    rng.shuffle(c)
    seen = set()
    for i, k in c:
        if len(seen) >= n:
            return
        if i in seen:
            continue
        a, b = SWAPS[k]
        ms = list(re.finditer(a, L[i]))
        m = rng.choice(ms)
        new = L[i][:m.start()] + m.expand(b) + L[i][m.end():]
        if new == L[i]:
            continue
        seen.add(i)
        yield i, L[i], new, '\n'.join(L[:i] + [new] + L[i + 1:])


def main():
    work, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4:]
    rng = random.Random(seed)
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    cost = {}
    for p in props:
        try:
            cost[p['id']] = json.load(open('%s/evidence/%s.json' % (V, p['id']))).get('wall_s', 30)
        except OSError:
            cost[p['id']] = 30
    by = {}
    for p in props:
        for f in p['anchors']['files']:
            by.setdefault(f, []).append(p['id'])
    repo = work + '/repo'
    os.makedirs(work, exist_ok=True)
    subprocess.run('rm -rf %s; mkdir %s; cp -a /repo/include /repo/src %s/' % (repo, repo, repo), shell=True)
    todo = []
    for f in sorted(by):
        if only and not any(o in f for o in only):
            continue
        text = open('/repo/' + f).read()
        n = max(1, len(code_lines(text.split('\n'))) // per)
        for m in mutants(text, rng, n):
            todo.append((f, m))
    rng.shuffle(todo)
    print(len(todo), 'changes', flush=True)
    for f, (i, old, new, text) in todo:
        with open(repo + '/' + f, 'w') as h:
            h.write(text)
        verdict = 'SURVIVED'
        t = time.time()
        for p in sorted(by[f], key=lambda p: cost[p]):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE='1', VERIF_STALL='20')
            try:
                r = subprocess.run([sys.executable, 'run.py', p], cwd=V, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                verdict = 'TIMEOUT ' + p
                break
            if r.returncode == 1:
                verdict = 'killed ' + p
                break
            if r.returncode != 0:
                verdict = 'not compiled' if 'cannot compile' in r.stdout + r.stderr else 'NO ANSWER %s %s' % (p, (r.stdout + r.stderr)[-300:])
                break
        print('%s %s:%d\n    - %s\n    + %s   (%s, %.0f s)' % (verdict, f, i + 1, old.strip(), new.strip(), ' '.join(by[f]), time.time() - t), flush=True)
        with open(repo + '/' + f, 'w') as h:
            h.write(open('/repo/' + f).read())


main()
