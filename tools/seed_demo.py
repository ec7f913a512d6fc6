"""Demonstration: answers of the library to a recorded sequence of questions must be
the ones given by the unchanged code. Run in the repository's directory."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

D = os.path.dirname(os.path.abspath(__file__))
R = os.getcwd()
spec = json.loads(open(D + '/questions.json').read().replace('@HERE@', D).replace('@REPO@', R))
T = tempfile.mkdtemp()
FLAGS = ['-std=gnu++23', '-fcoroutines', '-DNDEBUG', '-DSTD', '-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize', '-w',
         '-include', D + '/shim/prelude.h', '-I' + D + '/shim', '-I' + D + '/drivers', '-I' + R + '/include'] + spec['flags']


def compile_(src, name):
    o = '%s/%s.o' % (T, name)
    r = subprocess.run(['g++-12'] + FLAGS + ['-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return o if r.returncode == 0 else None, r.stdout


def group(i, files):
    if len(files) > 1:
        u = '%s/unity%d.cc' % (T, i)
        with open(u, 'w') as f:
            f.write(''.join('#include "%s"\n' % x for x in files))
        o, _ = compile_(u, 'g%d' % i)
        if o:
            return [o]
    out = []
    for k, x in enumerate(files):
        o, err = compile_(x, 'f%d-%d' % (i, k))
        if not o:
            print('does not compile:', x, err[-2000:])
            os._exit(4)
        out.append(o)
    return out


def canon(x):
    return x


try:
    if spec['driver'].endswith('.mjs'):
        r = subprocess.run(['node', D + '/drivers/client-build.mjs', D + '/drivers/' + spec['driver'], T + '/demo.mjs', R + '/' + spec['srcs'][0]])
        run = ['node', T + '/demo.mjs']
    elif spec['driver'].endswith('.py'):
        run = ['python3', D + '/drivers/' + spec['driver'], 'run', T + '/demo']
        r = subprocess.run(run[:2] + ['build', R, T + '/demo'])
        sys.path.insert(0, D)
        sys.dont_write_bytecode = True
        from osm_canon import canon
    else:
        srcs = []
        for pat in spec['srcs']:
            srcs += [f for f in sorted(glob.glob(os.path.join(R, pat), recursive=True)) if f not in srcs]
        groups = {}
        for s in srcs:
            groups.setdefault(os.path.dirname(s), []).append(s)
        jobs = [[D + '/drivers/' + spec['driver']]] + list(groups.values())
        with cf.ThreadPoolExecutor(8) as ex:
            objs = [o for os_ in ex.map(lambda j: group(*j), list(enumerate(jobs))) for o in os_]
        r = subprocess.run(['g++-12'] + [f for f in spec['flags'] if f.startswith('-fsan')] + objs + ['-o', T + '/demo', '-lfmt', '-lpugixml', '-ldate-tz', '-lpthread'])
        run = [T + '/demo']
    if r.returncode:
        sys.exit(4)
    if os.path.isdir(D + '/data'):
        shutil.copytree(D + '/data', T + '/data')
    text = '\n'.join(json.dumps(c) for c in spec['questions']).replace('@DATA@', T + '/data') + '\n'
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096', UBSAN_OPTIONS='halt_on_error=1')
    env.update(spec.get('env') or {})
    try:
        r = subprocess.run(run, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=T, timeout=100)
        got = [json.loads(x[1:].decode('utf-8', 'replace').replace(T + '/data', '@DATA@')) for x in r.stdout.split(b'\n') if x.startswith(b'@')]
    except subprocess.TimeoutExpired:
        got = ['no answer']
    for q, a, b in zip(spec['questions'], spec['answers'], got + ['crash'] * len(spec['answers'])):
        if canon(a) != canon(b):
            print('asked', json.dumps(q)[:300], '\nright', json.dumps(a)[:1500], '\ngot  ', json.dumps(b)[:1500])
            sys.exit(1)
    print('all answers are right')
finally:
    shutil.rmtree(T, ignore_errors=True)
