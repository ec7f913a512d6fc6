"""Common machinery of the checks: building drivers from /repo's working tree,
running TLC, replaying histories, validating traces, reporting."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CXX = os.environ.get('VERIF_CXX', 'g++-12')
BASE_FLAGS = ['-std=gnu++23', '-fcoroutines', '-DNDEBUG', '-DSTD',
              '-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize', '-w',
              '-include', os.path.join(VERIF, 'shim', 'prelude.h'),
              '-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'drivers')]
LIBS = ['-lfmt', '-lpugixml', '-ldate-tz', '-lpthread']
STALL = int(os.environ.get('VERIF_STALL', '90'))
RECORD = os.environ.get('VERIF_RECORD')     # see tools/mkseed.py
NCPU = int(os.environ.get('VERIF_JOBS', '8'))


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def tree_hash(root, pats=('.h', '.cc')):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(pats) or '.' not in f:
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def feed(p, data, outp, timeout):
    """gives a driver its commands; ends it when it takes too long or does not answer any more"""
    def write():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass
    w = threading.Thread(target=write, daemon=True)
    w.start()
    start = last = time.time()
    size = 0
    while True:
        try:
            rc = p.wait(timeout=.05 if time.time() - start < 2 else .3)
            w.join(5)
            return rc, 'exit status %d' % rc
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        n = os.path.getsize(outp)
        if n != size:
            size, last = n, now
        if now - start > timeout or now - last > STALL:
            p.kill()
            p.wait()
            w.join(5)
            return -9, 'no answer within %d s' % (now - last)


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []      # (key, text, replay payload)
        self.assumptions = []
        self.extra = {}
        self._inc_hash = None
        self.only = None
        self.sanitized = set()
        self.built = {}
        self.replay = None

    # ---------------------------------------------------------------- build
    def _cache_key(self, src, flags, extra_key='', name=None):
        if self._inc_hash is None:
            self._inc_hash = tree_hash(os.path.join(REPO, 'include')) + \
                tree_hash(os.path.join(VERIF, 'shim')) + tree_hash(os.path.join(VERIF, 'drivers'), ('.h', '.cc')) + tree_hash(os.path.join(REPO, 'tools', 'export_exclusion_graph'))
        with open(src, 'rb') as f:
            data = f.read()
        return hashlib.sha256((self._inc_hash + (name or src) + extra_key + ' '.join(flags) + CXX).encode() +
                              (b'' if name else data)).hexdigest()

    def _compile(self, src, flags, extra_key='', name=None):
        out = os.path.join(self.work, hashlib.md5((src + ' '.join(flags)).encode()).hexdigest() + '.o')
        if os.path.exists(out):
            return out
        cache = None
        if os.environ.get('VERIF_CACHE') == '1':
            cdir = os.path.join(VERIF, '.cache')
            os.makedirs(cdir, exist_ok=True)
            cache = os.path.join(cdir, self._cache_key(src, flags, extra_key, name) + '.o')
            if os.path.exists(cache):
                return cache
        cmd = [CXX] + BASE_FLAGS + ['-I' + os.path.join(REPO, 'include')] + flags + ['-c', src, '-o', out + '.tmp']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError('cannot compile %s\n%s' % (src, r.stdout[-4000:]))
        os.rename(out + '.tmp', out)
        if cache:
            shutil.copy(out, cache + '.tmp%d' % os.getpid())
            os.rename(cache + '.tmp%d' % os.getpid(), cache)
            return cache
        return out

    def build(self, driver, repo_src=(), flags=(), opt='-O0', unity=True):
        """driver: name in /verif/drivers; repo_src: sources of /repo (globs).
        The sources of a directory are compiled together (faster); a directory
        that does not compile that way is compiled file by file."""
        flags = [opt] + list(flags)
        srcs = []
        for pat in repo_src:
            found = sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
            if not found:
                raise CheckError('no source matches ' + pat)
            srcs += [f for f in found if f not in srcs]
        groups = {}
        for s in srcs:
            groups.setdefault(os.path.dirname(s) if unity else s, []).append(s)
        jobs = [[os.path.join(VERIF, 'drivers', driver)]]
        for d in sorted(groups, key=lambda d: -sum(os.path.getsize(f) for f in groups[d])):
            jobs.append(groups[d])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = [o for os_ in ex.map(lambda g: self._compile_group(g, flags), jobs) for o in os_]
        exe = os.path.join(self.work, os.path.splitext(driver)[0] + '-' +
                           hashlib.md5(' '.join(objs).encode()).hexdigest()[:6])
        san = [f for f in flags if f.startswith('-fsanitize')]
        r = subprocess.run([CXX] + san + objs + ['-o', exe] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError('cannot link %s\n%s' % (driver, r.stdout[-4000:]))
        if san:
            self.sanitized.add(exe)
        self.built[exe] = {'driver': driver, 'srcs': list(repo_src), 'flags': flags}
        log('built', driver)
        return exe

    def _compile_group(self, group, flags):
        if len(group) == 1:
            return [self._compile(group[0], flags)]
        name = 'unity-' + hashlib.md5(' '.join(group).encode()).hexdigest()[:10] + '.cc'
        path = os.path.join(self.work, name)
        with open(path, 'w') as f:
            for g in group:
                f.write('#include "%s"\n' % g)
        try:
            h = hashlib.sha256()
            for g in group:
                with open(g, 'rb') as f:
                    h.update(f.read())
            return [self._compile(path, flags, extra_key=' '.join(group) + h.hexdigest(), name=name)]
        except CheckError:
            with cf.ThreadPoolExecutor(NCPU) as ex:
                return list(ex.map(lambda s: self._compile(s, flags), group))

    # ---------------------------------------------------------------- driver
    def run_driver(self, exe, cmds, env=None, timeout=120, chunk=None):
        """cmds: list of dicts. A history starts at op 'new'. Returns the list of
        events; an event without result marks a crash or hang of the real code.
        Histories are independent of each other: several drivers share them."""
        starts = [i for i, c in enumerate(cmds) if c.get('op') == 'new']
        k = min(NCPU, len(starts) // 6) if starts and starts[0] == 0 else 1
        cuts = [starts[len(starts) * i // k] for i in range(k)] + [len(cmds)] if k > 1 else [0, len(cmds)]
        with cf.ThreadPoolExecutor(max(1, k)) as ex:
            done = list(ex.map(lambda i: self._run_driver(exe, cmds[cuts[i]:cuts[i + 1]], env, timeout, i), range(len(cuts) - 1)))
        events = []
        for evs, all_asked in done:
            events += evs
            if not all_asked:
                break
        if RECORD:
            self.record(exe, cmds, events, env)
        return events

    def _run_driver(self, exe, cmds, env, timeout, number):
        events = []
        pos = 0
        failures = 0
        while pos < len(cmds):
            data = '\n'.join(json.dumps(c) for c in cmds[pos:]) + '\n'
            e = dict(os.environ)
            e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096',
                      'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0'})
            e.update(env or {})
            outp = os.path.join(self.work, 'drv-%d.out' % number)
            errp = os.path.join(self.work, 'drv-%d.err' % number)
            with open(outp, 'wb') as fo, open(errp, 'wb') as fe:
                p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=e, cwd=self.work,
                                     preexec_fn=None if exe in self.sanitized else limit_memory)
                rc, why = feed(p, data.encode('utf-8'), outp, timeout)
            got = []
            with open(outp, 'rb') as f:
                for line in f.read().split(b'\n'):
                    if line.startswith(b'@'):
                        try:
                            got.append(json.loads(line[1:].decode('utf-8', 'replace')))
                        except ValueError:
                            break
            todo = cmds[pos:]
            if rc == 0 and len(got) == len(todo):
                for c, r in zip(todo, got):
                    events.append(dict(c, res=r))
                break
            if rc == 0:
                raise CheckError('driver %s answered %d of %d commands' % (exe, len(got), len(todo)))
            k = len(got)
            for c, r in zip(todo, got):
                events.append(dict(c, res=r))
            if k >= len(todo):
                k = len(todo) - 1
                events.pop()
            with open(errp, 'rb') as f:
                err = f.read().decode('utf-8', 'replace')
            if 'DRIVER-BUG' in err:
                raise CheckError(err[-3000:])
            events.append(dict(todo[k], res=['crash'], crash=why + ': ' + first_error(err)))
            failures += 4 if rc == -9 else 1      # what does not end takes long to find out
            nxt = k + 1
            while nxt < len(todo) and todo[nxt].get('op') != 'new':
                nxt += 1
            pos += nxt
            if failures >= 10:
                return events, False
        return events, True

    def record(self, exe, cmds, events, env):
        os.makedirs(RECORD, exist_ok=True)
        n = len(glob.glob(RECORD + '/rec-*.json'))
        with open('%s/rec-%d.json' % (RECORD, n), 'w') as f:
            json.dump({'build': self.built[exe], 'cmds': cmds, 'events': events, 'env': env, 'work': self.work}, f)
        shutil.copytree(self.work, '%s/work-%d' % (RECORD, n), ignore=shutil.ignore_patterns('*.o', 'tlc-*', 'osm-tool', 'drv-*', os.path.basename(exe)))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, text, cfg, args=(), env=None, timeout=600, mem='3g', workers='4', quiet=False, tag=''):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        with open(os.path.join(d, module + '.tla'), 'w') as f:
            f.write(text)
        with open(os.path.join(d, module + '.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:CICompilerCount=2', '-Xmx' + mem, '-Xss64m', '-DTLA-Library=' + SPEC,
               '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-config', module + '.cfg'] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC did not finish within %d s on %s' % (timeout, module))
        out = r.stdout.decode('utf-8', 'replace')
        m = None
        for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out):
            pass
        gen = int(m.group(1).replace(',', '')) if m else 0
        dist = int(m.group(2).replace(',', '')) if m else 0
        if not m:
            m2 = re.search(r'The number of states generated: ([\d,]+)', out)
            if m2:
                gen = dist = int(m2.group(1).replace(',', ''))
        return r.returncode, out, gen, dist

    def model_check(self, module, text, cfg, **kw):
        """Exhaustive check of the specification itself; a violation is an error
        of the specification (the machinery), not of the code."""
        rc, out, gen, dist = self.tlc(module, text, cfg, **kw)
        if rc != 0:
            raise CheckError('TLC rejects the specification %s (rc %d)\n%s' % (module, rc, out[-6000:]))
        self.states += dist
        self.transitions += gen
        return out

    def histories(self, spec, cmds, depth, inv=(), constants='', defs='', simulate=None, seed=None, view=None, timeout=300):
        """All histories of exactly `depth` commands (BFS) or `simulate` random
        ones, of the specification `spec`, as lists of commands. cmds: a TLA+
        expression for the set of commands enabled in st (records with op)."""
        mod = 'G_' + spec
        cmds = ' '.join(cmds.split('\n'))
        text = """---- MODULE %s ----
EXTENDS %s, Json, TLC, Randomization
VARIABLES st, h
%s
GInit == st = Init0 /\\ h = <<>>
GNext == /\\ Len(h) < %d
         /\\ \\E c \\in %s : \\E o \\in Apply(c.op, c, st) :
               st' = o.st /\\ h' = Append(h, c)
GEmit == Len(h) = %d => PrintT("H" \\o ToJson(h))
====
""" % (mod, spec, defs, depth, ('{RandomElement(%s)}' if simulate else '(%s)') % cmds, depth)
        cfg = 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT GEmit\n' + \
            ''.join('INVARIANT %s\n' % i for i in inv) + constants
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(self.seed if seed is None else seed)]
        rc, out, gen, dist = self.tlc(mod, text, cfg, args=args, workers='1' if simulate else '4', timeout=timeout)
        if rc != 0:
            raise CheckError('TLC cannot generate histories of %s (rc %d)\n%s' % (spec, rc, out[-6000:]))
        hs = []
        for line in out.split('\n'):
            if line.startswith('"H['):
                hs.append(json.loads(json.loads(line)[1:]))
        if not hs:
            raise CheckError('no histories from %s\n%s' % (spec, out[-3000:]))
        self.states += dist
        self.transitions += gen
        log('%s: %d histories, %d states' % (spec, len(hs), dist))
        return hs

    def validate(self, spec, events, chunk=4000, timeout=600, extra='', mem='3g', parallel=None, what=None, key=None):
        """Trace validation: is every recorded event a step the specification
        allows? Events that are not are reported as violations."""
        if RECORD:
            return
        bad = self.validate_raw(spec, events, chunk, timeout, extra, mem, parallel)
        if bad:                                   # a rejection counts only if it repeats
            sub = []
            hist = {}
            for i, exp in bad:
                a = i
                while a > 0 and events[a].get('op') != 'new':
                    a -= 1
                hist.setdefault(a, i)
            for a in sorted(hist):
                b = a + 1
                while b < len(events) and events[b].get('op') != 'new':
                    b += 1
                sub += events[a:b]
            again = self.validate_raw(spec, sub, chunk, timeout, extra, mem, parallel, count=False)
            if len(again) < len(bad):
                raise CheckError('rejections of %s do not repeat (%d, then %d)' % (spec, len(bad), len(again)))
        n_hist = sum(1 for e in events if e.get('op') == 'new') or 1
        self.traces += n_hist
        self.events += len(events)
        if len(self.samples) < 4 and events:
            self.samples.append(trim(events[:6]))
        for i, exp in bad:
            a = i
            while a > 0 and events[a].get('op') != 'new':
                a -= 1
            h = events[a:i + 1]
            ev = events[i]
            k = key(h, ev, exp) if key else ev.get('op')
            self.violate(k, '%s: real code answered %s to %s; the specification allows %s' % (
                spec, trim(ev.get('res')), trim({x: y for x, y in ev.items() if x not in ('res',)}), trim(exp)),
                {'spec': spec, 'history': h, 'expected': exp})
        return bad

    def validate_raw(self, spec, events, chunk, timeout, extra, mem, parallel, count=True):
        mod = 'T_' + spec
        text = """---- MODULE %s ----
EXTENDS %s, Json, IOUtils, TLC
%s
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
RECURSIVE NextNew(_)
NextNew(i) == IF i > Len(Trace) THEN i ELSE IF Trace[i].op = "new" THEN i ELSE NextNew(i + 1)
TInit == l = 1 /\\ st = Init0
TNext == /\\ l <= Len(Trace)
         /\\ LET ev == Trace[l]
                outs == Apply(ev.op, ev, st)
                good == {o \\in outs : o.res = ev.res}
            IN IF good # {}
               THEN \\E o \\in good : st' = o.st /\\ l' = l + 1
               ELSE /\\ PrintT("F" \\o ToString(l) \\o " " \\o ToJson({o.res : o \\in outs}))
                    /\\ l' = NextNew(l + 1) /\\ st' = Init0
TDone == <>(l > Len(Trace))
====
""" % (mod, spec, extra)
        cfg = 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n'
        # split at history boundaries
        chunk = min(chunk, max(50, len(events) // (parallel or 6) + 1))
        parts = []
        cur = []
        start = 0
        for i, ev in enumerate(events):
            if ev.get('op') == 'new' and len(cur) >= chunk:
                parts.append((start, cur))
                cur = []
                start = i
            cur.append(ev)
        if cur:
            parts.append((start, cur))

        def one(part):
            st, evs = part
            fn = os.path.join(self.work, 'trace-%s-%d-%d.ndjson' % (spec, st, random.getrandbits(32)))
            with open(fn, 'w') as f:
                for ev in evs:
                    f.write(json.dumps(ev) + '\n')
            rc, out, gen, dist = self.tlc(mod, text, cfg, env={'TRACE': fn}, workers='1', timeout=timeout, mem=mem)
            if rc != 0:
                raise CheckError('TLC failed on a trace of %s (rc %d)\n%s' % (spec, rc, out[-6000:]))
            bad = []
            for line in out.split('\n'):
                m = re.match(r'^"F(\d+) (.*)"$', line)
                if m:
                    s = json.loads(line)
                    n, exp = s[1:].split(' ', 1)
                    bad.append((st + int(n) - 1, json.loads(exp)))
            os.unlink(fn)
            # every event must have been consumed or skipped: the last state is l = len+1
            if dist < 2 and evs:
                raise CheckError('TLC consumed nothing of a trace of %s\n%s' % (spec, out[-3000:]))
            need = len(evs) + 1 if not bad else 2
            if dist < need:
                raise CheckError('TLC stopped early on a trace of %s: %d of %d\n%s' % (spec, dist, need, out[-3000:]))
            return bad, gen, dist
        with cf.ThreadPoolExecutor(parallel or 6) as ex:
            res = list(ex.map(one, parts))
        bad = []
        for b, gen, dist in res:
            bad += b
            if count:
                self.states += dist
                self.transitions += gen
        log('%s: validated %d events in %d parts, %d rejected' % (spec, len(events), len(parts), len(bad)))
        return bad

    # ---------------------------------------------------------------- reporting
    def violate(self, key, text, payload):
        self.violations.append((key, text, payload))

    def finish(self):
        known = load_known(self.prop)
        new = []
        seen_known = {}
        for key, text, payload in self.violations:
            k = next((k for k in known if k['key'] == key), None)
            if k:
                seen_known[key] = k
            else:
                new.append((key, text, payload))
        for key, k in seen_known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rdir = os.path.join(VERIF, 'replays')
        shown = {}
        for n, (key, text, payload) in enumerate(new):
            if key in shown:
                shown[key] += 1
                continue
            shown[key] = 1
            if len(shown) > 8:
                continue
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s-%d-%d.json' % (self.prop, self.seed, len(shown)))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'key': key, 'what': text,
                           'payload': payload}, f, indent=1, default=str)
            print('%s' % text[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'samples': self.samples}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2),
              'violations': len(new)}
        if not self.only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        print('%s: %d traces, %d events, %d states, %d violations, %.1f s' % (
            self.prop, self.traces, self.events, self.states, len(new), time.time() - T0))
        return 1 if new else 0

    def close(self):
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(self.work, ignore_errors=True)


def trim(x, n=600):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'


def first_error(err):
    for line in err.split('\n'):
        if 'ERROR: AddressSanitizer' in line or 'runtime error' in line or 'terminate' in line or 'what():' in line:
            return line.strip()[:300]
    return err.strip()[:300]


def load_known(prop):
    fn = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def main(argv):
    import importlib
    prop = argv[0]
    ctx = Ctx(prop)
    if '--replay' in argv:
        ctx.replay = json.load(open(argv[argv.index('--replay') + 1]))
        ctx.seed = ctx.replay['seed']
        ctx.tier = ctx.replay['tier']
        ctx.rng = random.Random('%s-%d' % (prop, ctx.seed))
    sys.path.insert(0, VERIF)
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        mod.check(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print('ERROR of the check %s: %s' % (prop, e))
        rc = 2
    finally:
        ctx.close()
    return rc


def flat(histories, new=None):
    out = []
    for h in histories:
        out.append(dict(new or {'op': 'new'}))
        out += h
    return out
