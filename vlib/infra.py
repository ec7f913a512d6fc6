"""Labels for what the driver infra.cc reports: elements are named by the id the
plan gives them. Only renaming happens here, no judging."""
from vlib import plan as vp

SRC = ['src/infrastructure/**/*.cc', 'src/rolling_stock/*.cc', 'src/utls/*.cc', 'src/utls/**/*.cc',
       'src/timetable/bitfield.cc']
UNKNOWN = 999999999


def meta_id(sec, up):
    """sec counts from 0; the specification counts from 1"""
    return -2 * (sec + 1) if up else -2 * (sec + 1) - 1


def plan_keys(plan):
    keys = {}

    def put(k, label):
        if k in keys:
            raise RuntimeError('plan is ambiguous: %s' % (k,))
        keys[k] = label
    ports = {}
    for si, s in enumerate(plan['secs']):
        for n in (s['nodes'][0], s['nodes'][-1]):
            t, p, _ = vp.PORTS[n['tag']]
            ports.setdefault((n['main'], t, s['st']), {})[p] = (s['line'], n['km'])
        for n in s['nodes'][1:-1]:
            if n['tag'] in vp.DIRECTED:
                t, d = vp.DIRECTED[n['tag']]
            else:
                t, d = vp.UNDIRECTED[n['tag']], 'U'
            put((t, d, s['st'], (s['line'], n['km'])), n['id'])
        put(('meta', 'S', si), meta_id(si, True))
        put(('meta', 'F', si), meta_id(si, False))
    for (m, t, st), ps in ports.items():
        put((t, st, tuple(sorted(ps.items()))), m)
    return keys


def labels(plan, elements):
    """list: element id -> label"""
    keys = plan_keys(plan)
    out = []
    for e in elements:
        t = e['t']
        if t == 'meta':
            k = ('meta', 'S' if e['rising'] else 'F', e['secs'][0] if e['secs'] else -1)
        elif e['class'][2]:
            p = e['ports'][0]
            d = 'U' if e['class'][5] else ('S' if e['rising'] else 'F')
            k = (t, d, e['st'], (p[1], p[2]))
        else:
            ps = {p[0]: (p[1], p[2]) for p in e['ports']}
            if t == 'border':
                ps = {'a': ps['a']}
            k = (t, e['st'], tuple(sorted(ps.items())))
        out.append(keys.get(k, UNKNOWN))
    return out


class Loaded:
    """answers of the driver about one plan, by op"""
    def __init__(self, plan, answers):
        self.plan = plan
        self.a = answers
        self.crashed = None
        for op, r in answers.items():
            if r[0] != 'ok':
                self.crashed = (op, r)
                return
        self.lab = labels(plan, answers['elements'][1])
        if 'nodes' in answers:
            self.nodes = answers['nodes'][1]
            self.nelem = {n[0]: self.lab[n[1]] for n in self.nodes}
            self.nelem[None] = 0

    def __getitem__(self, op):
        return self.a[op][1]

    def el(self, i):
        return 0 if i is None else self.lab[i] if 0 <= i < len(self.lab) else UNKNOWN

    def nd(self, i):
        return 0 if i is None else self.nelem.get(i, UNKNOWN)


def load(ctx, exe, plans, ops, env=None, opts=None, new_opts=None, timeout=300):
    """ops: op names or dicts; returns [Loaded]"""
    cmds = []
    for i, p in enumerate(plans):
        d = '%s/p%d' % (ctx.work, i)
        vp.write_iss(p, d, split=1 + i % 2)
        cmds.append(dict({'op': 'new', 'dir': d}, **(opts or {}), **((new_opts or {}).get(i, {}))))
        for o in ops:
            o = o(p) if callable(o) else o
            cmds.append({'op': o} if isinstance(o, str) else o)
    evs = ctx.run_driver(exe, cmds, env=env, timeout=timeout)
    groups = []
    for e in evs:
        if e['op'] == 'new':
            groups.append([])
        groups[-1].append(e)
    return [Loaded(p, {e['op']: e['res'] for e in g}) for p, g in zip(plans, groups)]


def events(loaded, facts):
    """one history per plan: its facts, each an op with a result; facts is a
    function Loaded -> [(event without result, result)]"""
    out = []
    for l in loaded:
        out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
        if l.crashed:
            out.append({'op': 'loads', 'res': ['crash' if l.crashed[1][0] == 'crash' else 'exc']})
            continue
        out.append({'op': 'loads', 'res': ['ok']})
        for ev, res in facts(l):
            out.append(dict(ev, res=res))
    return out


def passages(l):
    r = set()
    for i, e, nxt, br, rev, back, t in l.nodes:
        for p in (rev or [None]):
            succ = [('next', nxt)] if nxt is not None else []
            if br is not None:
                succ.append(('branch', br))
            for k, s in (succ or [('none', None)]):
                x = (l.nd(p), l.lab[e], k, l.nd(s))
                r.add(x)
    return [list(x) for x in sorted(r)]
