"""P24: train movements. Specifications Motion.tla, MotionFacts.tla."""
from vlib import tt

TECHNIQUE = 'TLA+ specification of the forces of rolling stock and of the steps of a movement; TLC judges the forces and step ' \
            'sequences the real code computes for generated rolling stock'


def movements(rng, top):
    """questions for a train with top speed `top` (mm/s)"""
    vs = sorted({0, 1, 277, 2777, top // 2, top - 1, top} | {rng.randint(0, top) for _ in range(6)})
    out = [{'op': 'forces', 'v': vs}]
    for _ in range(3):
        v0 = rng.choice([0, 0, rng.randint(0, top), top - rng.randint(0, 999)])
        vt = rng.choice([top, top, min(top, v0 + rng.randint(0, 3000)), rng.randint(v0, top), top + 5000])
        far = rng.choice([rng.randint(100, 3000), rng.randint(1000, 100000), rng.randint(1000, 1500000), 300])
        out.append({'op': 'accelerate', 'v0': max(v0, 0), 'vt': vt, 'far': far})
    for _ in range(4):
        v0 = rng.randint(0, 46000)
        vt = rng.choice([0, 0, rng.randint(0, 46000), max(v0 - rng.randint(1, 1000), 0), v0, max(v0 - 350 * rng.randint(1, 9), 0)])
        out.append({'op': 'brake', 'v0': v0, 'vt': vt})
    if rng.random() < .2:
        out.append({'op': 'coast', 'v': 0, 'far': rng.randint(1, 5000)})
    for _ in range(3):
        v = rng.choice([rng.randint(1, 1000), rng.randint(1000, 45000)])
        out.append({'op': 'coast', 'v': v, 'far': rng.choice([0, v // 2, v, rng.randint(1, v * 3), rng.randint(1, min(v * 300, 2000000))])})
    return out


def check(ctx):
    exe = ctx.build('motion.cc', ['src/rolling_stock/*.cc', 'src/runtime/runtime_physics.cc', 'src/utls/*.cc'], ['-fsanitize=address,undefined'])
    rng = ctx.rng
    cmds = []
    for _ in range(1200 if ctx.thorough else 160):
        st = tt.stock(rng, 3)
        vs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            s = rng.choice(st)
            vs.append((s, rng.choice(s['variants'])))
        t = {'vs': [{k: v[k] for k in ('weight', 'speed', 'res', 'curve')} for _, v in vs], 'weight': rng.choice([40000, 80500, 400000, 1200000]),
             'len': rng.randint(10000, 700000), 'speed': rng.choice([20, 40, 80, 90, 100, 120, 160, 200]), 'freight': rng.random() < .5, 'ctc': rng.random() < .5}
        top = min([t['speed']] + [v['speed'] for v in t['vs']]) * 2500 // 9
        cmds.append({'op': 'new'})
        cmds.append({'op': 'train', 'xml': tt.stock_xml(st, None), 'vehicles': [[s['nr'] + '-' + s['company'], v['variant']] for s, v in vs], 't': t})
        cmds += movements(rng, top)
        ends = min(v['curve'][-1][1] for v in t['vs'])
        if rng.random() < .3:
            cmds.append({'op': 'too_fast', 'v': ends * 2500 // 9 + rng.randint(100, 5000)})
    evs = ctx.run_driver(exe, cmds)
    out = []
    for e in evs:
        e = {k: v for k, v in e.items() if k not in ('xml', 'vehicles')}
        if e['op'] in ('forces', 'accelerate', 'brake', 'coast') and e['res'][0] == 'ok':
            e['got'] = e['res'][1]
            e['res'] = ['ok']
        out.append(e)
    ctx.extra['steps judged'] = sum(len(e.get('got', ())) for e in out)
    ctx.validate('MotionFacts', out, chunk=400)
