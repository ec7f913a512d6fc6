"""P40: where stations and elements are drawn. Specification Layout.tla."""
import os
import random

from vlib import drawing, infra, tracks
from vlib import plan as vp

TECHNIQUE = 'TLA+ specification of where stations and elements of an infrastructure lie on the map; TLC judges the places the ' \
            'real code gives those of generated descriptions'


def facts(l):
    yield {'op': 'stations', 'got': l['station_places']}, ['ok']
    n, got = l['element_places']
    got = [[[l.el(x[0])] + x[1:] for x in s] for s in got]
    yield {'op': 'elements', 'got': got}, ['ok']
    dirs = [[[l.el(b[0]), b[1] + 1] + b[2] for b in s] for s in l['directions']]
    yield {'op': 'turned', 'got': got, 'dirs': dirs}, ['ok']


def check(ctx):
    exe = ctx.build('layout.cc', infra.SRC)
    plans = drawing.plans(ctx, 300 if ctx.thorough else 60)
    xy, gps, opts = [], [], {}
    for i, p in enumerate(plans):
        rng = random.Random('draw-%d-%d' % (ctx.seed, i))
        xy.append(drawing.draw(rng, p))
        fn = '%s/gps%d.csv' % (ctx.work, i)
        if i % 17 == 0:
            gps.append([])                  # no such file
        else:
            gps.append(drawing.write_gps(rng, p, fn, rng.choice([0, .3, .3, .6, .8, 1])))
        opts[i] = {'layout': True, 'coords': fn}
    ls = infra.load(ctx, exe, plans, ['elements', 'station_places', 'element_places', 'directions'], opts=tracks.BARE, new_opts=opts)
    evs = infra.events(ls, facts)
    k = -1
    for e in evs:
        if e['op'] == 'new':
            k += 1
            e['xy'], e['gps'] = xy[k], gps[k]
    ctx.extra['stations'] = sum(len(p['stations']) for p in plans)
    ctx.extra['stations with coordinates'] = sum(map(len, gps))
    ctx.validate('Layout', evs, chunk=60)
