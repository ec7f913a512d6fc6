"""The program that puts the railway's data on OpenStreetMap's: building it."""
import os
import subprocess

from vlib import core


def build(ctx):
    out = os.path.join(ctx.work, 'osm-tool')
    env = dict(os.environ)
    if os.environ.get('VERIF_CACHE') and not os.environ.get('VERIF_GOCACHE'):
        env['VERIF_GOCACHE'] = core.VERIF + '/.cache/go'
    r = subprocess.run(['python3', core.VERIF + '/drivers/osm_tool.py', 'build', core.REPO, out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        raise core.CheckError('cannot build generate-osm\n' + r.stdout[-4000:])
    exe = os.path.join(ctx.work, 'osm')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nexec python3 %s/drivers/osm_tool.py run %s\n' % (core.VERIF, out))
    os.chmod(exe, 0o755)
    ctx.sanitized.add(exe)                   # Go reserves more memory than it uses
    ctx.built[exe] = {'driver': 'osm_tool.py', 'srcs': ['tools/generate-osm'], 'flags': []}
    core.log('built generate-osm')
    return exe


# the elements there are: whether they have a direction, and whether they have a name
KINDS = {'ms': (True, 'unique'), 'as': (True, 'any'), 'ps': (True, 'any'), 'gz': (True, 'any'), 'rz': (True, 'any'), 'spl': (True, ''),
         'eotd1': (True, ''), 'eotd2': (True, ''), 'border': (False, ''), 'bumper': (False, ''), 'track_end': (False, 'any'), 'tunnel': (False, 'any'),
         'km_jump': (False, ''), 'km_jump_end': (False, ''), 'line_switch': (False, ''), 'line_switch_1': (False, ''), 'slope': (False, ''),
         'simple_switch': (False, 'unique'), 'cross': (False, 'any'), 'cross_end': (False, '')}
