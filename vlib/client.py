"""The web client: bundling its sources with the driver that asks it."""
import os
import subprocess

from vlib import core


def build(ctx):
    out = os.path.join(ctx.work, 'client.mjs')
    r = subprocess.run(['node', core.VERIF + '/drivers/client-build.mjs', core.VERIF + '/drivers/client.mjs', out, core.REPO + '/web/client/src'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise core.CheckError('cannot bundle the client\n' + r.stdout[-4000:])
    exe = os.path.join(ctx.work, 'client')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nexec node %s\n' % out)
    os.chmod(exe, 0o755)
    ctx.sanitized.add(exe)                   # reserves more memory than it uses
    ctx.built[exe] = {'driver': 'client.mjs', 'srcs': ['web/client/src'], 'flags': []}
    core.log('bundled the client')
    return exe
