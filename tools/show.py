"""show.py PROP IDX [SEED]: runs one scenario and prints its outputs and network/child events."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsim import harness, build, props
p = props.get(sys.argv[1]); idx = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
sc = harness.make_scenario(p, seed, os.environ.get('VERIF_TIER', 'quick'), idx)
root = '/dev/shm/vsim-show-%d' % os.getpid(); os.makedirs(root)
try: v, ctx = harness.execute(p, sc, build.ensure(), 0, root, harness.H(seed, p.id, idx, 'run'))
finally: import shutil; shutil.rmtree(root)
print(json.dumps({k: sc[k] for k in sc if k not in ('world', 'times')}, sort_keys=True))
for k, x in sc.get('world', {}).get('urls', {}).items(): print('URL', k, x)
for k, x in sc.get('world', {}).get('hosts', {}).items(): print('HOST', k, x)
r = ctx.last
for n in range(len(r.outs)): print('OUT', n, bytes(r.outs[n][1])[-3000:]); print('ERR', n, bytes(r.outs[n][2])[-4000:])
for e in r.events:
    if e[4][0] in ('net', 'child', 'childin', 'childout', 'sleep', 'fault', 'crash', 'end', 'fs', 'clockjump'): print(e[1], e[2], e[3], ' '.join(e[4])[:260])
print(v)
