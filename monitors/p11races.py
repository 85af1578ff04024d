"""Runs some of the scenes of P11 with three threads; started under the race detector."""
import sys, os, json
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, '..', 'lib')]
sys.dont_write_bytecode = True
import yade, vp_iter
vp_iter.patch()
import random
import P11, laws
from common import *
vp_iter.patch()
seed, part, parts, n, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
names = sorted(laws.LAWS())
done = []
# function-local statics are initialised once and safely, which the detector cannot see
for top in ('Shape', 'Material', 'IGeom', 'IPhys', 'Bound', 'State'):
    for nm in yade.system.childClasses(top):
        getattr(yade.wrapper, nm)().dispHierarchy()
for k in range(n):
    law = names[(part + parts * k) % len(names)]
    r = random.Random('%d/%d/%d' % (seed, part, k))
    label, between = P11.scene(r, n=1010 if k == n - 1 and part == 0 else 24, law=law if not (k == n - 1 and part == 0) else 'CundallStrack', energy=False)
    steps = 5 if k < n - 1 or part else 3
    for s in range(steps):
        between(s)
        O.step()
    done.append(dict(label=label, steps=steps, contacts=len([i for i in O.interactions])))
    print(label, done[-1], flush=True)
json.dump(done, open(out, 'w'))
os._exit(0)
