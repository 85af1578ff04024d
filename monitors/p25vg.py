"""Runs random histories of calls; started under memcheck."""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, '..', 'lib')]
sys.dont_write_bytecode = True
import yade, vp_iter
vp_iter.patch()
import random
import p25ops
vp_iter.patch()
seed, part, n, d, log, tr = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5], sys.argv[6]
f = open(tr, 'w')
p25ops.CGAL = False
size = [os.path.getsize(log)]


def trace(k, res):
    z = os.path.getsize(log)
    f.write('%s %s%s\n' % (k, res or '-', ' REPORT' if z != size[0] else '')); f.flush()
    size[0] = z


only = ('step', 'forces', 'getitem', 'intr', 'intr_nth', 'intr_query', 'intr_erase', 'erase', 'materials', 'measures_of', 'create', 'insert_at', 'add_to_clump', 'release', 'update_clumps', 'clump', 'roundness', 'imposed', 'append') if part == 99 else None
w = p25ops.World(random.Random('%d/%d' % (seed, part)), d)
p25ops.history(w, n, trace, only, .6 if part == 99 else None)
f.write('DONE -\n'); f.flush()
sys.stdout.flush()
os._exit(0)
