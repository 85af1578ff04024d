"""Worker process: imports the real yade, runs one monitor function over its cases and writes what was observed."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
import yade, vp_iter
vp_iter.patch()
from vctx import Ctx
spec = json.load(open(sys.argv[1]))
ctx = Ctx(spec)
mod = importlib.import_module(spec['module'])
vp_iter.patch()  # of what the monitor imported
ctx.run(getattr(mod, spec['func']))
sys.stdout.flush()
try:
    yade.boot.finalize()
except Exception:
    pass
os._exit(0)
