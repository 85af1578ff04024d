"""Worker process that does not import yade itself (its monitor starts other processes)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
from vctx import Ctx
spec = json.load(open(sys.argv[1]))
ctx = Ctx(spec)
mod = importlib.import_module(spec['module'])
ctx.run(getattr(mod, spec['func']))
sys.stdout.flush()
os._exit(0)
