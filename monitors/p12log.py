"""Event log written by the engines of the P12 workloads (imported by their commands)."""
import time, random
EV = []
HOOK = {}
JIT = random.Random(1)
SLEEP = 0.


def ev(tag):
    from yade.wrapper import Omega
    O = Omega()
    EV.append((tag, O.iter, O.time, O.subStep))
    if SLEEP: time.sleep(JIT.random() * SLEEP)
    h = HOOK.pop((tag, O.iter), None)
    if h: h()


def clear():
    EV.clear(); HOOK.clear()
