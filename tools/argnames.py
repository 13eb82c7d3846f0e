"""Regenerates engine/argnames.json: parameter names of the entry points as of this tree (run once
per new entry point; the checks then use these names positionally)."""
import os, sys, json
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.path.dirname(os.path.abspath(__file__))]
import dbg
from checks import base, rules
from engine import core
P = dbg.load()
F = os.path.join(base.V, 'engine', 'argnames.json')
core.ARGNAMES.clear()
names = {}
run = core.Engine.run
def rec(self, key, *a, **k):
    b = self.p.bodies.get(key)
    if b and not k.get('args') and not (a and a[0]):
        names[key] = [self.argname(b, i + 1) for i in range(b['argc'])]
    return run(self, key, *a, **k)
core.Engine.run = rec
import time
for pid in base.RULES:
    base.run_rules(base.Run(pid, 'quick', P), time.time(), quiet=True)
json.dump(names, open(F, 'w'), indent=1, sort_keys=True)
print(len(names))
