import sys
from .mir import *
w = World()
for f in w.fns.values():
    if any(a in f.path or a == f.id for a in sys.argv[1:]):
        print(pretty(f))
        for p in f.promoted: print('PROMOTED', pretty(f, p))
