"""writes plan/functions.txt: the functions known by name (see lib/inline.py)"""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'lib'))
import facts
import inline
P = facts.load()
fs = {inline.plain(j['path']) for j in P.facts['bodies'] if j.get('kind') in ('fn', 'assocfn')}
open(os.path.join(here, 'functions.txt'), 'w').write('\n'.join(sorted(fs)) + '\n')
print(len(fs))
