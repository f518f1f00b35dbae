#!/usr/bin/env python3
"""print a replay file with byte lists as text"""
import json,sys
def t(x):
    if isinstance(x,list) and x and all(isinstance(i,int) and 0<=i<256 for i in x): return repr(bytes(x))
    if isinstance(x,list): return [t(i) for i in x]
    if isinstance(x,dict): return {k:t(v) for k,v in x.items() if k not in('lay','vals')}
    return x
for p in sys.argv[1:]:
    r=json.load(open(p)); print(p, r["rejected_event_index"]); print(json.dumps(t(r["rejected_event"]),indent=0)[:3000])
