#!/usr/bin/env python3
"""ed.py FILE (relative to /tmp/seed) <<< 'old===new' """
import sys
p='/tmp/seed/'+sys.argv[1]; s=open(p).read(); a,b=sys.stdin.read().split('\n=====\n')
b=b.rstrip('\n'); a=a.rstrip('\n'); n=int(sys.argv[2]) if len(sys.argv)>2 else None
c=s.count(a)
assert c>=1 and (c==1 or n is not None), f"{c} occurrences"
if n is None: s=s.replace(a,b)
else:
    i=-1
    for _ in range(n+1): i=s.index(a,i+1)
    s=s[:i]+b+s[i+len(a):]
open(p,'w').write(s)
