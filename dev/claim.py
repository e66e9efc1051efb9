#!/usr/bin/env python3
# claim.py ID technique note
import re,sys
pid,tech,note=sys.argv[1:4]
p="/verif/meta/props_data.py"; s=open(p).read()
i=s.index('prop("%s",'%pid); j=s.find('\nprop("',i+1); j=len(s) if j<0 else j
b=s[i:j]; assert "na=TODO" in b
b=b.replace("na=TODO",'technique=%r, level="other", note=%r'%(tech,note))
open(p,"w").write(s[:i]+b+s[j:])
