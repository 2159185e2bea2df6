#!/usr/bin/env python3
"""Lists seeded changes that remove lines which commits in /repo added (they do not count)."""
import os,re,subprocess,sys
base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).split()
pin='b0a4a33'
S=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded')
for id in sorted(os.listdir(S)):
    f=None;own=orig=0
    for l in open(f'{S}/{id}/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            b=subprocess.check_output(['git','-C','/repo','blame','-s','-l',f'-L{n},{n}',f'{pin}..HEAD','--',f],text=True)
            if b.startswith('^'): orig+=1
            else: own+=1
            n+=1
        elif l.startswith(' '): n+=1
    if own: print(id,'own',own,'orig',orig)
