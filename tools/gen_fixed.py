#!/usr/bin/env python3
# Regenerates the "fixed:" lines of known_findings.txt from the fix: commits of /repo.
import subprocess,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P={'0d0f8fa':'C09'}
def prop(h,m):
    for k in P:
        if h.startswith(k): return P[k]
    for pat,p in ((r'dereferenced a NULL handle','C21'),(r'StateSave/StateLoad lost','C03'),(r'CIRCBUF save/load','C04'),(r'allocations|work buffers','C05'),(r'^NATR: close','C07'),(r'^TRIX: first','C07'),(r'lost when the D output','C09'),(r'past the requested range','C06'),(r'default-marker periods','C11'),(r'TA_FUNC_UNST_NONE','C18'),(r'before refusing the call','C16'),(r'^KAMA: efficiency|^IMI: a window','C22'),(r'^IMI: an unstable','C19')):
        if re.search(pat,m): return p
    e=EXTRA.get(h[:7]); return e or 'C01'
EXTRA={}
x=V+'/tools/fixed_props.txt'
if os.path.exists(x):
    for l in open(x):
        l=l.split()
        if len(l)>=2: EXTRA[l[0][:7]]=l[1]
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
out=[l for l in open(V+'/known_findings.txt').read().split('\n') if l and not l.startswith('fixed:')]
for l in log:
    h,_,m=l.partition(' ')
    if m.startswith('fix: '): m=m[5:]; out.append('fixed: property=%s %s %s'%(EXTRA.get(h[:7]) or prop(h,m),h,m))
open(V+'/known_findings.txt','w').write('\n'.join(out)+'\n'); print(len(out))
