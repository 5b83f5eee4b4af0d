#!/usr/bin/env python3
"""Mutation campaign (development aid; no registered check uses it).
usage: mutate.py CHECKS FUNCS_REGEX PERFILE [part=batch|state|lookback|float|all|gen|infra|cond] [seed]   (MUT_DIR: directory under c/src)
Copies the library to a scratch directory, applies one random operator/index mutation at a time, rebuilds and runs the
given checks restricted to the function. Prints the survivors."""
import sys,os,re,random,subprocess,shutil,tempfile,concurrent.futures as cf
checks=sys.argv[1].split(','); rx=re.compile(sys.argv[2]); per=int(sys.argv[3]); part=sys.argv[4] if len(sys.argv)>4 else 'batch'; seed=int(sys.argv[5]) if len(sys.argv)>5 else 1
DIR=os.environ.get('MUT_DIR','ta_func'); V='/verif'; NW=int(os.environ.get('MUT_NW','6'))
W=tempfile.mkdtemp(prefix='mut.',dir='/tmp')
MUT=[(r'(?<![<>=!+\-])<(?![<=])','<='),(r'<=','<'),(r'(?<![<>=\-])>(?![>=])','>='),(r'>=','>'),(r'&&','||'),(r'\|\|','&&'),(r'==','!='),(r'!=','=='),(r'(?<=\s)\+(?=\s)','-'),(r'(?<=\s)-(?=\s)','+'),(r'\+\+','--'),(r'\+=','-='),(r'-=','+='),(r'(?<=\[)i-1(?=\])','i-2'),(r'(?<=\[)i-2(?=\])','i-1'),(r'(?<=\[)i(?=\])','i-1'),(r',\s*i-1(?=\s)',', i-2 '),(r',\s*i-2(?=\s)',', i-1 '),(r',\s*i(?=\s\))',', i-1'),(r'\*(?=[\w\s(])','+'),(r'(?<=\s)/(?=\s*[\w(])','*'),(r'\b1\b','2'),(r'\b1\b','0'),(r'\b0\b','1'),(r'\b2\b','3'),(r'lookbackTotal','(lookbackTotal+1)'),(r'inHigh','inLow'),(r'inLow','inHigh'),(r'inOpen','inClose'),(r'inClose','inOpen'),(r'TA_REALBODY','TA_HIGHLOWRANGE'),(r'BodyLong\b','BodyShort'),(r'ShadowVeryShort\b','ShadowLong'),(r'Near\b','Equal'),(r'TA_UPPERSHADOW','TA_LOWERSHADOW'),(r'TA_LOWERSHADOW','TA_UPPERSHADOW')]
def gen(s,infra):
    # generated sections of a function file (or, infra, any file): operator mutations and deletions of one-line statements
    out=[]; insec=False; st=[]; cm=False
    for m in re.finditer(r'[^\n]*\n',s):
        l=m.group(0); l=l.replace('/* Generated */',' '*15,1)
        if 'START GENCODE SECTION' in l: insec=True; continue
        if 'END GENCODE SECTION' in l: insec=False; continue
        d=re.match(r'\s*#\s*(if|ifdef|ifndef|elif|else|endif)\b(.*)',l)
        if d:
            k,c=d.groups(); dead=bool(re.search(r'_MANAGED|_JAVA|_RMCPP|_DEBUG|WIN32|_MSC_VER|TA_GEN_CODE|USE_SINGLE|USE_WIN',c)) and k!='ifndef' and '!defined' not in c.replace(' ','')
            if k in('if','ifdef','ifndef'): st.append([dead,dead])
            elif k=='elif' and st: st[-1][0]=dead
            elif k=='else' and st: st[-1][0]=False if st[-1][1] else st[-1][0]
            elif k=='endif' and st: st.pop()
            continue
        c=re.sub(r'//.*|/\*.*?\*/',lambda x:' '*len(x.group(0)),l)
        if cm:
            if '*/' in c: cm=False
            continue
        if '/*' in c: cm=True; continue
        if (not infra and not insec) or any(x[0] for x in st) or re.match(r'\s*#',c) or not c.strip(): continue
        if re.match(r'\s*(static |extern |const |unsigned |TA_LIB_API|TA_RetCode TA_|int TA_|typedef|enum|struct)',c): continue
        if re.match(r'\s*(if *\(.*\))?\s*[\w>.\[\]*()-]+.*;\s*$',c) and not re.match(r'\s*(int|double|float|unsigned|return \w+ *; *$|TA_\w+ \*?\w+;|\w+ \*?\w+;)',c): a=len(c)-len(c.lstrip()); out.append((m.start()+a,m.start()+len(c.rstrip()),';'))
        for p,r in MUT:
            for q in re.finditer(p,c): out.append((m.start()+q.start(),m.start()+q.end(),r))
    return out
def sites(s,part):
    if part=='cond': return cond(s)
    if part in('gen','infra'): return gen(s,part=='infra')
    # code of the hand written body: after GENCODE SECTION 4 end (batch) / other sections for state; only the double version (before '#if' USE_SINGLE? )
    out=[]; sec=None; insec=False; last=None
    if part=='float':
        k=s.find('TA_S_',s.find('#define  USE_SINGLE_PRECISION_INPUT')+60); k=s.find('TA_FUNC_NO_RANGE_CHECK',k); k=s.find('#endif \n',s.find('#endif \n',k)+5)
        for m in re.finditer(r'/\* Generated \*/([^\n]*)\n',s[k:] if k>0 else ''):
            c=m.group(1)
            if 'END GENCODE' in c: break
            c=re.sub(r'/\*.*?\*/',lambda x:' '*len(x.group(0)),c)
            if re.match(r'\s*(#|int |double |ARRAY_REF|\*)',c) or 'ENUM_VALUE' in c or 'BAD_PARAM' in c: continue
            for p,r in MUT:
                for q in re.finditer(p,c): out.append((k+m.start(1)+q.start(),k+m.start(1)+q.end(),r))
        return out
    for m in re.finditer(r'[^\n]*\n',s):
        l=m.group(0)
        k=re.search(r'START GENCODE SECTION (\d+)',l); e=re.search(r'END GENCODE SECTION (\d+)',l)
        if k: insec=True; continue
        if e: insec=False; last=int(e.group(1)); continue
        if insec or '/* Generated */' in l or last is None: continue
        want={'batch':[4],'state':[6,8,10,12,14,16],'lookback':[2],'all':[2,4,6,8,10,12,14,16]}[part]
        if last not in want: continue
        c=re.sub(r'//.*|/\*.*?\*/',lambda x:' '*len(x.group(0)),l)
        if re.match(r'\s*(/?\*|//|#|int |double |ARRAY_REF)',c) or 'ENUM_VALUE' in c or c.count('"') : continue
        for i,(p,r) in enumerate(MUT):
            for q in re.finditer(p,c): out.append((m.start()+q.start(),m.start()+q.end(),r))
    return out
def cond(s):
    # a mutated statement that runs only in a special situation (long windows, late starts, long periods, old streams)
    out=[]; 
    for side,cs in ((('float' if os.environ.get('MUT_COND')=='float' else 'batch'),['endIdx-startIdx > %d','endIdx > %d','startIdx > %d']+(['optInTimePeriod > %d'] if 'optInTimePeriod' in s else [])+(['outIdx > %d'] if 'outIdx' in s else [])),('state',['_state->mem_index > %d']+(['_state->optInTimePeriod > %d'] if 'optInTimePeriod' in s else []))):
        for a,b,r in sites(s,side):
            i=s.rfind('\n',0,a)+1; i+=15*s.startswith('/* Generated */',i); j=s.find('\n',a); l=s[i:j].rstrip('\r'); q=s[:i].replace('/* Generated */','').rstrip(); 
            if not re.match(r'\s*[\w\[\]>.\-]+\s*(\+\+|--|[-+*/]?=[^=].*);\s*$',l) or 'return' in l or q[-1:] not in ';{})' : continue
            n=len(l); m=s[i:a]+r+s[b:i+n]; k=random.choice([6,15,33,64,130,260] if 'Period' in cs[-1] else [12,40,90,200,300]); c=random.choice(cs)%k
            out.append((i,i+n,'{ if( %s ) { %s } else { %s } }'%(c,m.strip(),l.strip())))
    return out
def prep(w):
    d=W+'/r%d'%w; os.makedirs(d+'/ta-lib-rt'); shutil.copytree('/repo/ta-lib-rt/c',d+'/ta-lib-rt/c'); 
    subprocess.run(['bash',V+'/build.sh','plain'],env=dict(os.environ,REPO=d),check=True); return d
def one(w,fn,site):
    d=W+'/r%d'%w; p=d+'/ta-lib-rt/c/src/'+DIR+'/'+fn; s=open(p,encoding='latin1',newline='').read(); a,b,r=site
    open(p,'w',encoding='latin1',newline='').write(s[:a]+r+s[b:]); F=fn[3:-2] if DIR=='ta_func' and part!='infra' else '*'; res=None
    ln=s.count('\n',0,a)+1; line=s.split('\n')[ln-1].strip(); desc='%s:%d %r->%r  %s'%(fn,ln,s[a:b],r,line[:110]) if part!='cond' else '%s:%d %s'%(fn,ln,r)
    try:
        env=dict(os.environ,REPO=d); x=subprocess.run(['bash',V+'/build.sh','plain'],env=env,capture_output=True,text=True)
        if x.returncode: return ('nocompile',desc)
        B=subprocess.run("echo %s/build/plain-$(echo '%s' | md5sum | cut -c1-8)"%(V,d),shell=True,capture_output=True,text=True).stdout.strip()
        for c in checks:
            try: y=subprocess.run([B+'/mc',c,*(['--only',F+'/*'] if F!='*' else []),'--verif',V,'-j','2'],capture_output=True,text=True,timeout=400)
            except subprocess.TimeoutExpired: return ('killed-timeout:'+c,desc)
            if 'VIOLATION' in y.stdout: return ('killed:'+c,desc)
        return ('SURVIVED',desc)
    finally: open(p,'w',encoding='latin1',newline='').write(s)
def main():
    random.seed(seed); src='/repo/ta-lib-rt/c/src/'+DIR; work=[]
    for fn in sorted(os.listdir(src)):
        if not ((fn.startswith('ta_') or DIR!='ta_func') and fn.endswith('.c')) or not rx.search(fn[3:-2] if DIR=='ta_func' else fn) : continue
        s=open(src+'/'+fn,encoding='latin1',newline='').read(); st=sites(s,part); random.shuffle(st); work+= [(fn,x) for x in st[:per]]
    random.shuffle(work); ds=[prep(w) for w in range(NW)]; import queue; q=queue.Queue(); [q.put(w) for w in range(NW)]
    def run(x):
        w=q.get()
        try: return one(w,*x)
        finally: q.put(w)
    from collections import Counter; cnt=Counter()
    with cf.ThreadPoolExecutor(NW) as ex:
        for r,dsc in ex.map(run,work):
            cnt[r]+=1
            if r=='SURVIVED': print(dsc,flush=True)
    print(dict(cnt))
try: main()
finally:
    for w in range(NW):
        d=W+'/r%d'%w; h=subprocess.run("echo '%s' | md5sum | cut -c1-8"%d,shell=True,capture_output=True,text=True).stdout.strip(); shutil.rmtree(V+'/build/plain-'+h,ignore_errors=True)
    shutil.rmtree(W,ignore_errors=True)
