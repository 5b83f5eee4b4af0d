#!/usr/bin/env python3
"""One-off generator of harness/table.inc (COMMITTED; not run by the checks).
Reads ta_func.h (prototypes) and ta_func_api.xml (ranges/defaults) of the pinned
tree and writes a uniform call table: this is the frozen specification of the
public call signatures used by every harness."""
import re,sys,xml.etree.ElementTree as ET
root=sys.argv[1]
h=open(root+'/ta-lib-rt/c/include/ta_func.h',encoding='latin1').read()
h=re.sub(r'/\* Generated \*/.*','',h)
h=re.sub(r'/\*.*?\*/','',h,flags=re.S)
x=ET.parse(root+'/ta-lib-rt/ta_func_api.xml').getroot()
xml={}
for f in x.findall('FinancialFunctionGroup'):
    xml[f.find('Abbreviation').text]=f
protos={}
for m in re.finditer(r'TA_LIB_API\s+(TA_RetCode|int)\s+TA_(\w+)\s*\(([^;]*?)\)\s*;',h,flags=re.S):
    args=[re.sub(r'\s+',' ',a).strip() for a in m.group(3).split(',')]
    protos[m.group(2)]=args
names=[n for n in protos if n+'_Lookback' in protos and not n.startswith('S_')]
names=[n for n in names if n in xml]
miss=[n for n in xml if n not in names]
assert not miss,miss
kind={'inOpen':0,'inHigh':1,'inLow':2,'inClose':3,'inVolume':4,'inOpenInterest':5}
UN=re.search(r'TA_FUNC_UNST_ADX.*?TA_FUNC_UNST_ALL',open(root+'/ta-lib-rt/c/include/ta_defs.h').read(),flags=re.S).group(0)
out=[]
o=out.append
o('/* GENERATED ONCE by tools/gen_table.py from the pinned tree; committed. */')
tab=[]
for n in names:
    a=protos[n]
    ins=[];opts=[];outs=[]
    for s in a[2:]:
        nm=re.search(r'(\w+)(\[\])?$',s).group(1)
        if nm.startswith('in'):
            ins.append(nm)
        elif nm.startswith('optIn'):
            opts.append((nm,s.replace(nm,'').strip()))
        elif nm in('outBegIdx','outNBElement'): pass
        elif nm.startswith('out'):
            outs.append((nm,s.split()[0]))
        else: raise Exception(s)
    X=xml[n]
    xo=[]
    for oi in [q for q in X.findall('Functions/Function') if q.find('Type').text=='Lookback'][0].findall('OptionalInputArguments/OptionalInputArgument'):
        t=oi.find('Type').text
        r=oi.find('Range')
        d=oi.find('DefaultValue').text
        if r is not None:
            xo.append((t,float(r.find('Minimum').text),float(r.find('Maximum').text),float(d)))
        else:
            xo.append((t,0,9,float(d)))
    assert len(xo)==len(opts),(n,xo,opts)
    flags=[f.text for f in X.findall('Flags/Flag')]
    un=0
    def ocast(i):
        t=opts[i][1]
        return ('(%s)o[%d]'%(t,i) if t=='int' else '(%s)(int)o[%d]'%(t,i)) if t!='double' else 'o[%d]'%i
    oc=''.join(', '+ocast(i) for i in range(len(opts)))
    oc0=', '.join(ocast(i) for i in range(len(opts)))
    outc=''.join(', (%s*)q[%d]'%(t,i) for i,(m_,t) in enumerate(outs))
    ind=''.join(', p[%d]'%i for i in range(len(ins)))
    o('static TA_RetCode b_%s(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_%s(s,e%s%s,b,n%s);}'%(n,n,ind,oc,outc))
    o('static TA_RetCode f_%s(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_%s(s,e%s%s,b,n%s);}'%(n,n,ind,oc,outc))
    o('static int l_%s(const double*o){return TA_%s_Lookback(%s);}'%(n,n,oc0))
    o('static TA_RetCode si_%s(void**st,const double*o){return TA_%s_StateInit((struct TA_%s_State**)st%s);}'%(n,n,n,oc))
    o('static TA_RetCode st_%s(void*st,const double*p,void*const*q){return TA_%s_State((struct TA_%s_State*)st%s%s);}'%(n,n,n,ind,outc))
    o('static TA_RetCode sb_%s(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_%s_BatchState((struct TA_%s_State*)st,s,e%s,b,n%s);}'%(n,n,n,ind,outc))
    o('static TA_RetCode sf_%s(void**st){return TA_%s_StateFree((struct TA_%s_State**)st);}'%(n,n,n))
    o('static TA_RetCode ss_%s(void*st,FILE*f){return TA_%s_StateSave((struct TA_%s_State*)st,f);}'%(n,n,n))
    o('static TA_RetCode sl_%s(void**st,FILE*f){return TA_%s_StateLoad((struct TA_%s_State**)st,f);}'%(n,n,n))
    ik=','.join(str(kind.get(i,6 if i!='inPeriods' else 7)) for i in ins)
    OI={'Integer':0,'Double':1,'MA Type':2}
    ol=','.join('{"%s",%d,%.17g,%.17g,%.17g}'%(opts[i][0],OI[xo[i][0]],xo[i][1],xo[i][2],xo[i][3]) for i in range(len(opts)))
    outl=','.join('{"%s",%d}'%(m_,1 if t=='int' else 0) for m_,t in outs)
    fl=0
    if 'Overlap' in flags: fl|=1
    if 'Unstable Period' in flags: fl|=2
    if 'Candlestick' in flags: fl|=4
    if 'Volume' in flags: fl|=8
    unk=[f for f in flags if f not in('Overlap','Unstable Period','Candlestick','Volume')]
    if unk: print(n,unk,file=sys.stderr)
    uid='TA_FUNC_UNST_'+n if 'Unstable Period' in flags and re.search(r'TA_FUNC_UNST_%s\b'%n,UN) else '-1'
    tab.append('{"%s","%s","%s",%d,%s,%d,{%s},%d,{%s},%d,{%s},b_%s,f_%s,l_%s,si_%s,st_%s,sb_%s,sf_%s,ss_%s,sl_%s}'%(
      n,X.find('CamelCaseName').text,X.find('GroupId').text,fl,'(int)'+uid,len(ins),ik,len(opts),ol or '{0}',len(outs),outl,n,n,n,n,n,n,n,n,n))
o('const FD FTAB[]={')
o(',\n'.join(tab))
o('};')
o('const int NF=sizeof FTAB/sizeof*FTAB;')
open(sys.argv[2],'w').write('\n'.join(out)+'\n')
print(len(names),'functions')
