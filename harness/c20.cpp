// C20: independence of calls and objects: no static writes, no dependence on garbage, every interleaving.
#include "abs.h"
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
namespace {
struct Seg { char*a,*b; }; Seg SEG[8]; int NSEG=-1;
int cb(struct dl_phdr_info*i,size_t,void*){ if(!i->dlpi_name||!strstr(i->dlpi_name,"libtaut.so")) return 0; long pg=sysconf(_SC_PAGESIZE);
  for(int k=0;k<i->dlpi_phnum;k++){ auto&h=i->dlpi_phdr[k]; if(h.p_type==PT_LOAD&&(h.p_flags&PF_W)&&NSEG<8){ uintptr_t a=i->dlpi_addr+h.p_vaddr,b=a+h.p_memsz; SEG[NSEG++]={(char*)(a/pg*pg),(char*)((b+pg-1)/pg*pg)}; } } return 1; }
bool lock(bool on){ if(NSEG<0){ NSEG=0; dl_iterate_phdr(cb,0); } for(int i=0;i<NSEG;i++) if(mprotect(SEG[i].a,SEG[i].b-SEG[i].a,on?PROT_READ:PROT_READ|PROT_WRITE)) return false; return NSEG>0; }
__attribute__((noinline)) void dirt(int p){ volatile char b[24000]; for(size_t i=0;i<sizeof b;i++) b[i]=(char)p; }
// one complete use of a function: all entry points; everything observable is appended to o
void drive(const FD&f,const Cfg&c,const Data&d,const std::vector<double>*price,std::vector<double>&o,int fill){
  int n=d.n,lb=f.lookback(c.o); auto D=[&]{ if(fill>=0) dirt(fill); };
  for(int w=0;w<4;w++){ int s=w==0?0:w==1?lb:w==2?std::min(lb+3,n-1):n-1,e=w==1?std::min(lb+2,n-1):n-1; if(s<0||s>e) continue; for(int fl=0;fl<2;fl++){ Out q; q.prep(f,n); int b=-9,m=-9; D(); int r=fl?f.batchf(s,e,d.pf,c.o,&b,&m,q.q):f.batch(s,e,d.p,c.o,&b,&m,q.q); o.push_back(r); o.push_back(b); o.push_back(m); for(int k=0;k<f.nout;k++) for(int i=0;i<m;i++) o.push_back(q.get(f,k,i)); } }
  void*st=0; D(); o.push_back(f.sinit(&st,c.o)); double v[6]; int half=n/2; auto step=[&](void*h,int i){ d.at(i,v); Out1 q(f); D(); int r=f.sstep(h,v,q.q); o.push_back(r); if(!r) for(int k=0;k<f.nout;k++) o.push_back(q.get(k)); };
  for(int i=0;i<half;i++) step(st,i); MemFile m; D(); o.push_back(f.ssave(st,m.f)); m.done(); void*z=0; FILE*g=fmemopen(m.buf,m.len,"rb"); D(); o.push_back(f.sload(&z,g)); fclose(g); for(int i=half;i<n-2;i++) step(st,i);
  Out q; q.prep(f,n); int b=-9,k=-9; D(); o.push_back(f.sbatch(z,half,n-1,d.p,&b,&k,q.q)); o.push_back(b); o.push_back(k); for(int j=0;j<f.nout;j++) for(int i=0;i<k;i++) if(!f.out[j].isint||half+i>=lb) o.push_back(q.get(f,j,i)); f.sfree(&z); f.sfree(&st);
  { Abs a(f); Out y; y.prep(f,n); a.opt(c.o); a.in(price,d,0); a.out(y.q); D(); int l=-1; TA_GetLookback(a.p,&l); o.push_back(l); b=k=-9; D(); o.push_back(TA_CallFunc(a.p,0,n-1,&b,&k)); for(int j=0;j<f.nout;j++) for(int i=0;i<k;i++) o.push_back(y.get(f,j,i)); D(); o.push_back(TA_InitNewState(a.p)); for(int i=0;i<3;i++){ Out1 q1(f); a.in(price,d,i); a.out(q1.q); D(); int r=TA_CallFuncState(a.p); o.push_back(r); if(!r) for(int j=0;j<f.nout;j++) o.push_back(q1.get(j)); } }
}
void solo(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0) continue; int n=lb+(x.tier?40:12);
    for(int w=0;w<nbase(f,c);w++){ Hist h=base_hist(f,c,w,n); Data d; d.set(f,h,true); std::vector<double> price[6]; for(int k=0;k<6;k++) for(auto&b:h) price[k].push_back(b.v[k]);
      std::vector<double> ref; x.step(cfgstr(f,c)+" with the library's static data write-protected "+histstr(f,h)); if(!lock(true)){ x.viol("harness:segment","library data segment not found"); return; } drive(f,c,d,price,ref,-1); lock(false); x.step("done");
      for(int fill:{0x00,0xff,0x3f,0x7f,0xc1,-1}){ std::vector<double> o; g_fill=fill; drive(f,c,d,price,o,fill); g_fill=-1; x.cov.transitions+=o.size(); x.cov.states++; x.cov.traces++; bool ok=o.size()==ref.size(); size_t i=0; for(;ok&&i<o.size();i++) if(memcmp(&o[i],&ref[i],8)&&!(std::isnan(o[i])&&std::isnan(ref[i]))) ok=false; if(!ok){ x.viol(fmt("%s:repeat",f.name),cfgstr(f,c)+fmt(" repeated with fresh memory and stack filled with %#x: observation %zu is %.17g instead of %.17g on ",fill,i-1,i?o[i-1]:0,i?ref[i-1]:0)+histstr(f,h)); return; } }
      if(w==4) x.sample(cfgstr(f,c)+" all entry points, write-protected statics, 6 memory fills"); }
    // a window that begins far from the start of the data, on differently filled fresh memory and stack
    { Data d; d.set(f,base_hist(f,c,4,lb+420),true); for(int fl=0;fl<2;fl++){ Out q,r; q.prep(f,140); r.prep(f,140); int b=-9,m=-9,b2=-9,m2=-9; bool ok=true; for(int fill:{0x00,0x40,0xff,0xc1}) if(ok){ Out&o=fill?q:r; g_fill=fill; dirt(fill); int rc=fl?f.batchf(lb+311,lb+419,d.pf,c.o,fill?&b2:&b,fill?&m2:&m,o.q):f.batch(lb+311,lb+419,d.p,c.o,fill?&b2:&b,fill?&m2:&m,o.q); g_fill=-1; x.cov.transitions++; x.cov.traces++; if(rc){ ok=false; x.viol(fmt("%s:late-rc",f.name),cfgstr(f,c)+fmt(" bars %d..%d: rc=%d",lb+311,lb+419,rc)); }
        if(ok&&fill){ ok=b==b2&&m==m2; int i=0,k=0; for(k=0;k<f.nout&&ok;k++) for(i=0;i<m&&ok;i++) ok=biteq(q.get(f,k,i),r.get(f,k,i)); if(!ok) x.viol(fmt("%s:repeat",f.name),cfgstr(f,c)+fmt(" bars %d..%d%s with fresh memory and stack filled with %#x instead of 0: the result differs (output element %d)",lb+311,lb+419,fl?" in single precision":"",fill,i-1)); } } } x.note("late_windows"); } } }
// three processes: object A steps, object B steps, batch calls of A's function; every merge
struct Proc { const FD*f; const Cfg*c; Data d; Trace t; int pre; };
void mkproc(Proc&p,const FD&f,const Cfg&c,int w,int m){ p.f=&f; p.c=&c; int lb=f.lookback(c.o); p.pre=std::max(0,lb-1); p.d.set(f,base_hist(f,c,w,p.pre+m+2)); stepref(f,c,p.d,p.t); }
void merge(Proc&A,Proc&B,int m,int nb,Ctx&x){ const FD&f=*A.f,&g=*B.f; Out ref[2]; int rb[2],rn[2]; for(int w=0;w<2;w++){ ref[w].prep(f,A.d.n); f.batch(w?A.pre:0,A.d.n-1,A.d.p,A.c->o,&rb[w],&rn[w],ref[w].q); }
  std::vector<int> s; for(int i=0;i<m;i++) s.push_back(0); for(int i=0;i<m;i++) s.push_back(1); for(int i=0;i<nb;i++) s.push_back(2); double v[6];
  do { void*a=0,*b=0; f.sinit(&a,A.c->o); g.sinit(&b,B.c->o); for(int i=0;i<A.pre;i++){ A.d.at(i,v); Out1 q(f); f.sstep(a,v,q.q); } for(int i=0;i<B.pre;i++){ B.d.at(i,v); Out1 q(g); g.sstep(b,v,q.q); }
    auto id=[&]{ std::string r=cfgstr(f,*A.c)+" | "+cfgstr(g,*B.c)+" schedule "; for(int k:s) r+="ABb"[k]; return r; }; if(x.trace) x.step(id()); int ia=A.pre,ib=B.pre,w=0; bool ok=true;
    auto st=[&](Proc&P,void*h,int&i){ P.d.at(i,v); Out1 q(*P.f); int r=P.f->sstep(h,v,q.q); if(r!=P.t.rc[i]) ok=false; else if(!r) for(int k=0;k<P.f->nout;k++) if(!biteq(q.get(k),P.t.v[k][i])) ok=false; i++; };
    for(int k:s){ if(k==0) st(A,a,ia); else if(k==1) st(B,b,ib); else { Out q; q.prep(f,A.d.n); int bb,nn; f.batch(w&1?A.pre:0,A.d.n-1,A.d.p,A.c->o,&bb,&nn,q.q); if(bb!=rb[w&1]||nn!=rn[w&1]) ok=false; else for(int j=0;j<f.nout;j++) for(int i=0;i<nn;i++) if(!biteq(q.get(f,j,i),ref[w&1].get(f,j,i))) ok=false; w++; } x.cov.transitions++; if(!ok){ x.viol(fmt("%s:interleave",f.name),id()+": a call gives another result than alone"); break; } }
    f.sfree(&a); g.sfree(&b); x.cov.states++; x.cov.traces++; if(!ok) return; } while(std::next_permutation(s.begin(),s.end())); }
void pairs(const FD&f,int tier,Ctx&x){ Cfg z; memset(&z,0,sizeof z); z.candle=3; auto pick=[&](const FD&q,int i){ auto v=cfgs_small(q,0); std::vector<Cfg> k; for(auto&c:v){ Cfg e=c; e.unst=e.compat=0; e.candle=3; bool dup=false; for(auto&y:k) dup|=!memcmp(&y,&e,sizeof e); if(!dup) k.push_back(e); } return k[std::min<size_t>(i,k.size()-1)]; };
  apply(z); int m=tier?4:3, fi=&f-FTAB; Cfg c0=pick(f,0),c1=pick(f,1); Proc A; mkproc(A,f,c0,4,m);
  { Proc B; mkproc(B,f,c1,5,m+1); merge(A,B,m+1,2,x); Proc C; mkproc(C,f,c0,3,m+1); merge(A,C,m,2,x); }
  for(int j=fi+1;j<NF;j++){ if(x.full()) return; Cfg c2=pick(FTAB[j],0); Proc B; mkproc(B,FTAB[j],c2,5,m); merge(A,B,m,tier?2:1,x); x.note("pairs"); } x.sample(cfgstr(f,c0)+" with every other function, all merges"); }
void intro(Ctx&x){ x.step("introspection with the library's static data write-protected"); lock(true); TA_StringTable*g=0; TA_GroupTableAlloc(&g); for(unsigned i=0;g&&i<g->size;i++){ TA_StringTable*t=0; TA_FuncTableAlloc(g->string[i],&t); TA_FuncTableFree(t); } TA_GroupTableFree(g); for(int i=0;i<NF;i++){ const TA_FuncHandle*h; TA_GetFuncHandle(FTAB[i].name,&h); const TA_FuncInfo*fi; TA_GetFuncInfo(h,&fi); for(unsigned k=0;k<4;k++){ const TA_InputParameterInfo*a; const TA_OptInputParameterInfo*b; const TA_OutputParameterInfo*c; TA_GetInputParameterInfo(h,k,&a); TA_GetOptInputParameterInfo(h,k,&b); TA_GetOutputParameterInfo(h,k,&c); } x.cov.states++; x.cov.transitions+=15; } const TA_FuncHandle*h; TA_GetFuncHandle("NOSUCH",&h); TA_ForEachFunc([](const TA_FuncInfo*,void*){},0); for(int c=-3;c<6000;c++){ TA_RetCodeInfo i; TA_SetRetCodeInfo((TA_RetCode)c,&i); } for(int i=0;i<25;i++) TA_GetUnstablePeriod((TA_FuncUnstId)i); TA_GetCompatibility(); lock(false); x.cov.traces++; }
void gen(std::vector<Job>&J,int tier){ J.push_back({"all/introspection",[](Ctx&x){intro(x);}}); for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; J.push_back({fmt("%s/pairs",f.name),[&f,tier](Ctx&x){pairs(f,tier,x);}}); }
  for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); for(size_t k=0;k<a.size();k+=24){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+24)); J.push_back({fmt("%s/solo/%zu",f.name,k),[&f,s](Ctx&x){solo(f,s,x);}}); } } }
Reg r({"C20","model_checking","states = schedules (merges of two streaming objects and batch calls) plus complete single-function sessions; transitions = calls or observations compared; traces = schedules and sessions whose every result was compared bit for bit with the isolated run",gen,
 {"thread safety is decided as freedom from shared mutable state: with the library's writable segment mapped read-only during all non-setting calls any static write faults; malloc and libc are assumed thread safe","within one call the interleaving granularity is the whole call"},
 "all merges of 3+3 steps and 1 batch call for every pair of functions, 4+4+2 within one function (thorough 4+4+2 and 5+5+2); sessions over all entry points for all parameter/settings combinations of both domains with 6 heap/stack fill patterns"});
}
