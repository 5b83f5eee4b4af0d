// C24: a streaming object's memory and its saved record are fixed when it is created; no history makes them grow.
#include "life.h"
namespace {
struct S { const FD&f; const Cfg&c; Ctx&x; long live0,bytes0; S(const FD&f,const Cfg&c,Ctx&x):f(f),c(c),x(x){}
  bool bad(const char*k,const std::string&s){ x.viol(fmt("%s:%s",f.name,k),s); return false; }
  template<class W>bool mem(const char*k,long l,long b,W&&wf){ x.cov.transitions++; if(g_live-live0==l&&g_bytes-bytes0==b) return true; std::string w=wf(); if(g_live-live0!=l||g_bytes-bytes0!=b) return bad(k,w+fmt(": the object holds %ld blocks, %ld bytes; %ld blocks, %ld bytes when created",g_live-live0,g_bytes-bytes0,l,b)); return true; }
  long ll=0,lbytes=0;                 // what an object loaded from the record holds, -1 when loading failed
  long record(void*st){ MemFile m; int r=f.ssave(st,m.f); m.done(); if(r) return -1-r; FILE*g=fmemopen(m.buf,m.len,"r"); void*s2=0; long L=g_live,B=g_bytes; int q=f.sload(&s2,g); fclose(g); ll=q?-1:g_live-L; lbytes=g_bytes-B; x.cov.transitions++; if(s2) f.sfree(&s2); return m.len; }
  // one history: steps, one batch-feed, one temporary batch call in between, records at the bars of R
  bool one(const Hist&h,const std::set<int>&R,int bat,int batn){ Data d; d.set(f,h); live0=g_live; bytes0=g_bytes; void*st=0; if(f.sinit(&st,c.o)!=TA_SUCCESS) return bad("init",cfgstr(f,c)+" StateInit failed"); long l=g_live-live0,b=g_bytes-bytes0; long rec=-9; bool ok=true; double v[6]; std::string id=cfgstr(f,c)+" "; if(x.trace) x.step(id+histstr(f,h));
    for(int i=0;i<d.n&&ok;){ if(R.count(i)){ long n=record(st); if(n<0) ok=bad("save",id+fmt("saving before bar %d fails",i)); else if(rec==-9) rec=n; else if(n!=rec) ok=bad("record",id+fmt("the record saved before bar %d has %ld bytes, the first one %ld",i,n,rec)); if(ok&&(ll!=l||labs(lbytes-b)>32*l)) ok=bad("load-memory",id+fmt("an object loaded from the record saved before bar %d holds %ld blocks, %ld bytes; the saved one %ld, %ld",i,ll,lbytes,l,b)); ok=ok&&mem("save-memory",l,b,[&]{return id+fmt("after saving before bar %d",i);}); if(!ok) break; }
      if(i==bat&&batn>0){ int n=std::min(batn,d.n-i); Out o; o.prep(f,n); int bi,nb; f.sbatch(st,i,i+n-1,d.p,&bi,&nb,o.q); ok=mem("batch-memory",l,b,[&]{return id+fmt("after batch-feeding bars %d..%d",i,i+n-1)+" of "+histstr(f,h);}); i+=n; }
      else { d.at(i,v); Out1 q(f); f.sstep(st,v,q.q); x.cov.states++; ok=mem("step-memory",l,b,[&]{return id+fmt("after bar %d",i)+" of "+histstr(f,h);}); i++; } }
    f.sfree(&st); if(ok&&(g_live!=live0||g_bytes!=bytes0)) ok=bad("leak",id+fmt("%ld blocks left after StateFree",g_live-live0)); x.cov.traces++; return ok; }
  // batch calls keep nothing
  bool batch(const Hist&h){ Data d; d.set(f,h,true); live0=g_live; bytes0=g_bytes; int lb=f.lookback(c.o),n=d.n; const int W[][2]={{0,n-1},{n/2,n-1},{n-1,n-1},{lb,lb},{lb,lb+1},{0,lb-1}}; for(auto&w:W) for(int flt=0;flt<2;flt++){ int s=w[0],e=w[1]; if(s<0||e<s||e>=n) continue; Out o; o.prep(f,n); int b,m; if(flt) f.batchf(s,e,d.pf,c.o,&b,&m,o.q); else f.batch(s,e,d.p,c.o,&b,&m,o.q); if(!mem("call-memory",0,0,[&]{return cfgstr(f,c)+fmt(" after a %s batch call on %d..%d of ",flt?"float":"double",s,e)+histstr(f,h);})) return false; } return true; } };
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; } S s(f,c,x); int n=2*lb+(x.tier?90:50); std::set<int> R={0,1,lb/2,lb-1,lb,lb+1,lb+2,n-1}; if(n<(x.tier?400:90)) for(int i=0;i<n;i++) R.insert(i);
    for(int w=0;w<nbase(f,c);w++){ Hist h=base_hist(f,c,w,n); if(!s.one(h,R,lb/2,3)||!s.one(h,{0,n-1},lb+2,lb+7)||!s.batch(h)) break; if(w==4) x.sample(cfgstr(f,c)+fmt(": memory after each of %d bars",n)); }
    uint64_t budget=x.tier?20000:1500; for(int w=0;w<nalpha(f);w++){ auto A=alphabet(f,w); int K,D; tree_shape(f,lb,budget,A.size(),2,K,D); if(!K) continue; A.resize(K); bool ok=true; tree(A,D,[&](const Hist&h){ return ok=s.one(h,{0,D-1},-1,0)&&s.batch(h); }); x.note("trees"); if(!ok) break; } } }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); if(f.lookback(c.o)<0) return; S s(f,c,x); s.one(run_hist(f,c,RUN),{0,65535,65537,RUN-1},1000,40000); x.note("runs_beyond_65536_bars"); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}});
    std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); for(size_t k=0;k<a.size();k+=12){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+12)); J.push_back({fmt("%s/memory/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C24","model_checking","states = bars fed; transitions = observations of the allocation balance (blocks and bytes) after a step, a batch-feed, a save, a load or a batch call; traces = histories run from creation to release",gen,
 {"memory is observed at the library's malloc family; memory used inside a call and returned before it ends is allowed"},
 "all parameter/settings combinations of both domains x base histories of 2*lookback+50 bars, all words over 2-6 bar alphabets reaching past the lookback within the budget, runs of more than 65536 bars; records at every bar of histories below 90 bars; batch calls on 6 windows (whole, half, one and two bars, none)"});
}
