// C01: bar-by-bar streaming == batch, for every history explored.
#include "cdlhist.h"
namespace {
// recorded finding: a delayed DEMA/TEMA leg of MACDEXT under Metastock seeding has no streaming equivalent
std::string cls(const FD&f,const Cfg&c,const Hist&h,int bar){
  // recorded finding: the MAVP state always averages over the largest period
  if(is(f,"MAVP")){ int p=(int)h[bar].v[7]; if(p<c.o[0]) p=(int)c.o[0]; if(p<c.o[1]) return ":variable-period"; } if(is(f,"MACDEXT")&&c.compat&&(c.o[1]==3||c.o[1]==4||c.o[3]==3||c.o[3]==4)) return ":metastock-dema-tema"; return ""; }
struct Run { const FD&f; const Cfg&c; Ctx&x; Data d; Out o; int lb; uint64_t hist=0; bool sampled=false;
  Run(const FD&f,const Cfg&c,Ctx&x):f(f),c(c),x(x){ lb=f.lookback(c.o); }
  bool one(const Hist&h){
    int n=h.size(); d.set(f,h); o.prep(f,n); int b=-1,nb=-1;
    if(x.trace) x.step(cfgstr(f,c)+" "+histstr(f,h));
    TA_RetCode r=f.batch(0,n-1,d.p,c.o,&b,&nb,o.q);
    if(r!=TA_SUCCESS){ x.viol(fmt("%s:batch-rc",f.name),fmt("%s batch returned %d on %s",cfgstr(f,c).c_str(),r,histstr(f,h).c_str())); return false; }
    void*st=0; r=f.sinit(&st,c.o);
    if(r!=TA_SUCCESS||!st){ x.viol(fmt("%s:init-rc",f.name),fmt("%s StateInit returned %d state=%p",cfgstr(f,c).c_str(),r,st)); return false; }
    bool ok=true; double v[6]; int ill=illcond_from(f,c,d); if(ill<n) x.note("ill_conditioned_tails");
    for(int i=0;i<n&&ok;i++){ d.at(i,v); Out1 q(f); r=f.sstep(st,v,q.q); x.cov.transitions++;
      bool need= nb<=0 || i<b; 
      if(need){ if(r!=TA_NEED_MORE_DATA){ x.viol(fmt("%s:rc",f.name),fmt("%s bar %d: state returned %d, batch has no output there (begIdx=%d nb=%d) on %s",cfgstr(f,c).c_str(),i,r,b,nb,histstr(f,h).c_str())); ok=false; } }
      else { if(r!=TA_SUCCESS){ x.viol(fmt("%s:rc",f.name),fmt("%s bar %d: state returned %d, batch has output (begIdx=%d) on %s",cfgstr(f,c).c_str(),i,r,b,histstr(f,h).c_str())); ok=false; }
        else if(i<ill) for(int k=0;k<f.nout&&ok;k++){ double a=o.get(f,k,i-b),s=q.get(k); if(!near(a,s)&&!rounding_only(f,c,d,0,i,k,a,s)){ x.viol(fmt("%s:value",f.name)+cls(f,c,h,i),fmt("%s bar %d output %d (%s): batch %.17g, state %.17g on %s",cfgstr(f,c).c_str(),i,k,f.out[k].name,a,s,histstr(f,h).c_str())); ok=false; } } } }
    f.sfree(&st); x.cov.traces++; x.cov.states+=n; hist++;
    if(hist==2&&!sampled){ sampled=true; x.sample(cfgstr(f,c)+" "+histstr(f,h)); }
    return ok; }
};
void job(const FD&f,const std::vector<Cfg>&cs,int family,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); Run r(f,c,x); if(r.lb<0){ x.cov.skipped++; continue; }
    if(family==0){ uint64_t budget=x.tier?300000:12000;
      for(int w=0;w<nalpha(f);w++){ auto A=alphabet(f,w); int K,D; tree_shape(f,r.lb,w?budget/4:budget,A.size(),3,K,D); if(!K){ x.note("tree_too_deep"); continue; } A.resize(K); tree(A,D,[&](const Hist&h){return r.one(h);}); x.note("trees"); if(x.full()) return; 
        if(K>2&&!w){ int K2,D2; tree_shape(f,r.lb,budget,2,3,K2,D2); if(D2>D){ A.resize(2); tree(A,D2,[&](const Hist&h){return r.one(h);});} } }
    } else { int n=r.lb+(x.tier?60:26); auto A=alphabet(f,0); if((int)A.size()>4) A.resize(4);
      for(int w=0;w<nbase(f,c);w++){ Hist b=base_hist(f,c,w,n); if(n<500){ std::vector<Bar> A2(A.begin(),A.begin()+(n>120?1:2)); deviations(b,A2,1,[&](const Hist&h){return r.one(h);}); } else r.one(b); Hist lg=base_hist(f,c,w,r.lb+300); r.one(lg); x.note("base_histories"); if(x.full()) return; }
      if(f.flags&F_CANDLE){ CdlDef d=cdl_def(f.name); Hist g; for(int k=0;k<3;k++){ Hist t=debruijn(cdl_alphabet(490),k==0?std::min(d.bars+1,5):k==1?2:3,x.tier?400000:12000); g.insert(g.end(),t.begin(),t.end()); for(auto&s:cdl_seeds(f,c.candle)) g.insert(g.end(),s.h.begin(),s.h.end()); } r.one(g); x.note("long_candle_histories"); } }
  }
}
// every deviation of the committed pattern occurrences, streamed
void cdl(const FD&f,const Cfg&c,Ctx&x){ apply(c); Run r(f,c,x); if(r.lb<0) return; CR cr; candle_set(c.candle,cr.s); cr.pen=f.nopt?c.o[0]:0; CdlDef d=cdl_def(f.name);
  for(auto&s:cdl_seeds(f,c.candle)){ if(cdl_enumerate(s.h,cr,d,x.tier?200:20,x.tier?2000000:60000,0,[&](const Hist&g){ return r.one(g); })<0) return; x.note("seeds"); } }
// one very long parameter at a time: the batch computes only the last bars, the state sees them all
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0||lb>450000) return;
  for(int w=0;w<(x.tier||lb<5000?3:1);w++){ int n=lb+4; Hist h=huge_hist(f,w,n); Data d; d.set(f,h); Out o; o.prep(f,n); int b=-1,nb=-1; if(f.batch(0,n-1,d.p,c.o,&b,&nb,o.q)!=TA_SUCCESS){ x.viol(fmt("%s:batch-rc",f.name),cfgstr(f,c)+": batch fails on a long history"); return; }
    void*st=0; if(f.sinit(&st,c.o)!=TA_SUCCESS){ x.viol(fmt("%s:init-rc",f.name),cfgstr(f,c)+": StateInit fails"); return; } double v[6]; bool ok=true;
    if(is(f,"STOCHRSI")||(is(f,"MAVP"))){ f.sfree(&st); return; }
    for(int i=0;i<n&&ok;i++){ d.at(i,v); Out1 q(f); int r=f.sstep(st,v,q.q); x.cov.transitions++; bool need=i<b; if(need!=(r==TA_NEED_MORE_DATA)||(!need&&r)){ x.viol(fmt("%s:rc",f.name),cfgstr(f,c)+fmt(" bar %d of a %d-bar history: state returned %d, batch output begins at %d",i,n,r,b)); ok=false; }
      else if(!need) for(int k=0;k<f.nout&&ok;k++) if(!near(o.get(f,k,i-b),q.get(k),1e-6)&&!rounding_only(f,c,d,0,i,k,o.get(f,k,i-b),q.get(k))){ x.viol(fmt("%s:value",f.name),cfgstr(f,c)+fmt(" bar %d of a %d-bar history, output %d: batch %.17g, state %.17g",i,n,k,o.get(f,k,i-b),q.get(k))); ok=false; } }
    f.sfree(&st); x.cov.states+=n; x.cov.traces++; x.note("long_parameter_histories"); if(!ok) return; } }
// more than 65536 bars through one object
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); Run r(f,c,x); if(r.lb<0) return; r.one(run_hist(f,c,RUN)); x.note("runs_beyond_65536_bars"); }
void gen(std::vector<Job>&J,int tier){
  for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; if(f.flags&F_CANDLE) for(int cs=0;cs<NCANDLE;cs++){ Cfg c; memset(&c,0,sizeof c); for(int k=0;k<f.nopt;k++) c.o[k]=f.opt[k].df; c.candle=cs; J.push_back({fmt("%s/seeds/%d",f.name,cs),[&f,c](Ctx&x){cdl(f,c,x);}}); } }

  for(int i=0;i<NF;i++){ const FD&f=FTAB[i];
    for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); 
    for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}});
    auto a=cfgs_small(f,tier); for(size_t k=0;k<a.size();k+=4){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+4)); J.push_back({fmt("%s/tree/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,0,x);}}); }
    auto b=cfgs_long(f,tier); for(size_t k=0;k<b.size();k+=4){ std::vector<Cfg> s(b.begin()+k,b.begin()+std::min(b.size(),k+4)); J.push_back({fmt("%s/dev/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,1,x);}}); } } }
Reg r({"C01","model_checking","states = bars streamed; transitions = State calls compared (return code and every output) with the batch value of the same bar; traces = histories run through both",gen,
 {"equality up to 1e-8 relative (running sums round differently)","STOCHRSI is compared up to the first window whose RSI is constant up to rounding"},
 "per parameter/settings combination (8 candle sets, unstable periods 0..3/7/30, both compatibility modes): all words over 2-6 bar alphabets up to the depth the budget allows beyond the lookback; all single-bar deviations of 7 base histories of lookback+26 bars; 300-bar base histories; runs of 65776 bars; one history of lookback+4 bars for each integer parameter at 2000 and 70000"});
}
