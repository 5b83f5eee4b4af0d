// C13: each candlestick function reports exactly the bars where its definition holds.
#include "cdlhist.h"
namespace {
struct E { const FD&f; Cfg c; Ctx&x; CR r; CdlDef d; int lb; Data D; Out o; uint64_t hits=0; std::map<int,uint64_t> byres;
  E(const FD&f,const Cfg&c,Ctx&x):f(f),c(c),x(x){ candle_set(c.candle,r.s); r.pen=f.nopt?c.o[0]:0; d=cdl_def(f.name); lb=cdl_lookback(d,r.s); }
  std::string show(const Hist&h,int i){ int a=std::max(0,i-lb); Hist w(h.begin()+a,h.begin()+std::min((int)h.size(),i+1)); return histstr(f,w); }
  bool run(const Hist&h){ int n=h.size(); D.set(f,h,true); o.prep(f,n); int b=-1,nb=-1; r.o=D.p[0]; r.h=D.p[1]; r.l=D.p[2]; r.c=D.p[3];
    if(x.trace) x.step(cfgstr(f,c)+" "+(n<60?histstr(f,h):fmt("%d bars",n)));
    int rc=f.batch(0,n-1,D.p,c.o,&b,&nb,o.q); x.cov.traces++; int wnb=n>lb?n-lb:0;
    if(rc||b!=(wnb?lb:0)||nb!=wnb){ x.viol(fmt("%s:window",f.name),fmt("%s on %d bars: rc=%d begIdx=%d nb=%d, the averages and the pattern need %d bars of history",cfgstr(f,c).c_str(),n,rc,b,nb,lb)); return false; }
    const int*q=o.i[0].data(); W.resize(n);
    for(int i=lb;i<n;i++){ int w=W[i]=(r.*d.fn)(i); x.cov.states++; x.cov.transitions++; if(w){ hits++; byres[w]++; }
      if(q[i-lb]!=w){ x.viol(fmt("%s:value",f.name),fmt("%s reports %d, the definition gives %d on the last of the bars %s",cfgstr(f,c).c_str(),q[i-lb],w,show(h,i).c_str())); return false; } }
    return also(h,n); }
  // the single-precision entry point and the bar-by-bar state report the same occurrences
  std::vector<int> W;
  bool also(const Hist&h,int n){ bool rep=true; for(int k=0;k<4&&rep;k++) for(int i=0;i<n;i++) if((double)D.inf[k][i]!=D.p[k][i]){ rep=false; break; }
    if(rep){ o.prep(f,n); int b=-1,nb=-1; int rc=f.batchf(0,n-1,D.pf,c.o,&b,&nb,o.q); x.cov.traces++; if(rc||nb!=std::max(n-lb,0)||(nb&&b!=lb)){ x.viol(fmt("%s:float-window",f.name),fmt("%s single precision on %d bars: rc=%d begIdx=%d nb=%d, the pattern needs %d bars of history",cfgstr(f,c).c_str(),n,rc,b,nb,lb)); return false; }
      for(int i=lb;i<n;i++){ x.cov.transitions++; if(o.i[0][i-lb]!=W[i]){ x.viol(fmt("%s:float",f.name),fmt("%s single precision reports %d, the definition gives %d on the last of the bars %s",cfgstr(f,c).c_str(),o.i[0][i-lb],W[i],show(h,i).c_str())); return false; } } }
    void*st=0; if(f.sinit(&st,c.o)||!st){ x.viol(fmt("%s:state-init",f.name),cfgstr(f,c)+": StateInit fails"); return false; } bool ok=true; double v[6]; x.cov.traces++;
    for(int i=0;i<n&&ok;i++){ D.at(i,v); Out1 q(f); int rc=f.sstep(st,v,q.q); x.cov.transitions++; if(rc!=(i<lb?TA_NEED_MORE_DATA:TA_SUCCESS)||(i>=lb&&q.i[0]!=W[i])){ x.viol(fmt("%s:state",f.name),fmt("%s bar by bar: rc=%d value %d at bar %d, the definition gives %d from bar %d on; the bars end %s",cfgstr(f,c).c_str(),rc,q.i[0],i,i<lb?0:W[i],lb,show(h,i).c_str())); ok=false; } }
    f.sfree(&st); return ok; }
  // the same bars asked for from the middle of a long history on, with an unclean stack
  bool late(const Hist&h){ if(!run(h)) return false; int n=h.size(); for(int s:{n/3,n/2+7,n-400}) if(s>lb&&s>300) for(int fl=0;fl<2;fl++){ if(fl) for(int k=0;k<4;k++) for(int i=s-lb;i<n;i++) if((double)D.inf[k][i]!=D.p[k][i]) return true;
      o.prep(f,n-s); int b=-1,nb=-1; dirt(); int rc=fl?f.batchf(s,n-1,D.pf,c.o,&b,&nb,o.q):f.batch(s,n-1,D.p,c.o,&b,&nb,o.q); x.cov.traces++; if(rc||b!=s||nb!=n-s){ x.viol(fmt("%s:late-window",f.name),fmt("%s on bars %d.. of %d: rc=%d begIdx=%d nb=%d",cfgstr(f,c).c_str(),s,n,rc,b,nb)); return false; }
      if(f.name[6]=='K'&&!strncmp(f.name,"CDLHIKKAKE",10)) continue;   // a confirmation may belong to a pattern before the window
      for(int i=s;i<n;i++){ x.cov.transitions++; if(o.i[0][i-s]!=W[i]){ x.viol(fmt("%s:late",f.name),fmt("%s asked for bars %d..%d%s reports %d, the definition gives %d on the last of the bars %s",cfgstr(f,c).c_str(),s,n-1,fl?" in single precision":"",o.i[0][i-s],W[i],show(h,i).c_str())); return false; } } }
    return true; }
  static __attribute__((noinline)) void dirt(){ volatile char b[16000]; for(size_t i=0;i<sizeof b;i++) b[i]=0x40; }
  void done(){ x.note("pattern_occurrences",hits); }
};
void windows(const FD&f,const Cfg&c,Ctx&x){ apply(c); E e(f,c,x); int w=e.d.bars+1; if(is(f,"CDLHIKKAKE")) w=5; if(is(f,"CDLHIKKAKEMOD")) w=5;
  size_t ml= c.candle==3? (x.tier?8000000:900000): (x.tier?1000000:80000); if(c.candle==3&&w==1) w=2;
  // with one- to four-bar averages every window of pattern plus averages is still enumerable over a smaller alphabet
  int K; Hist h=debruijn(cdl_alphabet(490),w,ml,&K); bool ok=e.run(h); x.sample(cfgstr(f,c)+fmt(" every window of %d bars over %d bar shapes in one history of %zu bars",w,K,h.size()));
  if(ok&&e.lb+1>w&&e.lb<=8){ Hist g=debruijn(cdl_alphabet(490),std::min(e.lb+1,8),ml,&K); ok=e.run(g); }
  if(ok&&(is(f,"CDLHIKKAKE")||is(f,"CDLHIKKAKEMOD"))){ // runs of inside bars, breakouts and confirmations
    std::vector<Bar> A; double q[][4]={{20,24,16,22},{20,22,18,21},{20,21,19,20.5},{20,20.5,17,18},{20,23,19.5,23},{20,21.5,18.5,18.75},{20,25,15,24.5},{20,26,14,14.5}}; for(auto&z:q) A.push_back(mkbar(z[0],z[1],z[2],z[3]));
    for(int K=A.size();K>=3;K--){ std::vector<Bar> B(A.begin(),A.begin()+K); int ww=2; while(pow(K,ww+1)<=(double)ml*2&&ww<9) ww++; ok=ok&&e.run(debruijn(B,ww,ml*2)); } }
  e.done(); }
void seeds(const FD&f,const Cfg&c,Ctx&x){ apply(c); E e(f,c,x); auto S=cdl_seeds(f,c.candle); if(S.empty()){ x.note("combinations_without_seed"); return; }
  for(auto&s:S){ Hist h=s.h; int n=h.size(); e.hits=0; e.run(h); if(c.o[0]==f.opt[0].df||!f.nopt){ int got=0; for(auto&b:e.byres) got|=b.first==s.res; if(!got) x.viol(fmt("%s:seed",f.name),cfgstr(f,c)+" committed seed does not show its pattern: "+histstr(f,h)); }
    // the pattern again, twice, so that the running averages have moved
    Hist rep; for(int k=0;k<3;k++) rep.insert(rep.end(),h.begin(),h.end()); e.run(rep); Hist pre=debruijn(cdl_alphabet(17),2,300); pre.insert(pre.end(),h.begin(),h.end()); pre.insert(pre.end(),h.begin(),h.end()); e.run(pre);
    if(x.full()) return;
    Hist chain; uint64_t k=0,chains=0; // deviations one after the other in histories of some 3000 bars
    int cut=cdl_enumerate(h,e.r,e.d,x.tier?490:60,x.tier?4000000:400000,x.tier?3:0,[&](const Hist&g){ if(k<2000||k%8==0){ chain.insert(chain.end(),g.begin(),g.end()); if(chain.size()>3000){ if(!e.late(chain)) return false; chain.clear(); chains++; } } k++; return e.run(g); }); if(cut<0) return; if(chain.size()>20&&!e.late(chain)) return; x.note("chained_deviation_histories",chains+1);
    x.note(cut?"pair_enumerations_cut":"pair_enumerations_complete");
    x.note("seeds"); }
  e.done(); }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); E e(f,c,x); e.run(run_hist(f,c,RUN)); Hist h=debruijn(cdl_alphabet(17),3,8000); e.run(h); x.note("long_average_histories"); e.done(); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; if(!(f.flags&F_CANDLE)) continue;
    for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run/%d",f.name,c.candle),[&f,c](Ctx&x){run(f,c,x);}});
    for(int s=0;s<11;s++){ Cfg c; memset(&c,0,sizeof c); for(int k=0;k<f.nopt;k++) c.o[k]=f.opt[k].df; c.candle=NCANDLE+s; J.push_back({fmt("%s/windows/%d",f.name,c.candle),[&f,c](Ctx&x){windows(f,c,x);}}); }
    
    for(auto&c:cfgs_small(f,tier)) for(int fam=0;fam<2;fam++) J.push_back({fmt("%s/%s/%d%s",f.name,fam?"seeds":"windows",c.candle,f.nopt?fmt("/%g",c.o[0]).c_str():""),[&f,c,fam](Ctx&x){ if(fam) seeds(f,c,x); else windows(f,c,x); }}); } }
Reg r({"C13","model_checking","states = bars judged against the definition; transitions = reported values compared; traces = batch calls",gen,
 {"both batch entry points and the bar-by-bar state are judged","the frozen definitions in cdlref.inc were transcribed from the documented conditions of the pinned source and reviewed against the comments above each","prices are dyadic, so running and naive sums are both exact and the comparison is exact"},
 "61 patterns x 20 candle-setting sets x penetrations: every window of pattern width over up to 490 bar shapes (de Bruijn histories), every single-bar deviation and the pairwise level changes (exact ties included) of up to 8 committed occurrences per pattern and setting set, alone and chained to histories of 3000 bars asked for as a whole and from a late start"});
}
