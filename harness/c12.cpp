// C12: each non-candlestick function returns the value of its definition, evaluated naively.
#include "ref.h"
#include "sym.h"
namespace {
struct E { const FD&f; const Cfg&c; Ctx&x; Data d; Out o; RO r,r2; bool noisy; double tol; int ill; bool both=true; int up=0;   // up: results are compared in units of 2^-up
  E(const FD&f,const Cfg&c,Ctx&x):f(f),c(c),x(x){ noisy=ref_noisy(f,c); tol=ref_tol(f,c); }
  // does the definition's value change when its intermediate results change in their last bits?
  bool shaky(int n,int s,int k,int i,double w){ for(int z=1;z<=12;z++){ ref_eval(f,c,d.p,n,s,r2,z<7?1e-15:2e-14,z); if(!near(ldexp(w,up),ldexp(r2.o[k][i],up),1e-9)) return true; } return false; }
  // values of the definition (in r) against outputs produced by an entry point
  template<class G> bool judge(const char*how,int s,int e,int wb,double tl,const Hist&h,G get){ int n=e+1;
    for(int k=0;k<f.nout;k++) for(int i=wb;i<=e;i++){ double w=r.o[k][i],g=get(k,i); x.cov.states++; x.cov.transitions++;
      if(w==SKIPV||i>=ill||(noisy&&!near(ldexp(w,up),ldexp(g,up),tl)&&shaky(n,s,k,i,w))){ x.note("ill_conditioned_values_not_judged"); continue; }
      if(!near(ldexp(w,up),ldexp(g,up),tl)&&!rounding_only(f,c,d,s,i,k,w,g)){ x.viol(fmt("%s:%s",f.name,!strcmp(how,"batch")?"value":how),winstr(f,c,s,e,how)+fmt(": output %d bar %d is %.17g, the definition gives %.17g on ",k,i,g,w)+histstr(f,h)); return false; } }
    return true; }
  bool win(int s,int e,const Hist&h){ int n=e+1; if(x.trace) x.step(winstr(f,c,s,e,"def")+" "+histstr(f,h)); o.prep(f,e-s+1); int b=-9,nb=-9; int rc=f.batch(s,e,d.p,c.o,&b,&nb,o.q); x.cov.traces++;
    ref_eval(f,c,d.p,n,s,r); int wb=r.b<=e?r.b:0,wn=r.b<=e?e-r.b+1:0;
    if(rc||b!=wb||nb!=wn){ x.viol(fmt("%s:window",f.name),winstr(f,c,s,e,"batch")+fmt(": rc=%d begIdx=%d nb=%d, by definition begIdx=%d nb=%d",rc,b,nb,wb,wn)); return false; }
    return !wn||judge("batch",s,e,wb,tol,h,[&](int k,int i){ return o.get(f,k,i-wb); }); }
  // the single-precision entry point and the bar-by-bar state from bar 0 (r holds the definition of that request)
  bool also(const Hist&h){ int n=d.n,wb=r.b<n?r.b:n; x.note("single_precision_and_bar_by_bar_histories");
    bool rep=true; for(int k=0;k<f.nin&&rep;k++) for(int i=0;i<n;i++) if((double)d.inf[k][i]!=d.p[k][i]){ rep=false; break; }
    if(rep){ o.prep(f,n); int b=-9,nb=-9; int rc=f.batchf(0,n-1,d.pf,c.o,&b,&nb,o.q); x.cov.traces++; if(rc||nb!=n-wb||(nb&&b!=wb)){ x.viol(fmt("%s:float-window",f.name),winstr(f,c,0,n-1,"float")+fmt(": rc=%d begIdx=%d nb=%d, by definition begIdx=%d nb=%d",rc,b,nb,wb,n-wb)); return false; }
      if(!judge("float",0,n-1,wb,std::max(tol,n>1000&&float_tol(f)>1e-6? 2e-2: float_tol(f)),h,[&](int k,int i){ return o.get(f,k,i-wb); })) return false; }
    if(is(f,"MAVP")||(is(f,"MACDEXT")&&c.compat)) return true; // recorded findings of C01
    void*st=0; if(f.sinit(&st,c.o)||!st){ x.viol(fmt("%s:state-init",f.name),cfgstr(f,c)+": StateInit fails"); return false; } o.prep(f,n); double v[6]; bool ok=true;
    for(int i=0;i<n&&ok;i++){ d.at(i,v); Out1 q(f); int rc=f.sstep(st,v,q.q); if(rc!=(i<wb?TA_NEED_MORE_DATA:TA_SUCCESS)){ x.viol(fmt("%s:state-rc",f.name),cfgstr(f,c)+fmt(": bar %d returns %d, the definition's first value is at bar %d on ",i,rc,wb)+histstr(f,h)); ok=false; } for(int k=0;k<f.nout;k++) if(f.out[k].isint) o.i[k][i]=q.i[k]; else o.d[k][i]=q.d[k]; }
    f.sfree(&st); x.cov.traces++; return ok&&judge("state",0,n-1,wb,tol,h,[&](int k,int i){ return o.get(f,k,i); }); }
  bool hist(const Hist&h,bool wins){ d.set(f,h,true); ill=illcond_from(f,c,d); int n=d.n; if(!win(0,n-1,h)||(both&&!also(h))) return false; if(wins) for(int s=1;s<n;s++) if(!win(s,n-1,h)||(s%3==0&&!win(s,(s+n)/2,h))) return false; return true; } };
void trees(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); E e(f,c,x); int lb=f.lookback(c.o); if(lb<0) continue; uint64_t budget=x.tier?400000:60000;
    int na=nalpha(f); bool md=!strncmp(f.group,"Math",4); for(int w=0;w<na+(md?0:2);w++){ auto A=alphabet(f,w<na?w:0); int sc= w<na?0: w==na? (is(f,"MFI")||sym::unitless_input(f)? -10: std::max(-24,sym::lowest(f))): 12; e.up= sc<0? -sc*sym::price2(f)/2: 0; if(sc) for(auto&b:A) for(int k=0;k<9;k++) if(k!=4&&k!=5&&k!=7) b.v[k]=ldexp(b.v[k],sc); int K,D; tree_shape(f,lb,budget,A.size(),2,K,D); if(!K){ x.note("combinations_too_long_for_trees"); continue; } A.resize(K); e.both=false; tree(A,D,[&](const Hist&h){ return e.hist(h,false); }); x.note("trees"); e.both=true; if(w<na){ int K2,D2; tree_shape(f,lb,budget/8,A.size(),2,K2,D2); if(K2){ auto B=A; B.resize(K2); tree(B,D2,[&](const Hist&h){ return e.hist(h,false); }); } } x.sample(cfgstr(f,c)+fmt(": every history of %d bars over %d shapes",D,K)); if(x.full()) return; } } }
void longs(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); E e(f,c,x); int lb=f.lookback(c.o); if(lb<0) continue; int n=lb+(x.tier?60:25);
    for(int b=0;b<nbase(f,c);b++){ Hist h=base_hist(f,c,b,n); if(!e.hist(h,n<(x.tier?200:80))) break; auto A=alphabet(f,b&1); if(n>60&&!x.tier) A.resize(2); if(n<(x.tier?400:120)) deviations(h,A,1,[&](const Hist&g){ return e.hist(g,false); }); if(x.full()) return; }
    for(int b=0;b<nbase(f,c);b++){ Hist h=base_hist(f,c,b,lb+420); if(!e.hist(h,false)||!e.win(lb+311,lb+419,h)||!e.win(301,lb+340,h)) break; x.note("late_windows"); } } }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); E e(f,c,x); int lb=f.lookback(c.o); if(lb<0||lb>450000) return; for(int w=0;w<3;w++){ Hist h=huge_hist(f,w,lb+4); e.d.set(f,h); e.ill=e.d.n; x.note("long_windows"); if(!e.win(lb,lb+3,Hist(h.begin(),h.begin()+4))||!e.win(lb+2,lb+3,Hist(h.begin(),h.begin()+4))) return; } }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); E e(f,c,x); if(f.lookback(c.o)<0) return; e.hist(run_hist(f,c,RUN),false); x.note("runs_beyond_65536_bars"); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; if(f.flags&F_CANDLE) continue;
    for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); 
    for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}});
    auto a=cfgs_small(f,tier),l=cfgs_long(f,tier); for(size_t k=0;k<a.size();k+=6){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+6)); J.push_back({fmt("%s/trees/%zu",f.name,k),[&f,s](Ctx&x){trees(f,s,x);}}); }
    for(size_t k=0;k<l.size();k+=4){ std::vector<Cfg> s(l.begin()+k,l.begin()+std::min(l.size(),k+4)); J.push_back({fmt("%s/long/%zu",f.name,k),[&f,s](Ctx&x){longs(f,s,x);}}); } } }
Reg r({"C12","model_checking","states = output values judged against the naive definition; transitions = comparisons; traces = batch calls",gen,
 {"definitions frozen in ref.h/ref.cpp: naive windows, plain recursions; conventions (seeds, zero denominators, ties) as documented in the pinned source","values whose definition amplifies the last bit of an intermediate (Hilbert-transform functions on degenerate data, flat RSI under STOCHRSI, near-constant regressors) are not judged"},
 "batch entry point in both precisions and the bar-by-bar state; every word over 2-6 bar alphabets (also in units 2^-24 and 2^12) reaching past the lookback for small parameters; 10 base histories and every single-bar deviation of them for the long parameters; all request windows of the base histories; all parameter/settings combinations of both domains; runs of 65776 bars"});
}
