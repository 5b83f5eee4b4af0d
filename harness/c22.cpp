// C22: ranges, order relations and finiteness on every explored history.
#include "cdlhist.h"
#include "life.h"
namespace {
bool convex(int t){ return t==0||t==1||t==2||t==5||t==6||t==7||t==9; }   // SMA EMA WMA TRIMA KAMA MAMA WLMA never overshoot
bool uses_mama(const FD&f,const Cfg&c){ if(is(f,"MAMA")) return true; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2&&c.o[i]==7) return true; return false; } // MAMA starts from zero
enum { NONE, FIX, WIN, NONNEG, BAR, IDX };
struct Rule { int kind; double lo,hi; };
bool any(const FD&f,const char*const*l){ for(;*l;l++) if(is(f,*l)) return true; return false; }
Rule rule(const FD&f,const Cfg&c,int k){
  static const char*P100[]={"RSI","MFI","IMI","ULTOSC","ADX","ADXR","DX","PLUS_DI","MINUS_DI","AROON",0},*PM100[]={"CMO","AROONOSC",0},*ONE[]={"BOP","CORREL","HT_SINE","SIN","COS","TANH",0},*NN[]={"TRANGE","ATR","NATR","PLUS_DM","MINUS_DM","AVGDEV","SQRT","EXP",0},*AVG[]={"SMA","EMA","WMA","TRIMA","KAMA","WLMA","MIDPOINT","MIN","MAX","MINMAX","HT_TRENDLINE","MIDPRICE",0},*BARP[]={"MEDPRICE","TYPPRICE","WCLPRICE","AVGPRICE",0},*IX[]={"MAXINDEX","MININDEX","MINMAXINDEX",0};
  if(f.flags&F_CANDLE){ double m=(is(f,"CDLHIKKAKE")||is(f,"CDLHIKKAKEMOD"))?200:100; return {FIX,-m,m}; }
  if(any(f,P100)) return {FIX,0,100}; if(any(f,PM100)) return {FIX,-100,100}; if(any(f,ONE)) return {FIX,-1,1}; if(any(f,NN)) return {NONNEG}; if(any(f,AVG)||is(f,"MAMA")) return {WIN}; if(any(f,BARP)) return {BAR}; if(any(f,IX)) return {IDX};
  if(is(f,"WILLR")) return {FIX,-100,0}; if(is(f,"HT_DCPERIOD")) return {FIX,0,50}; if(is(f,"HT_DCPHASE")) return {FIX,-45,315}; if(is(f,"HT_TRENDMODE")) return {FIX,0,1}; if(is(f,"LINEARREG_ANGLE")) return {FIX,-90,90};
  if(is(f,"STOCH")&&convex((int)c.o[2])&&(k==0||convex((int)c.o[4]))) return {FIX,0,100}; if(is(f,"STOCHF")&&(k==0||convex((int)c.o[2]))) return {FIX,0,100}; if(is(f,"STOCHRSI")&&(k==0||convex((int)c.o[3]))) return {FIX,0,100};
  if(is(f,"MA")&&convex((int)c.o[1])) return {WIN}; if(is(f,"MAVP")&&convex((int)c.o[2])) return {WIN}; if(is(f,"BBANDS")&&k==1&&convex((int)c.o[3])) return {WIN}; if(is(f,"T3")&&c.o[1]==0) return {WIN};
  if(is(f,"STDDEV")||is(f,"VAR")) return c.o[1]>=0?Rule{NONNEG}:Rule{NONE}; if(is(f,"SAR")&&c.o[0]<=1&&c.o[1]<=1) return {WIN};
  if(is(f,"ACOS")) return {FIX,0,M_PI}; if(is(f,"ASIN")||is(f,"ATAN")) return {FIX,-M_PI/2,M_PI/2}; if(is(f,"COSH")) return {FIX,1,1e300}; if(is(f,"ACCBANDS")&&k==1) return {WIN};
  return {NONE}; }
struct R { const FD&f; const Cfg&c; Ctx&x; int lb; Data d; Out o; Rule ru[3];
  R(const FD&f,const Cfg&c,Ctx&x):f(f),c(c),x(x){ lb=f.lookback(c.o); for(int k=0;k<f.nout;k++) ru[k]=rule(f,c,k); }
  bool bad(const char*key,const Hist&h,int i,int k,double v,const std::string&w){ x.viol(fmt("%s:%s%s",f.name,key,mode==1?"-float":mode==2?"-state":""),cfgstr(f,c)+fmt(" bar %d output %s = %.17g: %s on ",i,f.out[k].name,v,w.c_str())+histstr(f,h)); return false; }
  int mode=0; // entry point: batch in double and in single precision, bar-by-bar state
  bool one(const Hist&h){ for(mode=0;mode<3;mode++) if(!three(h)){ mode=0; return false; } mode=0; return true; }
  bool three(const Hist&h){ int n=h.size(); if(!mode) d.set(f,h,true); o.prep(f,n); int b=0,m=0; if(x.trace) x.step(cfgstr(f,c)+fmt(" entry point %d ",mode)+histstr(f,h)); x.cov.traces++;
    if(mode==0){ if(f.batch(0,n-1,d.p,c.o,&b,&m,o.q)) return true; }
    else if(mode==1){ for(int k=0;k<f.nin;k++) for(int i=0;i<n;i++) if((double)d.inf[k][i]!=d.p[k][i]) return true; if(f.batchf(0,n-1,d.pf,c.o,&b,&m,o.q)) return true; }
    else { if(is(f,"MAVP")) return true; void*st=0; if(f.sinit(&st,c.o)||!st) return true; b=n; double v[6]; for(int i=0;i<n;i++){ d.at(i,v); Out1 q(f); if(f.sstep(st,v,q.q)) continue; b=std::min(b,i); for(int k=0;k<f.nout;k++) if(f.out[k].isint) o.i[k][m]=q.i[k]; else o.d[k][m]=q.d[k]; m++; } f.sfree(&st); if(b+m!=n) return true; }
    double lo=1e300,hi=-1e300; if(uses_mama(f,c)) lo=hi=0; bool pos=true; std::vector<double> lw(n),hw(n); for(int i=0;i<n;i++){ for(int k=0;k<f.nin;k++) if(f.ik[k]!=7&&f.ik[k]!=4&&f.ik[k]!=5){ lo=std::min(lo,d.p[k][i]); hi=std::max(hi,d.p[k][i]); if(d.p[k][i]<=0) pos=false; } lw[i]=lo; hw[i]=hi; }
    double sc=std::max(1.0,std::max(fabs(lo),fabs(hi))), t=1e-9*sc, volsum=0;
    for(int j=0;j<m;j++){ int i=b+j; x.cov.states++; for(int k=0;k<f.nout;k++){ double v=o.get(f,k,j); x.cov.transitions++;
        if(!std::isfinite(v)){ bool undef=is(f,"DIV")&&d.p[1][i]==0; if(is(f,"PVT")||is(f,"NVI")||is(f,"PVI")) for(int q=0;q<i;q++) undef|=d.p[0][q]==0; if(!undef) return bad("finite",h,i,k,v,"not finite"); continue; }
        const Rule&r=ru[k]; if(is(f,"CORREL")){ bool cst=false; for(int q=0;q<2;q++){ double a=1e300,z=-1e300; for(int w=i-lb;w<=i;w++) a=std::min(a,d.p[q][w]),z=std::max(z,d.p[q][w]); if(z-a<=1e-3*std::max(fabs(a),fabs(z))) cst=true; } if(cst) continue; } switch(r.kind){ case FIX: if(v<r.lo-1e-7||v>r.hi+1e-7) return bad("range",h,i,k,v,fmt("outside %g..%g",r.lo,r.hi)); break;
          case WIN: if(v<lw[i]-t||v>hw[i]+t) return bad("range",h,i,k,v,fmt("outside the input's range %g..%g",lw[i],hw[i])); break;
          case NONNEG: if(v<-t*sc) return bad("range",h,i,k,v,"negative"); break;
          case BAR: { double l=1e300,u=-1e300; for(int q=0;q<f.nin;q++){ l=std::min(l,d.p[q][i]); u=std::max(u,d.p[q][i]); } if(v<l-t||v>u+t) return bad("range",h,i,k,v,"outside the bar"); break; }
          case IDX: if(v<i-lb||v>i||v<0) return bad("index",h,i,k,v,"points outside the window"); break; }
        if((f.flags&F_CANDLE)&&fmod(v,100)!=0&&!(fabs(v)==80&&(is(f,"CDLENGULFING")||is(f,"CDLHARAMI")||is(f,"CDLHARAMICROSS")))) return bad("range",h,i,k,v,"not a multiple of 100"); if(is(f,"HT_TRENDMODE")&&v!=0&&v!=1) return bad("range",h,i,k,v,"neither 0 nor 1"); }
      auto g=[&](int k){ return o.get(f,k,j); };
      if(is(f,"MINMAX")&&g(0)>g(1)) return bad("order",h,i,0,g(0),"minimum above maximum");
      if((is(f,"BBANDS")&&c.o[1]>=0&&c.o[2]>=0)||(is(f,"ACCBANDS")&&pos)) if(g(0)<g(1)-t||g(1)<g(2)-t) return bad("order",h,i,1,g(1),fmt("bands out of order: %.17g %.17g %.17g",g(0),g(1),g(2)));
      if(pos){ if(is(f,"ROC")&&g(0)<-100-1e-9) return bad("range",h,i,0,g(0),"below -100"); if(is(f,"ROCP")&&g(0)<-1-1e-9) return bad("range",h,i,0,g(0),"below -1"); if((is(f,"ROCR")||is(f,"ROCR100"))&&g(0)<0) return bad("range",h,i,0,g(0),"negative"); }
      if(is(f,"OBV")||is(f,"AD")){ volsum=0; for(int q=0;q<=i;q++) volsum+=fabs(d.p[f.nin-1][q]); if(fabs(g(0))>volsum*(1+1e-9)) return bad("range",h,i,0,g(0),fmt("larger than the whole volume %g",volsum)); }
      if(is(f,"SAREXT")&&c.o[0]==0&&c.o[1]==0&&pos) if(fabs(g(0))<lw[i]-t||fabs(g(0))>hw[i]+t) return bad("range",h,i,0,g(0),"outside the price range"); }
    return true; } };
Bar mk(double o,double h,double l,double c,double v,double r,double r2){ Bar b; double a[9]={o,h,l,c,v,v/2,r,3,r2}; memcpy(b.v,a,sizeof a); return b; }
// decimal prices, very large and very small ones, zero prices
std::vector<Bar> ext(int w){ std::vector<Bar> a; if(w==0){ a={mk(10.1,10.7,9.3,10.4,1000.3,10.4,0.1),mk(10.4,11.9,10.4,11.3,20000.7,11.3,0.7),mk(11.3,11.3,7.7,7.9,333.1,7.9,-0.3),mk(7.9,7.9,7.9,7.9,0,7.9,0.3),mk(8.1,8.3,8.1,8.2,7.7,8.2,1.1)}; }
  else if(w==1){ for(double s:{1e6,3e6}){ a.push_back(mk(s,s*1.25,s*0.5,s*1.1,1e9*s,s*1.1,s)); a.push_back(mk(s,s,s,s,0,s,s/3)); } a.push_back(mk(1.5e6,2e6,1.5e6,1.75e6,3e8,1.75e6,2e6)); }
  else if(w==2){ for(double s:{1e-4,3e-4}){ a.push_back(mk(s,s*1.25,s*0.5,s*1.1,1e-3,s*1.1,s)); a.push_back(mk(s,s,s,s,0,s,s/3)); } a.push_back(mk(1.5e-4,2e-4,1.5e-4,1.75e-4,1,1.75e-4,2e-4)); }
  else { a={mk(0,0,0,0,0,0,0),mk(0,1,0,0.5,10,0.5,1),mk(1,1,0,0,5,0,-1),mk(0.5,0.5,0.5,0.5,0,0.5,0),mk(1,2,0,2,7,-1,2)}; } return a; }
void job(const FD&f,const std::vector<Cfg>&cs,int fam,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); R r(f,c,x); if(r.lb<0) continue; bool md=!strcmp(f.group,"Math Transform");
    if(fam==0){ uint64_t budget=x.tier?400000:20000; for(int w=0;w<nalpha(f)+(md?0:4);w++){ auto A= w<nalpha(f)?alphabet(f,w):ext(w-nalpha(f)); int K,D; tree_shape(f,r.lb,budget/2,A.size(),2,K,D); if(!K){ for(int k=2;k<=4;k++){ Hist h(r.lb+2,A[0]),g=debruijn(A,k,x.tier?20000:2000); h.insert(h.end(),g.begin(),g.end()); if(!r.one(h)) break; x.note("debruijn_words"); } continue; } A.resize(K); tree(A,D,[&](const Hist&h){return r.one(h);}); x.note("trees"); if(x.full()) return; } }
    else { int n=r.lb+(x.tier?60:30); for(int w=0;w<nbase(f,c);w++){ Hist b=base_hist(f,c,w,n); auto A=alphabet(f,w&1&&nalpha(f)>1); if(n<300){ A.resize(n>100?2:4); deviations(b,A,1,[&](const Hist&h){return r.one(h);}); } r.one(base_hist(f,c,w,r.lb+300)); if(x.full()) return; } } x.sample(cfgstr(f,c)); } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; auto a=cfgs_small(f,tier); for(size_t k=0;k<a.size();k+=8){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+8)); J.push_back({fmt("%s/tree/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,0,x);}}); }
    a=cfgs_long(f,tier); for(size_t k=0;k<a.size();k+=8){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+8)); J.push_back({fmt("%s/dev/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,1,x);}}); } } }
Reg r({"C22","model_checking","states = output bars examined; transitions = output values checked for finiteness, range, order and index bounds; traces = histories run through the batch function",gen,
 {"both batch entry points and the bar-by-bar state are judged","ranges hold up to rounding: 1e-7 absolute on percentages, 1e-9 relative to the price scale elsewhere","averages that can overshoot by design (DEMA, TEMA, T3) are exempt from range rules, as are accelerations above 1","DIV by zero, NVI/PVI/PVT after a zero close and CORREL over a (nearly) constant window are undefined"},
 "all histories over dyadic, decimal, large, small and zero-containing alphabets up to the tree bound per parameter combination; all single-bar deviations of 7 base histories of lookback+30 bars; 300-bar base histories"});
}
