// Units and symmetries of every function (what C25 and C26 hold the code to).
#pragma once
#include "win.h"
#include "cdlhist.h"
namespace sym {
inline bool in(const FD&f,const char*list){ std::string s=std::string(" ")+list+" ",n=std::string(" ")+f.name+" "; return s.find(n)!=std::string::npos; }
// functions of an angle, exponent or logarithm have no unit
inline bool unitless_input(const FD&f){ return (!strcmp(f.group,"Math Transform")&&!is(f,"SQRT"))||is(f,"LINEARREG_ANGLE"); }
// twice the power of the price unit in the result (SQRT has half a one)
inline int price2(const FD&f){ if(is(f,"SQRT")) return 1; if(in(f,"VAR MULT")) return 4;
  return in(f,"ACCBANDS APO ATR AVGPRICE AVGDEV BBANDS DEMA EMA HT_PHASOR HT_TRENDLINE KAMA LINEARREG LINEARREG_INTERCEPT LINEARREG_SLOPE MA MACD MACDEXT MACDFIX MAMA MAVP MAX MEDPRICE MIDPOINT MIDPRICE MIN MINMAX MINUS_DM MOM PLUS_DM SAR SAREXT SMA STDDEV SUM T3 TEMA TRANGE TRIMA TSF TYPPRICE WCLPRICE WLMA WMA ADD SUB")? 2: 0; }
inline int volume1(const FD&f){ return in(f,"AD ADOSC OBV PVT")? 1: 0; }
// two series in units of their own: power of the second one (100: must share the unit)
inline int second(const FD&f){ return is(f,"DIV")? -1: is(f,"MULT")? 1: in(f,"CORREL BETA")? 0: 100; }
// the smallest price scale at which no quantity falls under the library's zero threshold (1e-14)
inline int lowest(const FD&f){ return in(f,"STDDEV BBANDS")? -12: is(f,"CORREL")? -6: is(f,"MFI")? 0: -26; }
// ---- price level: 1 the result ignores it, 2 the result moves with it, 0 neither
inline int level(const FD&f,const Cfg&c,int k){ for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2&&c.o[i]==7) return 0; // the Hilbert transform starts from zero
  if(f.flags&F_CANDLE) return 1; if(is(f,"ACCBANDS")) return k==1?2:0;
  if(in(f,"AVGPRICE BBANDS DEMA EMA KAMA LINEARREG LINEARREG_INTERCEPT MA MAVP MAX MEDPRICE MIDPOINT MIDPRICE MIN MINMAX SAR SMA T3 TEMA TRIMA TSF TYPPRICE WCLPRICE WLMA WMA")) return 2;
  return in(f,"AD ADOSC ADX ADXR APO AROON AROONOSC ATR AVGDEV BOP CCI CMO CORREL DX IMI LINEARREG_ANGLE LINEARREG_SLOPE MACD MACDEXT MACDFIX MAXINDEX MININDEX MINMAXINDEX MINUS_DI MINUS_DM MOM OBV PLUS_DI PLUS_DM RSI STDDEV STOCH STOCHF STOCHRSI SUB TRANGE ULTOSC VAR WILLR")? 1: 0; }
// ---- mirror image: result k of f on the mirrored market is rel(result q of g on the market)
enum { NONE, SAME, NEG, COMPL, NCOMPL };      // r, -r, 100-r, -100-r
struct M { int rel; const char*g; int q; bool coloured; };   // coloured: only histories without close==open
inline M mirror(const FD&f,int k){
  static const struct { const char*a,*b; int rel; } P[]={{"PLUS_DI","MINUS_DI",SAME},{"PLUS_DM","MINUS_DM",SAME},{"MAX","MIN",NEG},{"MAXINDEX","MININDEX",SAME},{"CDLEVENINGSTAR","CDLMORNINGSTAR",NEG},{"CDLEVENINGDOJISTAR","CDLMORNINGDOJISTAR",NEG},{"CDLDRAGONFLYDOJI","CDLGRAVESTONEDOJI",SAME}};
  for(auto&p:P){ if(is(f,p.a)) return {p.rel,p.b,0,false}; if(is(f,p.b)) return {p.rel,p.a,0,false}; }
  if(in(f,"ACCBANDS BBANDS")) return {NEG,f.name,2-k,false}; if(is(f,"MINMAX")) return {NEG,f.name,1-k,false}; if(in(f,"MINMAXINDEX AROON")) return {SAME,f.name,1-k,false};
  if(in(f,"CDL3INSIDE CDL3LINESTRIKE CDL3OUTSIDE CDLBREAKAWAY CDLENGULFING CDLHIGHWAVE CDLRISEFALL3METHODS CDLSEPARATINGLINES CDLSHORTLINE CDLSPINNINGTOP")) return {NEG,f.name,k,true};
  if(in(f,"CDLABANDONEDBABY CDLBELTHOLD CDLCLOSINGMARUBOZU CDLCOUNTERATTACK CDLDOJISTAR CDLHARAMI CDLHARAMICROSS CDLHIKKAKE CDLHIKKAKEMOD CDLKICKING CDLKICKINGBYLENGTH CDLLONGLINE CDLMARUBOZU CDLTASUKIGAP CDLTRISTAR CDLXSIDEGAP3METHODS")) return {NEG,f.name,k,false};
  if(in(f,"CDLDOJI CDLLONGLEGGEDDOJI CDLRICKSHAWMAN")) return {SAME,f.name,k,false};
  if(in(f,"IMI RSI ULTOSC")) return {COMPL,f.name,k,false}; if(is(f,"WILLR")) return {NCOMPL,f.name,k,false};
  if(in(f,"ADX ADXR ATR AVGDEV BETA CORREL DIV DX HT_DCPERIOD HT_TRENDMODE MULT NVI PPO PVI PVT ROC ROCP ROCR ROCR100 STDDEV TRANGE TRIX VAR")) return {SAME,f.name,k,false};
  if(in(f,"AD ADD ADOSC APO AROONOSC AVGPRICE BOP CCI CMO DEMA EMA HT_PHASOR HT_SINE HT_TRENDLINE KAMA LINEARREG LINEARREG_ANGLE LINEARREG_INTERCEPT LINEARREG_SLOPE MA MACD MACDEXT MACDFIX MAMA MAVP MEDPRICE MIDPOINT MIDPRICE MOM NATR SMA SUB SUM T3 TEMA TRIMA TSF TYPPRICE WCLPRICE WLMA WMA")) return {NEG,f.name,k,false};
  return {NONE,f.name,k,false}; }
// every history of a job: words over the alphabets, base histories with single deviations; for candles every deviation of the committed patterns
inline void histories(const FD&f,const Cfg&c,Ctx&x,int lb,int lite,const HistFn&fn){   // 1: shorter words, fewer deviations; 2: no deviations
  if(f.flags&F_CANDLE){ CR cr; candle_set(c.candle,cr.s); cr.pen=f.nopt?c.o[0]:0; CdlDef d=cdl_def(f.name); for(auto&s:cdl_seeds(f,c.candle)) if(cdl_enumerate(s.h,cr,d,lite>1?2:lite?3:x.tier?200:20,lite?0:x.tier?20000:300,0,fn)<0) return;
    for(int w=0;w<7;w++) if(!fn(base_hist(f,c,w,lb+30))) return; fn(debruijn(cdl_alphabet(490),std::min(d.bars+1,4),lite?2000:x.tier?100000:8000)); return; }
  uint64_t budget=lite?400:x.tier?40000:1500; for(int w=0;w<nalpha(f);w++){ auto A=alphabet(f,w); int K,D; tree_shape(f,lb,budget,A.size(),2,K,D); if(!K) continue; A.resize(K); bool ok=true; tree(A,D,[&](const Hist&h){return ok=fn(h);}); if(!ok) return; }
  for(int w=0;w<nbase(f,c);w++){ int n=lb+(x.tier?60:25); Hist b=base_hist(f,c,w,n); if(lite<2&&n<=(x.tier?200:lite?45:70)){ auto A=alphabet(f,w&1); A.resize(x.tier?4:1); bool ok=true; deviations(b,A,1,[&](const Hist&h){return ok=fn(h);}); if(!ok) return; } else if(!fn(b)) return; } }
struct Runs { const FD&f; Ctx&x; Data d; Out o; int b,m,rc;              // batch result for the whole history
  Runs(const FD&f,Ctx&x):f(f),x(x){} void go(const Cfg&c,const Hist&h,int entry){ d.set(f,h,entry==1); o.prep(f,d.n); b=m=-9; x.cov.transitions++;
    if(entry==0) rc=f.batch(0,d.n-1,d.p,c.o,&b,&m,o.q); else if(entry==1) rc=f.batchf(0,d.n-1,d.pf,c.o,&b,&m,o.q);
    else { Trace t; stepref(f,c,d,t); rc=TA_SUCCESS; b=0; m=0; for(size_t i=0;i<t.rc.size();i++) if(t.rc[i]==TA_SUCCESS){ if(!m) b=i; for(int k=0;k<f.nout;k++){ if(f.out[k].isint) o.i[k][m]=(int)t.v[k][i]; else o.d[k][m]=t.v[k][i]; } m++; } else if(t.rc[i]!=TA_NEED_MORE_DATA) rc=t.rc[i]; } } };
inline const char*ename(int e){ return e==0?"batch":e==1?"float":"stream"; }
}
