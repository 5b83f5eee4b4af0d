#include "core.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
std::string fmt(const char *f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
int fidx(const char *n){ for(int i=0;i<NF;i++) if(!strcmp(FTAB[i].name,n)) return i; fprintf(stderr,"no function %s\n",n); exit(3); }
int slot(const FD&f,int k){ int t=f.ik[k]; if(t==6&&k==1) return 8; return t; }
// ------------------------------------------------------------------ settings
struct CS { TA_RangeType t; int p; double f; };
#define RB TA_RangeType_RealBody
#define HL TA_RangeType_HighLow
#define SH TA_RangeType_Shadows
// order: BodyLong VeryLong Short Doji | ShadowLong VeryLong Short VeryShort | Near Far Equal
static const CS CSETS[][11]={
 {{RB,10,1},{RB,10,3},{RB,10,1},{HL,10,.1},{RB,0,1},{RB,0,2},{SH,10,1},{HL,10,.1},{HL,5,.2},{HL,5,.6},{HL,5,.05}}, // 0 defaults
 {{RB,1,1},{RB,1,2},{RB,1,1},{HL,1,.125},{RB,0,1},{RB,0,2},{SH,1,1},{HL,1,.125},{HL,1,.25},{HL,1,.5},{HL,1,.0625}}, // 1 one-bar averages
 {{RB,2,1},{RB,3,1.5},{RB,1,1},{HL,2,.25},{RB,1,1},{RB,2,1},{SH,2,.5},{HL,1,.25},{HL,2,.25},{HL,3,.5},{HL,1,.125}}, // 2 mixed periods
 {{HL,0,.5},{HL,0,.75},{HL,0,.5},{HL,0,.125},{HL,0,.25},{HL,0,.5},{HL,0,.25},{HL,0,.125},{HL,0,.25},{HL,0,.5},{HL,0,.125}}, // 3 no averages
 {{SH,2,1},{HL,1,1},{HL,3,.5},{RB,2,.25},{HL,2,.25},{SH,1,1},{RB,3,.5},{SH,2,.25},{RB,2,.5},{SH,1,.5},{RB,3,.25}}, // 4 unusual range types
 {{RB,3,1},{RB,2,2},{RB,2,1},{HL,1,.125},{RB,0,1},{RB,0,2},{SH,3,1},{HL,2,.125},{HL,1,.25},{HL,2,.5},{HL,3,.0625}}, // 5 mixed periods, default types
 {{RB,1,1},{RB,1,1},{RB,4,1},{HL,4,.25},{RB,4,.5},{RB,1,1},{SH,1,1},{HL,4,.25},{HL,4,.25},{HL,1,.5},{HL,4,.125}}, // 6
 {{HL,2,.5},{RB,1,1},{RB,2,1},{SH,2,.5},{RB,2,.5},{HL,2,.5},{RB,1,1},{HL,2,.125},{SH,2,.5},{RB,4,1},{HL,2,.125}}, // 7 other unusual range types
};
const int NCANDLE=sizeof CSETS/sizeof*CSETS;
// sets NCANDLE+j: one-bar averages except for setting j, which averages over 9 bars: every lookback formula's terms show one at a time
static CS cs_of(int id,int i){ if(id<NCANDLE) return CSETS[id][i]; CS c=CSETS[1][i]; if(i==4||i==5) c.p=1; if(i==id-NCANDLE) c.p=9; if(id==NCANDLE+11){ c=CSETS[0][i]; c.p=300; } return c; } // NCANDLE+11: very long averages
void candle_set(int id,CandleS*o){ for(int i=0;i<11;i++){ CS c=cs_of(id,i); o[i].type=c.t; o[i].period=c.p; o[i].factor=c.f; } }
void apply_candle(int id){
  if(id==0){ TA_RestoreCandleDefaultSettings(TA_AllCandleSettings); return; }
  for(int i=0;i<11;i++) { CS c=cs_of(id,i); TA_SetCandleSettings((TA_CandleSettingType)i,c.t,c.p,c.f); } }
void apply(const Cfg&c){
  TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,c.unst);
  TA_SetCompatibility((TA_Compatibility)c.compat); apply_candle(c.candle); }
void quiet_reset(){ TA_Initialize(); }
std::string cfgstr(const FD&f,const Cfg&c){ std::string s=std::string("TA_")+f.name+"(";
  for(int i=0;i<f.nopt;i++) s+=fmt("%s%s=%.10g",i?",":"",f.opt[i].name+5,c.o[i]);
  s+=")"; if(c.unst) s+=fmt(" unstable=%d",c.unst); if(c.compat) s+=" compat=metastock"; if(c.candle) s+=fmt(" candleset=%d",c.candle); return s; }
static const char*UNSTF[]={"ADX","ADXR","ATR","CMO","DX","EMA","HT_DCPERIOD","HT_DCPHASE","HT_PHASOR","HT_SINE","HT_TRENDLINE","HT_TRENDMODE","IMI","KAMA","MAMA","MFI","MINUS_DI","MINUS_DM","NATR","PLUS_DI","PLUS_DM","RSI","STOCHRSI","T3","WLMA","MACD","MACDFIX","MACDEXT","DEMA","TEMA","TRIX","ADOSC","APO","PPO","MA","MAVP","BBANDS","STOCH","STOCHF","PVO",0};
bool depends_unst(const FD&f){ for(int i=0;UNSTF[i];i++) if(is(f,UNSTF[i])) return true; return false; }
static const char*COMPF[]={"CMO","EMA","MACD","MACDFIX","MACDEXT","RSI","STOCHRSI","WLMA","DEMA","TEMA","TRIX","ADOSC","APO","PPO","T3","MA","BBANDS",0};
bool depends_compat(const FD&f){ for(int i=0;COMPF[i];i++) if(is(f,COMPF[i])) return true; return false; }
// ------------------------------------------------------------------ parameter domains
static std::vector<double> realvals(const FD&f,int k){ std::string n=f.opt[k].name+5;
  if(n=="NbDevUp"||n=="NbDevDn") return {2,1,0,-1,0.5};
  if(n=="NbDev") return {1,2,0,-1.5};
  if(n=="VFactor") return {0.7,0,1,0.25};
  if(n=="Penetration") return {f.opt[k].df,0,0.25,1};
  if(n=="FastLimit") return {0.5,0.9,0.05};
  if(n=="SlowLimit") return {0.05,0.5,0.9};
  if(n=="StartValue") return {0,9,-14,0.5,-0.5};
  if(n=="OffsetOnReverse") return {0,0.25};
  return {f.opt[k].df,0.25,0}; } // accelerations
static void add(std::vector<Cfg>&v,const Cfg&c,const FD&f){ for(auto&x:v) if(!memcmp(&x,&c,sizeof c)) return; v.push_back(c); }
static void settings(std::vector<Cfg>&v,const FD&f,const std::vector<int>&us,int maxbase){
  std::vector<Cfg> base=v; if((int)base.size()>maxbase) base.resize(maxbase);
  std::vector<int> mt; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2) mt.push_back(i);
  if(mt.size()&&v.size()) for(int t=0;t<10;t++){ Cfg c=v[0]; for(int i:mt) c.o[i]=t; add(base,c,f); if(mt.size()>1) for(int i:mt){ Cfg d=v[0]; d.o[i]=t; add(base,d,f); } }
  if(depends_unst(f)) for(int u:us) for(auto c:base){ c.unst=u; add(v,c,f); }
  if(depends_compat(f)) for(auto c:base){ c.compat=1; add(v,c,f); }
  if(depends_compat(f)&&depends_unst(f)) for(auto c:base){ c.compat=1; c.unst=us[0]; add(v,c,f); if(us.size()>1){c.unst=us[1];add(v,c,f);} } }
static Cfg deflt(const FD&f){ Cfg c; memset(&c,0,sizeof c); for(int i=0;i<f.nopt;i++) c.o[i]=f.opt[i].df; return c; }
static std::vector<double> smallints(const FD&f,int k){ std::string n=f.opt[k].name+5; int m=(int)f.opt[k].mn;
  if(n=="SlowPeriod") return {3,2,5};
  if(n=="FastPeriod") return {2,3,4};
  if(n=="SignalPeriod") return {2,1,3};
  if(n=="TimePeriod") return m==1? std::vector<double>{3,1,2,4,5}: std::vector<double>{3,2,4,5};
  if(n=="MinPeriod") return {2,3};
  if(n=="MaxPeriod") return {4,2,3};
  if(n=="TimePeriod1") return {1,2,3};
  if(n=="TimePeriod2") return {2,1,4};
  if(n=="TimePeriod3") return {3,2,1};
  return {2,1,3}; }
std::vector<Cfg> cfgs_small(const FD&f,int tier){
  std::vector<Cfg> v; Cfg c0=deflt(f);
  std::vector<int> ip; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==0) ip.push_back(i);
  if(f.flags&F_CANDLE){ for(int cs=0;cs<NCANDLE;cs++){ Cfg c=c0; c.candle=cs; add(v,c,f);
      if(f.nopt) for(double p:realvals(f,0)){ c.o[0]=p; add(v,c,f);} } return v; }
  for(int i:ip) c0.o[i]=smallints(f,i)[0];
  add(v,c0,f);
  // product of the small integer periods
  std::function<void(size_t,Cfg)> rec=[&](size_t k,Cfg c){ if(k==ip.size()){ add(v,c,f); return; }
    for(double x:smallints(f,ip[k])){ Cfg d=c; d.o[ip[k]]=x; rec(k+1,d);} };
  rec(0,c0);
  std::vector<int> mt; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2) mt.push_back(i);
  if(mt.size()){ for(int t=0;t<10;t++){ Cfg c=c0; for(int i:mt) c.o[i]=t; add(v,c,f); for(int i:ip){ Cfg d=c; d.o[i]=f.opt[i].mn; add(v,d,f);} 
      Cfg e=c; for(int i:ip) e.o[i]=f.opt[i].mn; add(v,e,f);
      for(int i:ip){ Cfg d=c; d.o[i]=smallints(f,i).back()+1; add(v,d,f);} 
      for(int i:mt){ Cfg d=c0; d.o[i]=t; add(v,d,f);}
      if(mt.size()>1){ Cfg m=c0; for(size_t k=0;k<mt.size();k++) m.o[mt[k]]=(t+3*k)%10; add(v,m,f); for(int i:ip){ Cfg d=m; d.o[i]=smallints(f,i).back()+1; add(v,d,f);} } } }
  for(int i=0;i<f.nopt;i++) if(f.opt[i].type==1) for(double x:realvals(f,i)){ Cfg c=c0; c.o[i]=x; add(v,c,f);
      for(int j=i+1;j<f.nopt;j++) if(f.opt[j].type==1) for(double y:realvals(f,j)){ Cfg d=c; d.o[j]=y; add(v,d,f);} }
  if(is(f,"SAREXT")) for(double s:{0.0,9.0,-14.0}) for(int k=0;k<2;k++){ Cfg c=c0; double q[2][7]={{0.25,0.25,0.125,0.5,0.5,0.25,0.75},{0,0.5,0.25,0.75,0.25,0.125,0.375}}; c.o[0]=s; for(int i=1;i<8;i++) c.o[i]=q[k][i-1]; add(v,c,f); }
  settings(v,f,{1,3,2},tier?14:6);
  return v; }
std::vector<Cfg> cfgs_long(const FD&f,int tier){
  std::vector<Cfg> v; Cfg c0=deflt(f); add(v,c0,f);
  if(f.flags&F_CANDLE){ if(f.nopt) for(double p:realvals(f,0)){ Cfg c=c0; c.o[0]=p; add(v,c,f);} for(int cs=0;cs<NCANDLE+11;cs++){ Cfg c=c0; c.candle=cs; add(v,c,f);} return v; }
  std::vector<double> P={7,29,30,31,49,50,51,64,101,201}; if(tier) for(double x:{6,8,10,13,20,28,32,33,40,52,70,100}) P.push_back(x);
  std::vector<int> ip,mt; for(int i=0;i<f.nopt;i++){ if(f.opt[i].type==0) ip.push_back(i); if(f.opt[i].type==2) mt.push_back(i);} 
  for(int i:ip) for(double p:P){ Cfg c=c0; c.o[i]=p; add(v,c,f);} 
  if(ip.size()>1) for(double p:P){ Cfg c=c0; for(int i:ip) c.o[i]=p; add(v,c,f);} 
  for(int t=0;t<10;t++){ for(int i:mt){ Cfg c=c0; c.o[i]=t; add(v,c,f);} if(mt.size()){ Cfg c=c0; for(int i:mt) c.o[i]=t; add(v,c,f); for(int i:ip){ Cfg d=c; d.o[i]=31; add(v,d,f); d.o[i]=50; add(v,d,f); } } }
  if(mt.size()>1) for(size_t i=0;i<mt.size();i++) for(size_t j=i+1;j<mt.size();j++) for(int t=0;t<10;t++) for(int u=0;u<10;u++){ Cfg c=c0; c.o[mt[i]]=t; c.o[mt[j]]=u; add(v,c,f); }
  for(int i=0;i<f.nopt;i++) if(f.opt[i].type==1) for(double x:realvals(f,i)){ Cfg c=c0; c.o[i]=x; add(v,c,f);} 
  // small periods: long histories over small rings
  Cfg cs=c0; for(int i:ip) cs.o[i]=smallints(f,i)[0]; add(v,cs,f);
  for(int i:ip) for(double p:smallints(f,i)){ Cfg c=cs; c.o[i]=p; add(v,c,f);} 
  settings(v,f,{1,7,30},tier?16:6);
  return v; }
// ------------------------------------------------------------------ alphabets
static Bar B(double o,double h,double l,double c,double v,double r,double p,double r2){ Bar b; double a[9]={o,h,l,c,v,v/2,r,p,r2}; memcpy(b.v,a,sizeof a); return b; }
int nalpha(const FD&f){ return (f.flags&F_CANDLE)?1: 2; }
static bool mathdom(const FD&f){ return is(f,"ACOS")||is(f,"ASIN"); }
static bool posdom(const FD&f){ return is(f,"LN")||is(f,"LOG10")||is(f,"SQRT"); }
std::vector<Bar> alphabet(const FD&f,int w){
  std::vector<Bar> a;
  if(mathdom(f)){ double x[2][6]={{0,1,-1,0.5,-0.25,0.75},{0.125,-0.5,0.25,-0.75,0.0625,-0.125}}; for(double r:x[w]) a.push_back(B(10,11,9,10,100,r,3,r)); return a; }
  if(posdom(f)){ double x[2][6]={{1,10,0.25,2,100,3},{5,0.5,7,1000,0.125,1.5}}; for(double r:x[w]) a.push_back(B(10,11,9,10,100,r,3,r)); return a; }
  bool mathtr=!strcmp(f.group,"Math Transform");
  if(mathtr){ double x[2][6]={{0,1,-1,0.5,2.5,-3},{0.25,-0.75,1.5,-2.5,3,-0.125}}; for(double r:x[w]) a.push_back(B(10,11,9,10,100,r,3,r)); return a; }
  if(w==0){
    a.push_back(B(10,12,9,11,100, 10,2,20));
    a.push_back(B(11,11.5,8,8.5,200, 11,4,19));
    a.push_back(B(9,13,9,13,50, 9.5,3,21.5));
    a.push_back(B(12,14,11.5,12,100, 12.25,99,18));
    a.push_back(B(8,8.5,6,6.5,150, 8,1,22));
    a.push_back(B(10,10,10,10,0, 9.75,2.5,20.25));
  } else {
    a.push_back(B(1,1.5,0.5,1,10, 1,3,0));
    a.push_back(B(1,1,1,1,0, 0,2,0));
    a.push_back(B(0.5,2,0.25,1.75,30, -2,4,1));
    a.push_back(B(2,2.5,2,2.5,5, 0.5,5,-2));
    a.push_back(B(1.5,1.75,1.25,1.25,20, 3,2,0.5));
    a.push_back(B(3,3,1,1,40, -1,3,4));
  }
  if(is(f,"TRIX")||is(f,"PPO")) for(auto&b:a) b.v[6]=fabs(b.v[6]); // quotients of an average: with signs it may be zero up to rounding only
  return a; }
// candle alphabet: shapes at three levels
static std::vector<Bar> candles(){ std::vector<Bar> a;
  double s[][4]={{10,14,9.75,13.75},{13.5,13.75,10,10.25},{12,12.5,11.5,12},{14.5,15,14.25,14.75},{9,9.25,8,8.25},{11,12,10.5,11.5},{12,12.25,8,11.75},{12,16,11.75,12.25},{15,18,15,18},{8,8,5,5}};
  for(auto&x:s) a.push_back(B(x[0],x[1],x[2],x[3],100,x[3],3,x[0])); return a; }
uint64_t tree(const std::vector<Bar>&A,int D,const HistFn&fn){
  Hist h(D); std::vector<int> ix(D,0); int K=A.size(); for(auto&b:h) b=A[0]; uint64_t n=0;
  while(1){ n++; if(!fn(h)) return n; int j=D-1; while(j>=0){ if(++ix[j]<K){ h[j]=A[ix[j]]; break; } ix[j]=0; h[j]=A[0]; j--; } if(j<0) return n; } }
void tree_shape(const FD&f,int lb,uint64_t budget,int avail,int extra,int&K,int&D){
  K=0; D=0; for(int k=std::min(avail,6);k>=2;k--){ int d=(int)floor(log((double)budget)/log((double)k)+1e-9); if(d>=lb+extra){ K=k; D=std::min(d,lb+extra+6); break; } } }
// base histories
#include "cdlhist.h"
static const std::vector<Seed>&seeds_of(const FD&f,int cs){ static std::map<std::pair<std::string,int>,std::vector<Seed>> m; auto k=std::make_pair(std::string(f.name),cs); auto it=m.find(k); if(it==m.end()) it=m.emplace(k,cdl_seeds(f,cs)).first; return it->second; }
static Hist plain_extra(const FD&f,int w,int n){ // 7: plateaus of equal bars, 8: quiet stretches without range or volume, gaps between them
  Hist a=base_hist(f,5,n),h=a; static const int RUN[]={2,1,3,1,4,2,1,5}; int i=0,k=0; if(w==7){ while(i<n){ int r=RUN[k++%8]; for(int j=0;j<r&&i<n;j++,i++) h[i]=a[i-j]; } return h; }
  if(w==9){ for(i=0;i<n;i++) if(i%5==2||i%5==3||i%7==4){ double q[3][4]={{0,0,0,0},{0,1,0,1},{1,1,0,0}}; for(int k2=0;k2<4;k2++) h[i].v[k2]=q[i%3][k2]; if(strcmp(f.group,"Math Transform")){ h[i].v[6]=h[i].v[3]; h[i].v[8]=(i%3)-1; } } return h; } // worthless bars
  while(i<n){ int r=RUN[(k+3)%8]+2; for(int j=0;j<r&&i<n;j++,i++) if(k&1){ double x=a[i-j].v[3]; h[i]=a[i-j]; if(strcmp(f.group,"Math Transform")) h[i].v[0]=h[i].v[1]=h[i].v[2]=h[i].v[3]=x; h[i].v[4]=0; h[i].v[5]=0; } k++; } return h; }
int nbase(const FD&f,const Cfg&c){ return (f.flags&F_CANDLE)? 7+(int)seeds_of(f,c.candle).size(): 10; }
Hist base_hist(const FD&f,const Cfg&c,int w,int n){ if(w<7) return base_hist(f,w,n); if(!(f.flags&F_CANDLE)) return plain_extra(f,w,n);
  auto&S=seeds_of(f,c.candle); Hist h; for(size_t k=w-7;(int)h.size()<n;k++){ auto&s=S[k%S.size()].h; h.insert(h.end(),s.begin(),s.end()); if((int)(k-w+7)>n) break; } h.resize(n); return h; }
static double lcg(uint32_t&s){ s=s*1664525u+1013904223u; return ((s>>16)&0xff)/64.0; }   // dyadic in [0,4)
Hist base_hist(const FD&f,int w,int n){
  Hist h(n); uint32_t s=12345+w*77; double c=20; bool md=mathdom(f),mt=!strcmp(f.group,"Math Transform");
  for(int i=0;i<n;i++){ double o=c,hi,lo,cl,v;
    switch(w){
      case 0: cl=o; hi=o; lo=o; v=100; break;                                   // flat
      case 1: cl=o+0.5; hi=cl+0.25; lo=o-0.25; v=100+i; break;                   // up ramp
      case 2: cl=o-0.25; hi=o+0.25; lo=cl-0.5; v=100+(i%7); break;               // down ramp
      case 3: cl=(i&1)?o+1:o-1; hi=std::max(o,cl)+0.5; lo=std::min(o,cl)-0.25; v=100+50*(i&1); break; // zigzag
      case 4: case 5: { double d=lcg(s)-2; if(c+d<4) d=fabs(d); cl=o+d; hi=std::max(o,cl)+lcg(s)/4; lo=std::min(o,cl)-lcg(s)/4; v=50+32*lcg(s); if(w==5) o=cl-(lcg(s)-2)/2, hi=std::max(hi,o), lo=std::min(lo,o); break; } // pseudo prices
      default: { double ph=i%24; double t=ph<12?ph:24-ph; cl=16+t*t/8; hi=std::max(o,cl)+0.25; lo=std::min(o,cl)-0.25; v=100+10*(i%5); } // smooth wave
    }
    if(lo<0.25&&w==2){ cl=20; o=20; hi=20.25; lo=19.5; }
    c=cl; double r=cl; if(mathdom(f)) r=((i*7+w*3)%17-8)/8.0; else if(posdom(f)) r=std::max(cl,0.25); else if(mt) r=((i*5+w)%23-11)/4.0;
    double p=2+((i*(w+1))%9); if(w==4) p=2+((i*7)%40);
    h[i]=B(o,hi,lo,cl,v,r,p, w==3? 30-cl/2: (w==0? 5: 10+((i%13)*(i%13)+w)%13*0.5)); }
  (void)md; return h; }
uint64_t deviations(const Hist&b,const std::vector<Bar>&A,int dev,const HistFn&fn){
  uint64_t n=1; if(!fn(b)) return n; if(dev<1) return n; Hist h=b; int N=b.size();
  for(int i=0;i<N;i++){ for(auto&x:A){ h[i]=x; n++; if(!fn(h)) return n; 
      if(dev>1) for(int j=i+1;j<N;j++){ for(auto&y:A){ h[j]=y; n++; if(!fn(h)) return n; } h[j]=b[j]; } }
    h[i]=b[i]; }
  return n; }
std::string histstr(const FD&f,const Hist&h){ std::string s; for(int k=0;k<f.nin;k++){ static const char*nm[]={"O","H","L","C","V","OI","R","P","R2"}; s+=fmt("%s=[",nm[slot(f,k)]); for(size_t i=0;i<h.size()&&i<400;i++) s+=fmt("%s%.10g",i?",":"",h[i].v[slot(f,k)]); s+="] "; } return s; }
static volatile unsigned long beat0; volatile unsigned long *g_beat=&beat0;
void Data::set(const FD&fd,const Hist&h,bool wf){ ++*g_beat; f=&fd; n=h.size(); for(int k=0;k<fd.nin;k++){ int s=slot(fd,k); in[k].resize(n); for(int i=0;i<n;i++) in[k][i]=h[i].v[s]; p[k]=in[k].data(); if(wf){ inf[k].resize(n); for(int i=0;i<n;i++) inf[k][i]=(float)h[i].v[s]; pf[k]=inf[k].data(); } } }
void Out::prep(const FD&f,int n){ ++*g_beat; nout=f.nout; for(int k=0;k<3;k++){ q[k]=0; if(k<f.nout){ if(f.out[k].isint){ i[k].assign(n,-777777777); q[k]=i[k].data(); } else { d[k].assign(n,-7.5e30); q[k]=d[k].data(); } } } }
std::vector<Cfg> cfgs_huge(const FD&f,int tier){ std::vector<Cfg> r; Cfg d; memset(&d,0,sizeof d); for(int k=0;k<f.nopt;k++) d.o[k]=f.opt[k].df;
  for(int k=0;k<f.nopt;k++) if(f.opt[k].type==0&&f.opt[k].mx>=70000) for(int p:{2000,70000}) for(int ms=0;ms<(depends_compat(f)?2:1);ms++){ Cfg c=d; c.o[k]=p; c.compat=ms; if(tier||!ms||p==2000) r.push_back(c); }
  if(depends_unst(f)){ Cfg c=d; c.unst=5000; r.push_back(c); } return r; }
std::vector<Cfg> cfgs_run(const FD&f){ std::vector<Cfg> r; Cfg d=deflt(f),s=d; add(r,d,f); for(int i=0;i<f.nopt;i++) if(f.opt[i].type==0) s.o[i]=smallints(f,i)[0]; add(r,s,f);
  if(depends_unst(f)){ Cfg c=s; c.unst=3; add(r,c,f); } if(depends_compat(f)){ Cfg c=s; c.compat=1; add(r,c,f); } if(f.flags&F_CANDLE){ Cfg c=d; c.candle=5; add(r,c,f); c.candle=NCANDLE+11; add(r,c,f); } return r; }
Hist run_hist(const FD&f,const Cfg&c,int n){ return base_hist(f,c,(f.flags&F_CANDLE)&&nbase(f,c)>7?7:4,n); }
Hist huge_hist(const FD&f,int which,int n){ Hist h(n); for(int i=0;i<n;i++){ double m=which==0? 100+0.5*i: which==1? 50000-0.25*i: 1000+((i*7919)%257)*0.5; double w=((i*31)%7)*0.25; Bar&b=h[i]; b.v[0]=m+w/2; b.v[1]=m+2+w; b.v[2]=m-2; b.v[3]=m+1-w; b.v[4]=1+(i*13)%11; b.v[5]=5; b.v[6]=m; b.v[7]=2+i%5; b.v[8]=m/2+w; } return h; }
// first bar at which a KAMA or MAMA of a derived series hangs on that series' rounding: it moves over the KAMA period, but only by rounding
static int kama_ill(const std::vector<double>&r,int off,int period,int n,int lag){ for(size_t j=period+lag-1;j<r.size();j++){ double t=0; for(size_t k=j-period+1;k<=j;k++) t+=fabs(r[k]-r[k-lag]); if(t<1e-5) return off+(int)j; } return n; } // lag 2: the Hilbert filter sees nothing of a series of period 1 or 2
static int nested_ill(const FD&f,const Cfg&c,const Data&d){
  int n=d.n,res=n,b=0,nb=0,b2=0,n2=0; std::vector<double> k(n),q(n),m(n);
  auto over=[&](std::vector<double> r,int off,int period,int type){ if((type==6||type==7)&&period>1) res=std::min(res,kama_ill(r,off,type==7?6:period,n,type==7?2:1)); };
  TA_MAType S=(TA_MAType)0;
  if(is(f,"STOCH")){ int t1=(int)c.o[2],t2=(int)c.o[4]; if(t1!=6&&t2!=6&&t1!=7&&t2!=7) return n;
    if(TA_STOCHF(0,n-1,d.p[0],d.p[1],d.p[2],(int)c.o[0],1,S,&b,&nb,k.data(),q.data())||!nb) return n; k.resize(nb); over(k,b,(int)c.o[1],t1);
    if(t2==6||t2==7){ if(TA_MA(0,nb-1,k.data(),(int)c.o[1],(TA_MAType)t1,&b2,&n2,m.data())||!n2) return res; m.resize(n2); over(m,b+b2,(int)c.o[3],t2); } }
  else if(is(f,"STOCHF")&&((int)c.o[2]==6||(int)c.o[2]==7)){ if(TA_STOCHF(0,n-1,d.p[0],d.p[1],d.p[2],(int)c.o[0],1,S,&b,&nb,k.data(),q.data())||!nb) return n; k.resize(nb); over(k,b,(int)c.o[1],(int)c.o[2]); }
  else if(is(f,"STOCHRSI")&&((int)c.o[3]==6||(int)c.o[3]==7)){ if(TA_STOCHRSI(0,n-1,d.p[0],(int)c.o[0],(int)c.o[1],1,S,&b,&nb,k.data(),q.data())||!nb) return n; k.resize(nb); over(k,b,(int)c.o[2],(int)c.o[3]); }
  else if(is(f,"MACDEXT")&&((int)c.o[5]==6||(int)c.o[5]==7)){ if(TA_MACDEXT(0,n-1,d.p[0],(int)c.o[0],(TA_MAType)(int)c.o[1],(int)c.o[2],(TA_MAType)(int)c.o[3],1,S,&b,&nb,k.data(),q.data(),m.data())||!nb) return n; k.resize(nb); over(k,b,(int)c.o[4],(int)c.o[5]); }
  return res; }
int illcond_from(const FD&f,const Cfg&c,const Data&d,int s){
  int nest=nested_ill(f,c,d); if(!is(f,"STOCHRSI")) return nest;
  int n=d.n,b=0,nb=0,w=(int)c.o[1]; std::vector<double> r(n); int lf=f.lookback(c.o),from=std::max(s,lf)-(lf-TA_RSI_Lookback((int)c.o[0])); if(TA_RSI(s?from:0,n-1,d.p[0],(int)c.o[0],&b,&nb,r.data())!=TA_SUCCESS) return n;
  for(int j=w-1;j<nb;j++){ double lo=1e9,hi=-1e9; for(int k=j-w+1;k<=j;k++){ lo=std::min(lo,r[k]); hi=std::max(hi,r[k]); } if(hi-lo<1e-6) return std::min(nest,b+j); }
  return nest; }
bool illcond_noise(const FD&f,const Cfg&c,const Data&d,int bar,int k){
  bool del=!strncmp(f.name,"HT_",3)||is(f,"MAMA")||is(f,"BETA"); for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2&&(c.o[i]==6||c.o[i]==7)) del=true; if(!del) return false;
  Out a; a.prep(f,d.n); int b,m; if(f.batch(0,d.n-1,d.p,c.o,&b,&m,a.q)||bar<b||bar>=b+m) return false; double v=a.get(f,k,bar-b);
  for(int z=1;z<13;z++){ std::vector<double> w[6]; const double*p[6]; for(int i=0;i<f.nin;i++){ w[i].assign(d.p[i],d.p[i]+d.n); for(int j=0;j<d.n;j++) w[i][j]*=1+(((j*f.nin+i+z*97)*2654435761u>>13&7)-3.5)*(z<7?1e-15:2e-14); p[i]=w[i].data(); }
    Out q; q.prep(f,d.n); if(f.batch(0,d.n-1,p,c.o,&b,&m,q.q)) return false; if(!near(v,q.get(f,k,bar-b),1e-9)) return true; }
  return false; }
// is the value at this bar the quotient of a difference that is zero up to rounding?  (BETA over a window of equal returns)
static bool flat_second(int w,double sx,double sxx){ return w*sxx-sx*sx<=1e-9*w*sxx; }
bool illcond_at(const FD&f,const Cfg&c,const Data&d,int bar){
  if(is(f,"CORREL")){ int w=(int)c.o[0]; if(bar<w-1) return false; for(int q=0;q<2;q++){ double sx=0,sxx=0; for(int i=bar-w+1;i<=bar;i++){ sx+=d.p[q][i]; sxx+=d.p[q][i]*d.p[q][i]; } if(flat_second(w,sx,sxx)) return true; } return false; }
  if(!is(f,"BETA")) return false; int w=(int)c.o[0]; double sx=0,sxx=0; if(bar<w) return false;
  for(int i=bar-w+1;i<=bar;i++){ double p=d.p[0][i-1],r=fabs(p)<1e-14?0:(d.p[0][i]-p)/p; sx+=r; sxx+=r*r; }
  return flat_second(w,sx,sxx); }
bool rounding_only(const FD&f,const Cfg&c,const Data&d,int s,int bar,int k,double a,double b){
  if(std::isnan(a)||std::isnan(b)) return false;
  if(is(f,"STDDEV")||is(f,"BBANDS")){ double m=0; for(int i=0;i<=bar;i++) m=std::max(m,fabs(d.p[0][i])); if(fabs(a-b)<=1e-7*m*std::max(1.0,std::max(fabs(c.o[1]),fabs(c.o[2])))) return true; } // the root of a residue
  if(illcond_at(f,c,d,bar)) return true;
  if(is(f,"STOCHRSI")&&s>0&&bar>=illcond_from(f,c,d,s)) return true;
  return illcond_noise(f,c,d,bar,k); }
// ------------------------------------------------------------------ engine
enum { MAXV=400, VL=6000 };
struct Slot { volatile int pid,job; volatile double t0; volatile unsigned long beat; char cur[1024]; };
enum{MAXK=200}; static std::vector<std::string> known;
struct Shared { volatile int khit[MAXK]; volatile int next; volatile int nv; volatile uint64_t states,trans,traces,skipped,jobs; char key[MAXV][256]; char job[MAXV][256]; char det[MAXV][VL]; volatile int lock; char samples[6][1500]; volatile int nsamp; char nk[64][64]; volatile uint64_t nvv[64]; volatile int nn; Slot slot[64]; };
static Shared*S; static Slot*mySlot; static const Job*curJob;
static void lk(){ while(__sync_lock_test_and_set(&S->lock,1)) usleep(50);} static void ulk(){ __sync_lock_release(&S->lock);} 
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
void Ctx::step(const std::string&s){ ++*g_beat; if(mySlot){ strncpy(mySlot->cur,s.c_str(),1023); mySlot->cur[1023]=0; } }
static void addviol(const std::string&key,const std::string&job,const std::string&det){ lk();
  for(int i=0;i<S->nv;i++) if(!strcmp(S->key[i],key.c_str())){ ulk(); return; }
  if(S->nv<MAXV){ int i=S->nv; strncpy(S->key[i],key.c_str(),255); strncpy(S->job[i],job.c_str(),255); strncpy(S->det[i],det.c_str(),VL-1); S->nv=i+1; } ulk(); }
static bool globm(const char*p,const char*s){ if(!*p) return !*s; if(*p=='*') return globm(p+1,s)||(*s&&globm(p,s+1)); return *p==*s&&globm(p+1,s+1); }
void Ctx::viol(const std::string&key,const std::string&d){ if(mute){ nv++; return; } for(size_t k=0;k<known.size();k++) if(globm(known[k].c_str(),key.c_str())){ S->khit[k]=1; return; } nv++; addviol(key,curJob?curJob->name:"?",d); }
void Ctx::sample(const std::string&s){ if(S->nsamp>=6) return; lk(); if(S->nsamp<6){ strncpy(S->samples[S->nsamp],s.c_str(),1499); S->nsamp=S->nsamp+1; } ulk(); }
void Ctx::note(const std::string&k,uint64_t n){ notes[k]+=n; }
std::vector<Check>&checks(){ static std::vector<Check> v; return v; }
void reg(const Check&c){ checks().push_back(c); }
static void fold(Ctx&c){ __sync_fetch_and_add(&S->states,c.cov.states); __sync_fetch_and_add(&S->trans,c.cov.transitions); __sync_fetch_and_add(&S->traces,c.cov.traces); __sync_fetch_and_add(&S->skipped,c.cov.skipped); __sync_fetch_and_add(&S->jobs,1);
  lk(); for(auto&k:c.notes){ int i; for(i=0;i<S->nn;i++) if(!strcmp(S->nk[i],k.first.c_str())) break; if(i==S->nn&&S->nn<64){ strncpy(S->nk[i],k.first.c_str(),63); S->nn=i+1; } if(i<64) S->nvv[i]=S->nvv[i]+k.second; } ulk(); }
static void runjob(const Check&ck,const Job&j,int tier,bool trace){ Ctx c; c.prop=ck.prop; c.tier=tier; c.trace=trace; c.sh=S; curJob=&j; quiet_reset(); j.fn(c); fold(c); }
static void silence(){ int n=open("/dev/null",O_WRONLY); (void)n; struct rlimit r={0,0}; setrlimit(RLIMIT_CORE,&r); }
static void worker(const Check&ck,const std::vector<Job>&jobs,int tier,int w,double deadline){ mySlot=&S->slot[w]; g_beat=&mySlot->beat; prctl(PR_SET_PDEATHSIG,SIGKILL); silence();
  while(1){ if(S->nv>=MAXV) _exit(0); if(now()>deadline) _exit(7); int i=__sync_fetch_and_add(&S->next,1); if(i>=(int)jobs.size()) _exit(0); mySlot->t0=now(); mySlot->job=i; runjob(ck,jobs[i],tier,false); mySlot->job=-1; } }
// re-run one job alone with tracing; returns description of the crash or "" if it ended normally
static int rerun(const Check&ck,const Job&j,int tier,double limit,std::string&what){ fflush(0); S->slot[63].cur[0]=0; int nv0=S->nv; (void)nv0; int p=fork(); if(!p){ mySlot=&S->slot[63]; g_beat=&mySlot->beat; prctl(PR_SET_PDEATHSIG,SIGKILL); silence(); runjob(ck,j,tier,true); _exit(0);} 
  double t=now(),t0=t; unsigned long bt=0; int st; while(1){ int r=waitpid(p,&st,WNOHANG); if(r==p) break; if(S->slot[63].beat!=bt){ bt=S->slot[63].beat; t=now(); } if(now()-t>limit||now()-t0>(tier>0?7200:400)){ kill(p,SIGKILL); waitpid(p,&st,0); what=S->slot[63].cur; return 2; } usleep(20000);} 
  what=S->slot[63].cur; if(WIFSIGNALED(st)){ what=fmt("signal %d (%s) at: ",WTERMSIG(st),strsignal(WTERMSIG(st)))+what; return 1; } if(WEXITSTATUS(st)){ what=fmt("abnormal exit %d (sanitizer report) at: ",WEXITSTATUS(st))+what; return 1; } return 0; }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32) o+=fmt("\\u%04x",c); else if(c<127) o+=c; else o+='?'; } return o; }
int main(int ac,char**av){
  std::string prop,tier="quick",verif="/verif",only; long seed=getenv("VERIF_SEED")?atol(getenv("VERIF_SEED")):0; int nw=8; bool list=false;
  for(int i=1;i<ac;i++){ std::string a=av[i]; if(a=="--tier") tier=av[++i]; else if(a=="--verif") verif=av[++i]; else if(a=="--only") only=av[++i]; else if(a=="-j") nw=atoi(av[++i]); else if(a=="--list") list=true; else prop=a; }
  const Check*ck=0; for(auto&c:checks()) if(prop==c.prop) ck=&c; if(!ck){ fprintf(stderr,"unknown property %s\n",prop.c_str()); for(auto&c:checks()) fprintf(stderr," %s\n",c.prop); return 3; }
  int T=tier=="thorough"; // cheap checks explore at the next depth already in the quick tier
  static const char*CHEAP[]={"C03","C05","C06","C07","C09","C11","C15","C16","C18","C19",0}; int D=T; for(int i=0;CHEAP[i];i++) if(prop==CHEAP[i]) D++; double T0=now(); double deadline=T0+(T?3*3600.0:840.0);
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)S,0,sizeof*S);
  if(FILE*f=fopen((verif+"/known_findings.txt").c_str(),"r")){ char l[2000]; while(fgets(l,sizeof l,f)){ std::string t=l; while(t.size()&&(t.back()=='\n'||t.back()==' ')) t.pop_back(); std::string pre=std::string("known: property=")+ck->prop+" key="; if(t.compare(0,pre.size(),pre)==0){ std::string k=t.substr(pre.size()); size_t sp=k.find(" | "); known.push_back(sp==std::string::npos?k:k.substr(0,sp)); } } fclose(f);}
  if(known.size()>MAXK) known.resize(MAXK);
  quiet_reset(); std::vector<Job> jobs; ck->gen(jobs,D);
  if(only.size()){ std::vector<Job> k; for(auto&j:jobs) if(globm(only.c_str(),j.name.c_str())) k.push_back(j); jobs=k; }
  if(list){ for(auto&j:jobs) puts(j.name.c_str()); return 0; }
  if(nw>60) nw=60; std::vector<int> pid(nw,0); int alive=0; std::vector<int> crashed,hung; bool capped=false; double hang=T?1200:90;   // seconds without progress
  auto spawn=[&](int w){ fflush(0); S->slot[w].job=-1; S->slot[w].t0=now(); int p=fork(); if(!p) worker(*ck,jobs,D,w,deadline); pid[w]=p; alive++; }; std::vector<unsigned long> lastb(nw,0);
  for(int w=0;w<nw;w++) spawn(w);
  while(alive){ int st; int p=waitpid(-1,&st,WNOHANG); if(p<=0){ usleep(10000); for(int w=0;w<nw;w++) if(pid[w]&&S->slot[w].job>=0){ if(S->slot[w].beat!=lastb[w]){ lastb[w]=S->slot[w].beat; { double tb=now(); if(S->slot[w].t0<tb) S->slot[w].t0=tb; } } if(now()-S->slot[w].t0>hang){ hung.push_back((int)S->slot[w].job); kill(pid[w],SIGKILL); S->slot[w].t0=now()+1e9; if(hung.size()>=8) S->next=(int)jobs.size(); } } continue; }
    for(int w=0;w<nw;w++) if(pid[w]==p){ alive--; pid[w]=0; if(WIFEXITED(st)&&WEXITSTATUS(st)==0) break; if(WIFEXITED(st)&&WEXITSTATUS(st)==7){ capped=true; break; }
      int j=S->slot[w].job; bool ish=false; for(int h:hung) ish|=h==j; if(j>=0&&!ish) crashed.push_back(j); if(crashed.size()+hung.size()<200&&S->next<(int)jobs.size()) spawn(w); break; } }
  if(getenv("MC_VERBOSE")) fprintf(stderr,"jobs done %.1fs crashed=%zu hung=%zu\n",now()-T0,crashed.size(),hung.size());
  int nr=0; std::set<std::string> seenp; for(int j:crashed){ std::string pre=jobs[j].name.substr(0,jobs[j].name.find('/')); if(seenp.count(pre)) continue; seenp.insert(pre); if(nr++>=12) break; std::string w; int r=rerun(*ck,jobs[j],D,200,w); if(r) addviol(pre+":crash",jobs[j].name,(r==2?"does not terminate: ":"crash: ")+w); else addviol(pre+":crash-nonrepeat",jobs[j].name,"worker died while running this job; the traced re-run ended normally"); }
  nr=0; for(int j:hung){ if(nr++>=1) break; std::string w; int r=rerun(*ck,jobs[j],D,hang*1.2,w); if(r) addviol(jobs[j].name+":hang",jobs[j].name,(r==2?"does not terminate: ":"crash: ")+w); }
  int bad=0,kn=0; std::string dir=verif+"/replays"; mkdir(dir.c_str(),0777);
  for(int i=0;i<S->nv;i++){ bool isk=false; for(size_t k=0;k<known.size();k++) if(globm(known[k].c_str(),S->key[i])){ isk=true; S->khit[k]=1; }
    if(isk) continue; bad++; std::string path=dir+fmt("/%s-%d.txt",ck->prop,bad);
    if(FILE*f=fopen(path.c_str(),"w")){ fprintf(f,"property=%s\nkey=%s\njob=%s\nreplay: bash /verif/check.sh %s %s --only '%s'\n%s\n",ck->prop,S->key[i],S->job[i],ck->prop,tier.c_str(),S->job[i],S->det[i]); fclose(f);} 
    if(bad<=10) printf("VIOLATION property=%s replay=%s\n  key=%s\n  %.700s\n",ck->prop,path.c_str(),S->key[i],S->det[i]); }
  for(size_t k=0;k<known.size();k++) if(S->khit[k]) kn++,printf("KNOWN-FINDING: property=%s %s\n",ck->prop,known[k].c_str());
  double wall=now()-T0; mkdir((verif+"/evidence").c_str(),0777);
  if(only.empty()||getenv("MC_EVID")) if(FILE*f=fopen((verif+"/evidence/"+ck->prop+".json").c_str(),"w")){
    fprintf(f,"{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%ld,\"level\":\"%s\",\"coverage\":{",ck->prop,tier.c_str(),seed,ck->level);
    if(!strcmp(ck->level,"model_checking")) fprintf(f,"\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,",(unsigned long long)S->states,(unsigned long long)S->trans,(unsigned long long)S->traces);
    else fprintf(f,"\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"transitions\":%llu,",(unsigned long long)S->traces,(unsigned long long)S->states,(unsigned long long)S->trans);
    fprintf(f,"\"rule\":\"%s\",\"bounds\":\"%s\",\"jobs\":%llu,\"jobs_planned\":%zu,\"exhaustive\":%s,\"known_findings_seen\":%d,",jesc(ck->rule).c_str(),jesc(ck->bounds).c_str(),(unsigned long long)S->jobs,jobs.size(),(capped||bad)?"false":"true",kn);
    for(int i=0;i<S->nn;i++) fprintf(f,"\"n_%s\":%llu,",jesc(S->nk[i]).c_str(),(unsigned long long)S->nvv[i]);
    fprintf(f,"\"samples\":["); for(int i=0;i<S->nsamp;i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(S->samples[i]).c_str()); fprintf(f,"]},\"assumptions\":[");
    for(size_t i=0;i<ck->assumptions.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(ck->assumptions[i]).c_str()); fprintf(f,"],\"wall_s\":%.2f,\"violations\":%d}\n",wall,bad); fclose(f);} 
  printf("%s %s: jobs=%llu/%zu states=%llu transitions=%llu traces=%llu violations=%d known=%d%s wall=%.1fs\n",ck->prop,tier.c_str(),(unsigned long long)S->jobs,jobs.size(),(unsigned long long)S->states,(unsigned long long)S->trans,(unsigned long long)S->traces,bad,kn,capped?" CAPPED":"",wall);
  for(int i=0;i<S->nn;i++) printf("  %s=%llu\n",S->nk[i],(unsigned long long)S->nvv[i]);
  return bad?1:0;
}
// functions that evaluate a quotient or product in single precision are allowed its rounding
double float_tol(const FD&f){ if(is(f,"CCI")) return 1e-3; for(auto n:{"DIV","NVI","PVI","PVT","ADD","SUB","MULT"}) if(is(f,n)) return 1e-4; return 1e-9; }
