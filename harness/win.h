// request windows shared by the batch-call checks
#pragma once
#include "life.h"
inline std::vector<std::pair<int,int>> windows(int n,int lb,int full){
  std::vector<int> P; if(n<=full) for(int i=0;i<n;i++) P.push_back(i); else { std::set<int> s={0,1,2,lb/2,lb-2,lb-1,lb,lb+1,lb+2,lb+3,n-2,n-1}; for(int i:s) if(i>=0&&i<n) P.push_back(i); }
  std::vector<std::pair<int,int>> v; for(int a:P) for(int b:P) if(a<=b) v.push_back({a,b}); return v; }
// output arrays with guard elements on both sides
struct Guard { static const int G=3; const FD*f; int n; std::vector<double> d[3]; std::vector<int> i[3]; void*q[3];
  static double CD(){ return -7.5e30; } static int CI(){ return -777777777; }
  void prep(const FD&ff,int nn){ f=&ff; n=nn; for(int k=0;k<ff.nout;k++){ if(ff.out[k].isint){ i[k].assign(nn+2*G,CI()); q[k]=&i[k][G]; } else { d[k].assign(nn+2*G,CD()); q[k]=&d[k][G]; } } }
  double get(int k,int j)const{ return f->out[k].isint?(double)i[k][j+G]:d[k][j+G]; }
  bool untouched(int k,int j)const{ return f->out[k].isint? i[k][j+G]==CI(): d[k][j+G]==CD(); } };
inline std::string winstr(const FD&f,const Cfg&c,int s,int e,const char*ep){ return cfgstr(f,c)+fmt(" %s[%d..%d]",ep,s,e); }
// does the value at a bar depend only on the bars [bar-lookback, bar]?  (cumulative and recursive functions do not)
inline bool recursive_ma(int t){ return t==1||t==3||t==4||t==6||t==7||t==8||t==9; }   // EMA DEMA TEMA KAMA MAMA T3 WLMA
inline bool finite_window(const FD&f,const Cfg&c){
  if(f.flags&F_UNST) return false; if(depends_unst(f)&&!f.nopt) return false;
  static const char*R[]={"AD","ADOSC","OBV","NVI","PVI","PVT","SAR","SAREXT","MACD","MACDFIX","DEMA","TEMA","TRIX","STOCHRSI","T3","HT_DCPERIOD","MAMA","KAMA",0};
  for(int i=0;R[i];i++) if(is(f,R[i])) return false;
  for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2&&recursive_ma((int)c.o[i])) return false;
  if(is(f,"CDLHIKKAKE")||is(f,"CDLHIKKAKEMOD")) return true;
  return true; }
