// Reference evaluation of the 61 candlestick definitions: every condition and every average is computed directly
// from the bars and from the settings handed in; no running sums, no library code.
#pragma once
#include "core.h"
struct CR {
  const double *o,*h,*l,*c; CandleS s[11]; double pen=0;
  enum { BodyLong,BodyVeryLong,BodyShort,BodyDoji,ShadowLong,ShadowVeryLong,ShadowShort,ShadowVeryShort,Near,Far,Equal };
  double O(int i)const{return o[i];} double H(int i)const{return h[i];} double L(int i)const{return l[i];} double C(int i)const{return c[i];}
  static double max(double a,double b){ return a>b?a:b; } static double min(double a,double b){ return a<b?a:b; } static double fabs(double a){ return a<0?-a:a; }
  double BODY(int i)const{ return fabs(c[i]-o[i]); } double USH(int i)const{ return h[i]-max(c[i],o[i]); } double LSH(int i)const{ return min(c[i],o[i])-l[i]; }
  double HLR(int i)const{ return h[i]-l[i]; } int COL(int i)const{ return c[i]>=o[i]?1:-1; }
  bool GAPUP(int a,int b)const{ return min(o[a],c[a])>max(o[b],c[b]); } bool GAPDOWN(int a,int b)const{ return max(o[a],c[a])<min(o[b],c[b]); }
  bool CGAPUP(int a,int b)const{ return l[a]>h[b]; } bool CGAPDOWN(int a,int b)const{ return h[a]<l[b]; }
  double range(int k,int i)const{ return s[k].type==TA_RangeType_RealBody? BODY(i): s[k].type==TA_RangeType_HighLow? HLR(i): USH(i)+LSH(i); }
  double AVG(int k,int i)const{ double t=0; if(s[k].period){ for(int j=i-s[k].period;j<i;j++) t+=range(k,j); t/=s[k].period; } else t=range(k,i);
    return s[k].factor*t/(s[k].type==TA_RangeType_Shadows?2.0:1.0); }
#include "cdlref.inc"
  // hikkake: an inside bar followed by a bar that is lower (bullish) or higher (bearish) on both ends; confirmed when one of the
  // next three bars closes beyond the inside bar. A new pattern replaces the old one, a confirmation uses it up.
  int hik(int i)const{ bool ins=h[i-1]<h[i-2]&&l[i-1]>l[i-2]; if(!ins) return 0; return h[i]<h[i-1]&&l[i]<l[i-1]? 100: h[i]>h[i-1]&&l[i]>l[i-1]? -100: 0; }
  int hikm(int i)const{ if(!(h[i-2]<h[i-3]&&l[i-2]>l[i-3])) return 0; int r=hik(i); double a=AVG(Near,i-2);
    return r>0? (c[i-2]<=l[i-2]+a? r:0): r<0? (c[i-2]>=h[i-2]-a? r:0): 0; }
  template<class F> int conf(int i,F pat)const{ int r=pat(i); if(r) return r;
    for(int p=i-1;p>=i-3;p--) if((r=pat(p))){ for(int q=p+1;q<=i;q++) if(r>0? c[q]>h[p-1]: c[q]<l[p-1]) return q==i? 2*r: 0; return 0; }
    return 0; }
  int r_CDLHIKKAKE(int i)const{ return conf(i,[&](int j){return hik(j);}); }
  int r_CDLHIKKAKEMOD(int i)const{ return conf(i,[&](int j){return hikm(j);}); }
};
#include "candledep.inc"
// bars of history a pattern looks at besides the averages (frozen)
static const struct { const char*n; int (CR::*fn)(int)const; } CDLF[]={
#include "cdllist.inc"
};
static const struct { const char*n; int k; } CDLK[]={
#include "cdlbars.inc"
};
struct CdlDef { int (CR::*fn)(int)const; int dep,bars; };
inline CdlDef cdl_def(const char*n){ CdlDef d={0,0,0}; for(auto&x:CDLF) if(!strcmp(x.n,n)) d.fn=x.fn; for(auto&x:CDEP) if(!strcmp(x.n,n)) d.dep=x.m; for(auto&x:CDLK) if(!strcmp(x.n,n)) d.bars=x.k; return d; }
inline int cdl_lookback(const CdlDef&d,const CandleS*s){ int m=0; for(int i=0;i<11;i++) if(d.dep>>i&1) m=std::max(m,s[i].period);
  if(d.fn==&CR::r_CDLHIKKAKEMOD) return std::max(1,m)+5; return m+d.bars; }
