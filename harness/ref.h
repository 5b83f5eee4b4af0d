// Reference definitions of the non-candlestick indicators, evaluated naively over whole series: every window is summed,
// searched or regressed from scratch, recursions are written as plain series, no library code is used.
#pragma once
#include "core.h"
struct S { int b=0; std::vector<double> v; S(){} S(int n,int bb):b(bb),v(n){} double operator[](int i)const{return v[i];} double&operator[](int i){return v[i];} int n()const{return (int)v.size();} };
static const double SKIPV=1.2345e300;       // reference declines to judge (ill-conditioned)
struct RO { int b; S o[3]; };
struct RefCtx { int U; bool ms; double noise=0; int seed=0; };
struct Ref { RefCtx e; static bool Z(double x){ return x>-1e-14&&x<1e-14; } static bool ZN(double x){ return x<1e-14; }
  double nz(double x,double scale,int t,int site)const{ return e.noise? x+scale*e.noise*(((site+e.seed*97+(e.seed&1?t*5:0))*2654435761u>>13&7)-3.5): x; } // odd seeds: another error at every bar, even seeds: the same at all
  // ---- windows
  static double sumw(const S&x,int i,int p){ double t=0; for(int j=i-p+1;j<=i;j++) t+=x[j]; return t; }
  static double maxw(const S&x,int i,int p){ double t=x[i]; for(int j=i-p+1;j<=i;j++) if(x[j]>t) t=x[j]; return t; }
  static double minw(const S&x,int i,int p){ double t=x[i]; for(int j=i-p+1;j<=i;j++) if(x[j]<t) t=x[j]; return t; }
  static int maxi(const S&x,int i,int p){ int t=i; for(int j=i;j>i-p;j--) if(x[j]>x[t]) t=j; return t; }
  static int mini(const S&x,int i,int p){ int t=i; for(int j=i;j>i-p;j--) if(x[j]<x[t]) t=j; return t; }
  template<class F> static S each(const S&x,int lb,int s,F f){ S r(x.n(),std::max(s,x.b+lb)); for(int i=r.b;i<x.n();i++) r[i]=f(i); return r; }
  static S in(const double*p,int n){ S r(n,0); r.v.assign(p,p+n); return r; }
  // ---- moving averages; s: first bar wanted
  static S sma(const S&x,int p,int s){ return each(x,p-1,s,[&](int i){return sumw(x,i,p)/p;}); }
  static S wma(const S&x,int p,int s){ return each(x,p-1,s,[&](int i){ double t=0; for(int k=0;k<p;k++) t+=(p-k)*x[i-k]; return t/(0.5*p*(p+1.0)); }); }
  static S trima(const S&x,int p,int s){ int a=(p+1)/2,b=p/2+1; return each(x,p-1,s,[&](int i){ double t=0; for(int k=0;k<p;k++) t+=std::min(std::min(k+1,p-k),a)*x[i-k]; return t/((double)a*b); }); }
  S expo(const S&x,int p,double k,int s,int U,bool ms)const{ int lb=p-1+U; S r(x.n(),std::max(s,x.b+lb)); if(r.b>=x.n()) return r; int t; double m;
    if(ms){ t=x.b; m=x[t]; } else { t=r.b-lb+p-1; m=sumw(x,t,p)/p; }
    r[t]=m; for(t++;t<x.n();t++) r[t]=m=m+k*(x[t]-m); return r; }
  S ema(const S&x,int p,int s)const{ return expo(x,p,2.0/(p+1),s,e.U,e.ms); }
  S wlma(const S&x,int p,int s)const{ return expo(x,p,1.0/p,s,e.U,e.ms); }
  S dema(const S&x,int p,int s)const{ int l=p-1+e.U; s=std::max(s,x.b+2*l); S a=ema(x,p,s-l),b=ema(a,p,a.b); return each(b,0,b.b,[&](int i){return 2*a[i]-b[i];}); }
  S tema(const S&x,int p,int s)const{ int l=p-1+e.U; s=std::max(s,x.b+3*l); S a=ema(x,p,s-2*l),b=ema(a,p,a.b),c=ema(b,p,b.b); return each(c,0,c.b,[&](int i){return 3*a[i]-3*b[i]+c[i];}); }
  S t3(const S&x,int p,double v,int s)const{ int lb=6*(p-1)+e.U; s=std::max(s,x.b+lb); S y[7]; y[0]=x; int b=s-lb; double k=2.0/(p+1); for(int j=1;j<=6;j++) { b+=p-1; y[j]=expo(y[j-1],p,k,b,0,false); }
    double c1=-v*v*v,c2=3*v*v+3*v*v*v,c3=-6*v*v-3*v-3*v*v*v,c4=1+3*v+v*v*v+3*v*v; return each(y[6],0,s,[&](int i){return c1*y[6][i]+c2*y[5][i]+c3*y[4][i]+c4*y[3][i];}); }
  S kama(const S&x,int p,int s)const{ int lb=p+e.U; S r(x.n(),std::max(s,x.b+lb)); if(r.b>=x.n()) return r; int t=r.b-lb+p; double m=x[t-1];
    for(;t<x.n();t++){ double roc=fabs(x[t]-x[t-p]),vol=0; for(int j=t-p+1;j<=t;j++) vol+=fabs(x[j]-x[j-1]); double er=(vol<=roc||Z(vol))?1:roc/vol, c=er*(2.0/3-2.0/31)+2.0/31; m+=c*c*(x[t]-m); r[t]=m; } return r; }
  int malb(int type,int p)const{ if(p<=1) return 0; switch(type){ case 1: case 9: return p-1+e.U; case 3: return 2*(p-1+e.U); case 4: return 3*(p-1+e.U); case 6: return p+e.U; case 7: return 32+e.U; case 8: return 6*(p-1)+e.U; default: return p-1; } }
  S ma(const S&x,int type,int p,int s)const{ if(p<=1) return each(x,0,s,[&](int i){return x[i];});
    switch(type){ case 0: return sma(x,p,s); case 1: return ema(x,p,s); case 2: return wma(x,p,s); case 3: return dema(x,p,s); case 4: return tema(x,p,s); case 5: return trima(x,p,s); case 6: return kama(x,p,s); case 7: return mama(x,0.5,0.05,s).first; case 8: return t3(x,p,0.7,s); default: return wlma(x,p,s); } }
  // ---- Wilder smoothing of gains and losses
  static double osc(double g,double l,bool rsi){ double t=g+l; return Z(t)?0: rsi? 100*(g/t): 100*((g-l)/t); }
  S rsi(const S&x,int p,int s,bool isrsi)const{ int lb=p+e.U-(e.ms?1:0); S r(x.n(),std::max(s,x.b+lb)); if(r.b>=x.n()) return r; int a=r.b-lb; double g=0,l=0;
    auto up=[&](int i){return std::max(x[i]-x[i-1],0.0);}; auto dn=[&](int i){return std::max(x[i-1]-x[i],0.0);};
    if(e.ms&&!e.U){ for(int i=a+1;i<a+p;i++) g+=up(i),l+=dn(i); r[r.b]=osc(g/p,l/p,isrsi); g=l=0; }
    int t=a+p; if(t>=x.n()) return r; for(int i=a+1;i<=t;i++) g+=up(i),l+=dn(i); g/=p; l/=p; r[t]=osc(g,l,isrsi);
    for(t++;t<x.n();t++){ g=(g*(p-1)+up(t))/p; l=(l*(p-1)+dn(t))/p; r[t]=osc(g,l,isrsi); } return r; }
  // ---- ranges and directional movement
  static double tr(const S&h,const S&l,const S&c,int i){ return std::max(std::max(h[i]-l[i],fabs(c[i-1]-h[i])),fabs(c[i-1]-l[i])); }
  static double pdm(const S&h,const S&l,int i){ double u=h[i]-h[i-1],d=l[i-1]-l[i]; return u>0&&u>d?u:0; }
  static double mdm(const S&h,const S&l,int i){ double u=h[i]-h[i-1],d=l[i-1]-l[i]; return d>0&&d>u?d:0; }
  S atr(const S&h,const S&l,const S&c,int p,int s)const{ int lb=p+e.U; S r(h.n(),std::max(s,lb)); if(r.b>=h.n()) return r; int t=r.b-lb+p; double m=0; if(p<=1) return each(h,lb,s,[&](int i){return tr(h,l,c,i);});
    for(int i=t-p+1;i<=t;i++) m+=tr(h,l,c,i); m/=p; r[t]=m; for(t++;t<h.n();t++) r[t]=m=(m*(p-1)+tr(h,l,c,t))/p; return r; }
  // Wilder-summed series from bar a: sum of the first p-1 values, then w - w/p + value
  template<class F> static S wsum(int n,int a,int p,F f){ S r(n,a+p-1); double w=0; for(int t=a+1;t<n&&t<a+p;t++){ w+=f(t); r[t]=w; } if(p==1) r[a]=0; for(int t=a+p;t<n;t++) r[t]=w=w-w/p+f(t); return r; }
  static double dxv(double p,double m,double t,double prev){ if(Z(t)) return prev; double a=100*(m/t),b=100*(p/t); return Z(a+b)?prev:100*(fabs(a-b)/(a+b)); }
  S adx(const S&h,const S&l,const S&c,int p,int s)const{ int lb=2*p+e.U-1; S r(h.n(),std::max(s,lb)); int n=h.n(); if(r.b>=n) return r; int a=r.b-lb; S P=wsum(n,a,p,[&](int i){return pdm(h,l,i);}),M=wsum(n,a,p,[&](int i){return mdm(h,l,i);}),T=wsum(n,a,p,[&](int i){return tr(h,l,c,i);});
    double m=0; for(int t=a+p;t<a+2*p;t++) m+=dxv(P[t],M[t],T[t],0); m/=p; int t=a+2*p-1; r[t]=m; for(t++;t<n;t++){ double q=dxv(P[t],M[t],T[t],-1); if(q>=0) m=(m*(p-1)+q)/p; r[t]=m; } return r; }
  // ---- stochastic
  S fastk(const S&h,const S&l,const S&c,int p,int s)const{ return each(h,p-1,s,[&](int i){ double H=maxw(h,i,p),L=minw(l,i,p),d=(H-L)/100; return d!=0? (c[i]-L)/d: 0.0; }); }
  // ---- regression of the window on 0,1,..,p-1
  static void line(const S&x,int i,int p,double&m,double&b){ double mx=(p-1)/2.0,my=sumw(x,i,p)/p,sxy=0,sxx=0; for(int k=0;k<p;k++){ double d=k-mx; sxy+=d*(x[i-p+1+k]-my); sxx+=d*d; } m=sxy/sxx; b=my-m*mx; }
  // ---- Hilbert transform engine (Ehlers), a: first bar of the price smoother, w: bars before the transform starts
  struct HT { int a,w; std::vector<double> sm,det,q1,i1,per,sp; };
  HT ht(const S&x,int a,int w)const{ int n=x.n(); HT r; r.a=a; r.w=w; for(auto*v:{&r.sm,&r.det,&r.q1,&r.i1,&r.per,&r.sp}) v->assign(n,0.0); std::vector<double> jI(n,0.0),jQ(n,0.0); double I2=0,Q2=0,re=0,im=0,per=0,sp=0; int t0=a+w; const double A=0.0962,B=0.5769,deg=45/atan(1.0);
    auto at=[&](const std::vector<double>&v,int t){ return t<t0?0.0:v[t]; };
    for(int t=t0;t<n;t++){ double adj=0.075*per+0.54; r.sm[t]=(x[t-3]+2*x[t-2]+3*x[t-1]+4*x[t])*0.1;
      auto hil=[&](const std::vector<double>&v){ return nz((-(A*at(v,t-6))+A*at(v,t)-B*at(v,t-4)+B*at(v,t-2))*adj,(A*fabs(at(v,t-6))+A*fabs(at(v,t))+B*fabs(at(v,t-4))+B*fabs(at(v,t-2)))*adj,t,0); };
      r.det[t]=hil(r.sm); r.q1[t]=hil(r.det); r.i1[t]=at(r.det,t-3); jI[t]=hil(r.i1); jQ[t]=hil(r.q1);
      double q=0.2*(r.q1[t]+jI[t])+0.8*Q2,i=0.2*(r.i1[t]-jQ[t])+0.8*I2; double sr=0.2*(fabs(i*I2)+fabs(q*Q2))+0.8*fabs(re),si=0.2*(fabs(i*Q2)+fabs(q*I2))+0.8*fabs(im); re=0.2*(i*I2+q*Q2)+0.8*re; im=0.2*(i*Q2-q*I2)+0.8*im; re=nz(re,sr,t,3); im=nz(im,si,t,2); I2=i; Q2=q;
      double old=per; if(im!=0&&re!=0) per=360/(atan(im/re)*deg); per=std::min(per,1.5*old); per=std::max(per,0.67*old); per=std::min(std::max(per,6.0),50.0); per=0.2*per+0.8*old; sp=0.33*per+0.67*sp; r.per[t]=per; r.sp[t]=sp; }
    return r; }
  std::pair<S,S> mama(const S&x,double fast,double slow,int s)const{ int lb=32+e.U,n=x.n(); S m(n,std::max(s,x.b+lb)),f=m; if(m.b>=n) return {m,f}; HT h=ht(x,m.b-lb,12); double a=0,b=0,prev=0; const double deg=45/atan(1.0);
    for(int t=h.a+12;t<n;t++){ double ph=h.i1[t]!=0? atan(h.q1[t]/h.i1[t])*deg: 0, d=std::max(prev-ph,1.0); prev=ph; double k= d>1? std::max(fast/d,slow): fast; a=k*x[t]+(1-k)*a; b=0.5*k*a+(1-0.5*k)*b; m[t]=a; f[t]=b; } return {m,f}; }
  // dominant cycle phase of every bar
  std::vector<double> phase(const S&x,const HT&h)const{ int n=x.n(); std::vector<double> r(n,0.0); double ph=0; const double deg=45/atan(1.0),two=8*atan(1.0);
    for(int t=h.a+h.w;t<n;t++){ int d=(int)(h.sp[t]+0.5); double re=0,im=0,sr=0; for(int i=0;i<d;i++){ double v= t-i>=h.a+h.w? h.sm[t-i]: 0, a=i*two/d; re+=sin(a)*v; im+=cos(a)*v; sr+=fabs(v); } re=nz(re,sr,t,1); im=nz(im,sr,t,4);
      if(fabs(im)>0) ph=atan(re/im)*deg; else ph+= re<0?-90: re>0?90: 0; ph+=90; ph+=360/h.sp[t]; if(im<0) ph+=180; if(ph>315) ph-=360; r[t]=ph; } return r; }
  std::vector<double> trend(const S&x,const HT&h)const{ int n=x.n(); std::vector<double> r(n,0.0); double a=0,b=0,c=0; for(int t=h.a+h.w;t<n;t++){ int d=(int)(h.sp[t]+0.5); double v=0; for(int i=0;i<d;i++) v+=x[t-i]; if(d) v/=d; r[t]=(4*v+3*a+2*b+c)/10; c=b; b=a; a=v; } return r; }
  // ---- parabolic stop and reverse: two-sided form
  S sar(const S&h,const S&l,int s,double start,double off,double iL,double aL,double mL,double iS,double aS,double mS,bool sign)const{ int n=h.n(); S r(n,std::max(s,1)); if(r.b>=n) return r; iL=std::min(iL,mL); aL=std::min(aL,mL); iS=std::min(iS,mS); aS=std::min(aS,mS);
    int t=r.b; bool lng= start>0||(start==0&&!(mdm(h,l,t)>0)); double ep=lng?h[t]:l[t], x= start!=0? fabs(start): lng? l[t-1]: h[t-1], af=lng?iL:iS;
    for(;t<n;t++){ int q=t==r.b?t:t-1; double hi=std::max(h[q],h[t]),lo=std::min(l[q],l[t]);
      if(lng){ if(l[t]<=x){ lng=false; x=std::max(ep,hi); x+=x*off; r[t]=sign?-x:x; af=iS; ep=l[t]; x=std::max(x+af*(ep-x),hi); }
        else { r[t]=x; if(h[t]>ep){ ep=h[t]; af=std::min(af+aL,mL); } x=std::min(x+af*(ep-x),lo); } }
      else { if(h[t]>=x){ lng=true; x=std::min(ep,lo); x-=x*off; r[t]=x; af=iL; ep=h[t]; x=std::min(x+af*(ep-x),lo); }
        else { r[t]=sign?-x:x; if(l[t]<ep){ ep=l[t]; af=std::min(af+aS,mS); } x=std::max(x+af*(ep-x),hi); } } }
    return r; }
  // macd from two averages of the price and a signal average of their difference
  void macd(RO&o,const S&x,int s,int lf,int ls,int lsig,std::function<S(const S&,int)> fast,std::function<S(const S&,int)> slow,std::function<S(const S&,int)> sig)const{
    int t=std::max(s,std::max(lf,ls)+lsig); S f=fast(x,t-lsig),g=slow(x,t-lsig); S m=each(x,0,t-lsig,[&](int i){return f[i]-g[i];}),q=sig(m,m.b); o.b=t; o.o[0]=m; o.o[1]=q; o.o[2]=each(q,0,t,[&](int i){return q[i]==SKIPV?SKIPV:m[i]-q[i];}); }
};
// evaluates function f for a request starting at bar s; false when there is no definition for f
bool ref_eval(const FD&f,const Cfg&c,const double*const*in,int n,int s,RO&o,double noise=0,int seed=0);
double ref_tol(const FD&f,const Cfg&c);
bool ref_noisy(const FD&f,const Cfg&c);       // needs the conditioning run
