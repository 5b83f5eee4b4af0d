#include "ref.h"
typedef void (*Fn)(const Ref&,const FD&,const double*P,const std::vector<S>&I,int n,int s,RO&o);
#define R(name) static void d_##name(const Ref&r,const FD&f,const double*P,const std::vector<S>&I,int n,int s,RO&o)
#define X I[0]
#define TP ((int)P[0])
#define ONE(E) { o.o[0]=E; o.b=o.o[0].b; }
#define EACH(lb,body) ONE(Ref::each(X,lb,s,[&](int i)->double{ body }))
// price transforms
R(AVGPRICE) EACH(0,return (I[0][i]+I[1][i]+I[2][i]+I[3][i])/4;)
R(MEDPRICE) EACH(0,return (I[0][i]+I[1][i])/2;)
R(TYPPRICE) EACH(0,return (I[0][i]+I[1][i]+I[2][i])/3;)
R(WCLPRICE) EACH(0,return (I[0][i]+I[1][i]+2*I[2][i])/4;)
R(BOP) EACH(0,double d=I[1][i]-I[2][i]; return Ref::ZN(d)?0:(I[3][i]-I[0][i])/d;)
R(TRANGE) EACH(1,return Ref::tr(I[0],I[1],I[2],i);)
// operators, transforms
R(ADD) EACH(0,return I[0][i]+I[1][i];)
R(SUB) EACH(0,return I[0][i]-I[1][i];)
R(MULT) EACH(0,return I[0][i]*I[1][i];)
R(DIV) EACH(0,return I[0][i]/I[1][i];)
#define TRF(N,F) R(N) EACH(0,return F(X[i]);)
TRF(ACOS,acos) TRF(ASIN,asin) TRF(ATAN,atan) TRF(CEIL,ceil) TRF(COS,cos) TRF(COSH,cosh) TRF(EXP,exp) TRF(FLOOR,floor) TRF(LN,log) TRF(LOG10,log10) TRF(SIN,sin) TRF(SINH,sinh) TRF(SQRT,sqrt) TRF(TAN,tan) TRF(TANH,tanh)
// windows
R(SUM) EACH(TP-1,return Ref::sumw(X,i,TP);)
R(MAX) EACH(TP-1,return Ref::maxw(X,i,TP);)
R(MIN) EACH(TP-1,return Ref::minw(X,i,TP);)
R(MAXINDEX) EACH(TP-1,return Ref::maxi(X,i,TP);)
R(MININDEX) EACH(TP-1,return Ref::mini(X,i,TP);)
R(MINMAX){ d_MIN(r,f,P,I,n,s,o); RO q; d_MAX(r,f,P,I,n,s,q); o.o[1]=q.o[0]; }
R(MINMAXINDEX){ d_MININDEX(r,f,P,I,n,s,o); RO q; d_MAXINDEX(r,f,P,I,n,s,q); o.o[1]=q.o[0]; }
R(MIDPOINT) EACH(TP-1,return (Ref::maxw(X,i,TP)+Ref::minw(X,i,TP))/2;)
R(MIDPRICE) EACH(TP-1,return (Ref::maxw(I[0],i,TP)+Ref::minw(I[1],i,TP))/2;)
R(WILLR) EACH(TP-1,double H=Ref::maxw(I[0],i,TP); double L=Ref::minw(I[1],i,TP); return H==L?0:-100*(H-I[2][i])/(H-L);)
R(AROON){ o.o[0]=Ref::each(X,TP,s,[&](int i){return 100.0*(TP-(i-Ref::mini(I[1],i,TP+1)))/TP;}); o.o[1]=Ref::each(X,TP,s,[&](int i){return 100.0*(TP-(i-Ref::maxi(I[0],i,TP+1)))/TP;}); o.b=o.o[0].b; }
R(AROONOSC) EACH(TP,return 100.0*(Ref::maxi(I[0],i,TP+1)-Ref::mini(I[1],i,TP+1))/TP;)
R(MOM) EACH(TP,return X[i]-X[i-TP];)
R(ROC) EACH(TP,return X[i-TP]!=0?(X[i]/X[i-TP]-1)*100:0;)
R(ROCP) EACH(TP,return X[i-TP]!=0?(X[i]-X[i-TP])/X[i-TP]:0;)
R(ROCR) EACH(TP,return X[i-TP]!=0?X[i]/X[i-TP]:0;)
R(ROCR100) EACH(TP,return X[i-TP]!=0?X[i]/X[i-TP]*100:0;)
static double var(const S&x,int i,int p){ double m=Ref::sumw(x,i,p)/p,t=0; for(int j=i-p+1;j<=i;j++) t+=(x[j]-m)*(x[j]-m); return t/p; }
R(VAR) EACH(TP-1,return var(X,i,TP);)
R(STDDEV) EACH(TP-1,double v=var(X,i,TP); return Ref::ZN(v)?0:sqrt(v)*P[1];)
R(AVGDEV) EACH(TP-1,double m=Ref::sumw(X,i,TP)/TP; double t=0; for(int j=i-TP+1;j<=i;j++) t+=fabs(X[j]-m); return t/TP;)
R(CCI){ S t=Ref::each(X,0,0,[&](int i){return (I[0][i]+I[1][i]+I[2][i])/3;}); EACH(TP-1,double m=Ref::sumw(t,i,TP)/TP; double d=0; for(int j=i-TP+1;j<=i;j++) d+=fabs(t[j]-m); double q=t[i]-m; if(fabs(q)<1e-9*std::max(1.0,fabs(t[i]))||fabs(d)<1e-9*std::max(1.0,fabs(t[i]))){ bool flat=true; for(int j=i-TP+1;j<=i;j++) flat&=t[j]==t[i]; if(!flat&&d>1e-6) return 0.0; return flat? 0.0: SKIPV; } return q/(0.015*(d/TP));) }
R(LINEARREG) EACH(TP-1,double m; double b; Ref::line(X,i,TP,m,b); return b+m*(TP-1);)
R(TSF) EACH(TP-1,double m; double b; Ref::line(X,i,TP,m,b); return b+m*TP;)
R(LINEARREG_INTERCEPT) EACH(TP-1,double m; double b; Ref::line(X,i,TP,m,b); return b;)
R(LINEARREG_SLOPE) EACH(TP-1,double m; double b; Ref::line(X,i,TP,m,b); return m;)
R(LINEARREG_ANGLE) EACH(TP-1,double m; double b; Ref::line(X,i,TP,m,b); return atan(m)*(180/3.14159265358979323846);)
R(CORREL) EACH(TP-1,double mx=Ref::sumw(I[0],i,TP)/TP; double my=Ref::sumw(I[1],i,TP)/TP; double xy=0; double xx=0; double yy=0; bool fx=true; bool fy=true; for(int j=i-TP+1;j<=i;j++){ double a=I[0][j]-mx; double b=I[1][j]-my; xy+=a*b; xx+=a*a; yy+=b*b; fx&=I[0][j]==I[0][i]; fy&=I[1][j]==I[1][i]; } if(fx||fy) return 0.0; if(xx*yy<1e-9) return SKIPV; return xy/sqrt(xx*yy);)
R(BETA){ auto ret=[&](const S&x,int i){ return Ref::Z(x[i-1])?0.0:(x[i]-x[i-1])/x[i-1]; }; EACH(TP,double mx=0; double my=0; bool flat=true; for(int j=i-TP+1;j<=i;j++){ mx+=ret(I[0],j); my+=ret(I[1],j); flat&=ret(I[0],j)==0; } if(flat){ for(int j=1;j<=i;j++) if(ret(I[0],j)!=0) return SKIPV; return 0.0; } mx/=TP; my/=TP; double xy=0; double xx=0; for(int j=i-TP+1;j<=i;j++){ double a=ret(I[0],j)-mx; xy+=a*(ret(I[1],j)-my); xx+=a*a; } if(TP==1) return 0.0; double big=0; for(int j=1;j<=i;j++) big=std::max(big,fabs(ret(I[0],j))); if(TP*xx<1e-5||xx<1e-7*big*big) return SKIPV; return xy/xx;) }
R(IMI) EACH(TP-1+r.e.U,double u=0; double d=0; for(int j=i-TP+1;j<=i;j++){ double q=I[1][j]-I[0][j]; if(q>0) u+=q; else d-=q; } return Ref::Z(u+d)?0:100*u/(u+d);)
R(MFI){ S t=Ref::each(X,0,0,[&](int i){return (I[0][i]+I[1][i]+I[2][i])/3;}); EACH(TP+r.e.U,double u=0; double d=0; for(int j=i-TP+1;j<=i;j++){ double q=t[j]*I[3][j]; if(t[j]>t[j-1]) u+=q; else if(t[j]<t[j-1]) d+=q; } return u+d<1?0:100*u/(u+d);) }
R(ULTOSC){ int p[3]={(int)P[0],(int)P[1],(int)P[2]}; std::sort(p,p+3); EACH(p[2],double out=0; for(int k=0;k<3;k++){ double a=0; double b=0; for(int j=i-p[k]+1;j<=i;j++){ a+=I[2][j]-std::min(I[1][j],I[2][j-1]); b+=Ref::tr(I[0],I[1],I[2],j); } if(!Ref::Z(b)) out+=(4>>k)*(a/b); } return 100*out/7;) }
R(ACCBANDS){ S u=Ref::each(X,0,0,[&](int i){ double q=I[0][i]+I[1][i]; return Ref::Z(q)?I[0][i]:I[0][i]*(1+4*(I[0][i]-I[1][i])/q); }),l=Ref::each(X,0,0,[&](int i){ double q=I[0][i]+I[1][i]; return Ref::Z(q)?I[1][i]:I[1][i]*(1-4*(I[0][i]-I[1][i])/q); });
  o.o[0]=Ref::sma(u,TP,s); o.o[1]=Ref::sma(I[2],TP,s); o.o[2]=Ref::sma(l,TP,s); o.b=o.o[0].b; }
// cumulative
static double adf(const std::vector<S>&I,int i){ double h=I[0][i],l=I[1][i],c=I[2][i]; return h>l? ((c-l)-(h-c))/(h-l)*I[3][i]: 0; }
R(AD){ double t=0; EACH(0,return t+=adf(I,i);) }
R(OBV){ double t=0; EACH(0,if(i==s) t=I[1][i]; else if(X[i]>X[i-1]) t+=I[1][i]; else if(X[i]<X[i-1]) t-=I[1][i]; return t;) }
R(NVI){ double t=100; EACH(1,if(I[1][i]<I[1][i-1]) t*=X[i]/X[i-1]; return t;) }
R(PVI){ double t=100; EACH(1,if(I[1][i]>I[1][i-1]) t*=X[i]/X[i-1]; return t;) }
R(PVT){ double t=0; EACH(1,t+=I[1][i]*((X[i]/X[i-1])-1); return t;) }
R(ADOSC){ int p=(int)P[0],q=(int)P[1],lb=std::max(p,q)-1+r.e.U; int b=std::max(s,lb),a=b-lb; o.b=b; o.o[0]=S(n,b); if(b>=n) return; double t=0,k=2.0/(p+1),m=2.0/(q+1),f1=0,s1=0; for(int i=a;i<n;i++){ t+=adf(I,i); if(i==a) f1=s1=t; else { f1=k*t+(1-k)*f1; s1=m*t+(1-m)*s1; } o.o[0][i]=f1-s1; } }
// moving averages
R(SMA) ONE(Ref::sma(X,TP,s))
R(WMA) ONE(Ref::wma(X,TP,s))
R(TRIMA) ONE(Ref::trima(X,TP,s))
R(EMA) ONE(r.ema(X,TP,s))
R(WLMA) ONE(r.wlma(X,TP,s))
R(DEMA) ONE(r.dema(X,TP,s))
R(TEMA) ONE(r.tema(X,TP,s))
R(T3) ONE(r.t3(X,TP,P[1],s))
R(KAMA) ONE(r.kama(X,TP,s))
R(MA) ONE(r.ma(X,(int)P[1],TP,s))
R(MAMA){ auto q=r.mama(X,P[0],P[1],s); o.o[0]=q.first; o.o[1]=q.second; o.b=q.first.b; }
R(MAVP){ int lo=(int)P[0],hi=(int)P[1],ty=(int)P[2]; int b=std::max(s,r.malb(ty,hi)); o.b=b; o.o[0]=S(n,b); std::map<int,S> m; for(int i=b;i<n;i++){ int p=(int)I[1][i]; if(p<lo) p=lo; if(p>hi) p=hi; auto it=m.find(p); if(it==m.end()) it=m.emplace(p,r.ma(X,ty,p,b)).first; o.o[0][i]=it->second[i]; } }
R(BBANDS){ int ty=(int)P[3]; S m=r.ma(X,ty,TP,s); int b=std::max(m.b,TP-1); o.b=b; for(int k=0;k<3;k++) o.o[k]=S(n,b); for(int i=b;i<n;i++){ double v=var(X,i,TP),d=Ref::ZN(v)?0:sqrt(v); o.o[0][i]=m[i]+P[1]*d; o.o[1][i]=m[i]; o.o[2][i]=m[i]-P[2]*d; } }
R(APO){ int a=(int)P[0],b=(int)P[1]; if(a>b) std::swap(a,b); S F=r.ma(X,(int)P[2],a,s),G=r.ma(X,(int)P[2],b,s); ONE(Ref::each(G,0,G.b,[&](int i){return F[i]-G[i];})) }
R(PPO){ int a=(int)P[0],b=(int)P[1]; if(a>b) std::swap(a,b); S F=r.ma(X,(int)P[2],a,s),G=r.ma(X,(int)P[2],b,s); ONE(Ref::each(G,0,G.b,[&](int i){ if(G[i]!=0&&fabs(G[i])<1e-9) return SKIPV; return G[i]==0?0.0:(F[i]-G[i])/G[i]*100;})) }
R(TRIX){ int l=TP-1+r.e.U; int t=std::max(s,3*l+1); S a=r.ema(X,TP,t-1-2*l),b=r.ema(a,TP,a.b),c=r.ema(b,TP,b.b); ONE(Ref::each(c,1,t,[&](int i){ if(c[i-1]!=0&&fabs(c[i-1])<1e-9) return SKIPV; return c[i-1]!=0?(c[i]/c[i-1]-1)*100:0.0; })) }
static void macd(const Ref&r,RO&o,const S&x,int s,int p,double kp,int q,double kq,int g){ int U=r.e.U; if(p>q){ std::swap(p,q); std::swap(kp,kq); } r.macd(o,x,s,p-1+U,q-1+U,g-1+U,[&](const S&y,int t){return r.expo(y,p,kp,t,U,r.e.ms);},[&](const S&y,int t){return r.expo(y,q,kq,t,U,r.e.ms);},[&](const S&y,int t){return r.ema(y,g,t);}); }
R(MACD){ macd(r,o,X,s,(int)P[0],2.0/(P[0]+1),(int)P[1],2.0/(P[1]+1),(int)P[2]); }
R(MACDFIX){ macd(r,o,X,s,12,0.15,26,0.075,TP); }
R(MACDEXT){ int p=(int)P[0],pt=(int)P[1],q=(int)P[2],qt=(int)P[3],g=(int)P[4],gt=(int)P[5]; if(p>q){ std::swap(p,q); std::swap(pt,qt); } r.macd(o,X,s,r.malb(pt,p),r.malb(qt,q),r.malb(gt,g),[&](const S&y,int t){return r.ma(y,pt,p,t);},[&](const S&y,int t){return r.ma(y,qt,q,t);},[&](const S&y,int t){ S m=r.ma(y,gt,g,t); if(g>1&&(gt==6||gt==7)) for(int i=m.b;i<n;i++) m[i]=SKIPV; return m;}); if(g>1&&(gt==6||gt==7)) o.o[2]=o.o[1]; }
R(RSI) ONE(r.rsi(X,TP,s,true))
R(CMO) ONE(r.rsi(X,TP,s,false))
// MAMA and KAMA of a computed series amplify its last bits: their place is judged, their values are left to the composition identities (C14)
static S dma(const Ref&r,const S&x,int type,int p){ S m=r.ma(x,type,p,x.b); if(p>1&&(type==6||type==7)) for(int i=m.b;i<m.n();i++) m[i]=SKIPV; return m; }
static void stochf(const Ref&r,const S&h,const S&l,const S&c,int k,int d,int dt,int s,RO&o){ int lb=r.malb(dt,d); int t=std::max(s,h.b+k-1+lb); S raw=r.fastk(h,l,c,k,t-lb); o.o[1]=dma(r,raw,dt,d); o.o[0]=raw; o.b=t; }
R(STOCHF){ stochf(r,I[0],I[1],I[2],(int)P[0],(int)P[1],(int)P[2],s,o); }
R(STOCHRSI){ int k=(int)P[1],d=(int)P[2],dt=(int)P[3]; int lf=k-1+r.malb(dt,d),lr=TP+r.e.U-(r.e.ms?1:0); int t=std::max(s,lf+lr); S q=r.rsi(X,TP,t-lf,true); stochf(r,q,q,q,k,d,dt,q.b,o); }
R(STOCH){ int k=(int)P[0],a=(int)P[1],at=(int)P[2],d=(int)P[3],dt=(int)P[4]; int la=r.malb(at,a),ld=r.malb(dt,d); int t=std::max(s,k-1+la+ld); S raw=r.fastk(I[0],I[1],I[2],k,t-la-ld),K=dma(r,raw,at,a); o.o[0]=K; o.o[1]=dma(r,K,dt,d); if(a>1&&(at==6||at==7)) for(int i=o.o[1].b;i<n;i++) o.o[1][i]=SKIPV; o.b=t; }
// ranges, directional movement
R(ATR) ONE(r.atr(I[0],I[1],I[2],TP,s))
R(NATR){ S a=r.atr(I[0],I[1],I[2],TP,s); ONE(Ref::each(a,0,a.b,[&](int i){return Ref::Z(I[2][i])?0:a[i]/I[2][i]*100;})) }
static void dmone(const Ref&r,const std::vector<S>&I,int n,int s,int p,RO&o,bool plus){ auto d=[&](int i){return plus?Ref::pdm(I[0],I[1],i):Ref::mdm(I[0],I[1],i);}; if(p<=1){ o.o[0]=Ref::each(I[0],1,s,[&](int i){return d(i);}); o.b=o.o[0].b; return; } int lb=p-1+r.e.U; o.b=std::max(s,lb); o.o[0]=o.b<n? Ref::wsum(n,o.b-lb,p,d): S(n,o.b); }
R(PLUS_DM){ dmone(r,I,n,s,TP,o,true); }
R(MINUS_DM){ dmone(r,I,n,s,TP,o,false); }
static void dione(const Ref&r,const std::vector<S>&I,int n,int s,int p,RO&o,bool plus){ auto d=[&](int i){return plus?Ref::pdm(I[0],I[1],i):Ref::mdm(I[0],I[1],i);}; auto t=[&](int i){return Ref::tr(I[0],I[1],I[2],i);}; if(p<=1){ o.o[0]=Ref::each(I[0],1,s,[&](int i){return d(i)>0&&!Ref::Z(t(i))?d(i)/t(i):0;}); o.b=o.o[0].b; return; }
  int lb=p+r.e.U; o.b=std::max(s,lb); o.o[0]=S(n,o.b); if(o.b>=n) return; S D=Ref::wsum(n,o.b-lb,p,d),T=Ref::wsum(n,o.b-lb,p,t); for(int i=o.b;i<n;i++) o.o[0][i]=Ref::Z(T[i])?0:100*(D[i]/T[i]); }
R(PLUS_DI){ dione(r,I,n,s,TP,o,true); }
R(MINUS_DI){ dione(r,I,n,s,TP,o,false); }
R(DX){ int p=TP,lb=p+r.e.U; o.b=std::max(s,lb); o.o[0]=S(n,o.b); if(o.b>=n) return; int a=o.b-lb; S D=Ref::wsum(n,a,p,[&](int i){return Ref::pdm(I[0],I[1],i);}),M=Ref::wsum(n,a,p,[&](int i){return Ref::mdm(I[0],I[1],i);}),T=Ref::wsum(n,a,p,[&](int i){return Ref::tr(I[0],I[1],I[2],i);}); double v=0; for(int i=o.b;i<n;i++) o.o[0][i]=v=Ref::dxv(D[i],M[i],T[i],v); }
R(ADX) ONE(r.adx(I[0],I[1],I[2],TP,s))
R(ADXR){ int lb=2*TP+r.e.U-1+TP-1; int t=std::max(s,lb); S a=r.adx(I[0],I[1],I[2],TP,t-(TP-1)); ONE(Ref::each(a,TP-1,t,[&](int i){return (a[i]+a[i-(TP-1)])/2;})) }
R(SAR) ONE(r.sar(I[0],I[1],s,0,0,P[0],P[0],P[1],P[0],P[0],P[1],false))
R(SAREXT) ONE(r.sar(I[0],I[1],s,P[0],P[1],P[2],P[3],P[4],P[5],P[6],P[7],true))
// Hilbert
#define HTW(LB,W) int lb=LB+r.e.U; o.b=std::max(s,lb); for(int k=0;k<f.nout;k++) o.o[k]=S(n,o.b); if(o.b>=n) return; Ref::HT h=r.ht(X,o.b-lb,W);
R(HT_DCPERIOD){ HTW(32,12) o.o[0].v=h.sp; }
R(HT_PHASOR){ HTW(32,12) o.o[0].v=h.i1; o.o[1].v=h.q1; }
R(HT_DCPHASE){ HTW(63,37) o.o[0].v=r.phase(X,h); }
R(HT_SINE){ HTW(63,37) auto p=r.phase(X,h); const double rad=atan(1.0)/45; for(int i=o.b;i<n;i++){ o.o[0][i]=sin(p[i]*rad); o.o[1][i]=sin((p[i]+45)*rad); } }
R(HT_TRENDLINE){ HTW(63,37) o.o[0].v=r.trend(X,h); }
R(HT_TRENDMODE){ HTW(63,37) auto p=r.phase(X,h),tl=r.trend(X,h); const double rad=atan(1.0)/45; double ps=0,pl=0,pp=0; int days=0; for(int i=h.a+h.w;i<n;i++){ double a=sin(p[i]*rad),b=sin((p[i]+45)*rad); int t=1; if((a>b&&ps<=pl)||(a<b&&ps>=pl)){ days=0; t=0; } days++; if(days<0.5*h.sp[i]) t=0; double d=p[i]-pp; if(h.sp[i]!=0&&d>0.67*360/h.sp[i]&&d<1.5*360/h.sp[i]) t=0; if(tl[i]!=0&&fabs((h.sm[i]-tl[i])/tl[i])>=0.015) t=1; o.o[0][i]=t; ps=a; pl=b; pp=p[i]; } }
static const struct { const char*n; Fn f; } TAB[]={
#define T(n) {#n,d_##n},
T(AVGPRICE)T(MEDPRICE)T(TYPPRICE)T(WCLPRICE)T(BOP)T(TRANGE)T(ADD)T(SUB)T(MULT)T(DIV)T(ACOS)T(ASIN)T(ATAN)T(CEIL)T(COS)T(COSH)T(EXP)T(FLOOR)T(LN)T(LOG10)T(SIN)T(SINH)T(SQRT)T(TAN)T(TANH)
T(SUM)T(MAX)T(MIN)T(MAXINDEX)T(MININDEX)T(MINMAX)T(MINMAXINDEX)T(MIDPOINT)T(MIDPRICE)T(WILLR)T(AROON)T(AROONOSC)T(MOM)T(ROC)T(ROCP)T(ROCR)T(ROCR100)T(VAR)T(STDDEV)T(AVGDEV)T(CCI)T(LINEARREG)T(TSF)T(LINEARREG_INTERCEPT)T(LINEARREG_SLOPE)T(LINEARREG_ANGLE)T(CORREL)T(BETA)T(IMI)T(MFI)T(ULTOSC)T(ACCBANDS)
T(AD)T(OBV)T(NVI)T(PVI)T(PVT)T(ADOSC)T(SMA)T(WMA)T(TRIMA)T(EMA)T(WLMA)T(DEMA)T(TEMA)T(T3)T(KAMA)T(MA)T(MAMA)T(MAVP)T(BBANDS)T(APO)T(PPO)T(TRIX)T(MACD)T(MACDFIX)T(MACDEXT)T(RSI)T(CMO)T(STOCHF)T(STOCHRSI)T(STOCH)T(ATR)T(NATR)T(PLUS_DM)T(MINUS_DM)T(PLUS_DI)T(MINUS_DI)T(DX)T(ADX)T(ADXR)T(SAR)T(SAREXT)T(HT_DCPERIOD)T(HT_PHASOR)T(HT_DCPHASE)T(HT_SINE)T(HT_TRENDLINE)T(HT_TRENDMODE)
};
bool ref_eval(const FD&f,const Cfg&c,const double*const*in,int n,int s,RO&o,double noise,int seed){ static std::map<const FD*,Fn> m; if(m.empty()) for(auto&t:TAB) m[&FTAB[fidx(t.n)]]=t.f; auto it=m.find(&f); if(it==m.end()) return false;
  Ref r; r.e.U=c.unst; r.e.ms=c.compat==1; r.e.noise=noise; r.e.seed=seed; std::vector<S> I; for(int k=0;k<f.nin;k++) I.push_back(Ref::in(in[k],n)); for(auto&x:o.o) x=S(); it->second(r,f,c.o,I,n,s,o); return true; }
double ref_tol(const FD&f,const Cfg&c){ return is(f,"BETA")?1e-6:1e-8; }
bool ref_noisy(const FD&f,const Cfg&c){ if(!strncmp(f.name,"HT_",3)||is(f,"MAMA")) return true; if(!strncmp(f.name,"STOCH",5)) return false; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2&&c.o[i]==7) return true; return false; }
