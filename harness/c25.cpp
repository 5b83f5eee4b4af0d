// C25: another currency or volume unit, or another price level, changes the results only by that unit or level.
#include "sym.h"
using namespace sym;
namespace {
struct U { int price,second,vol; double lift; };
void scale(const FD&f,Hist&h,const U&u){ for(auto&b:h){ for(int k=0;k<4;k++) b.v[k]=ldexp(b.v[k],u.price)+u.lift; b.v[6]=ldexp(b.v[6],u.price)+u.lift; b.v[8]=ldexp(b.v[8],u.second)+u.lift; b.v[4]=ldexp(b.v[4],u.vol); b.v[5]=ldexp(b.v[5],u.vol); } }
std::vector<U> units(const FD&f,int tier){ std::vector<U> r; bool vol=false; for(int k=0;k<f.nin;k++) vol|=slot(f,k)==4; int lo=lowest(f);
  if(!unitless_input(f)){ for(int a:{-26,14,-12,-6,30}) if(a>=lo&&(!(f.flags&F_CANDLE)||tier||r.size()<2)) r.push_back({a,a,0,0}); if(second(f)!=100&&f.nin>1) for(int a:{-20,14}) if(a>=lo){ r.push_back({0,a,0,0}); r.push_back({a,0,0,0}); }
    if(vol){ for(int b:{-20,24}) if(b>0||!is(f,"MFI")) r.push_back({0,0,b,0}); if(!is(f,"MFI")) r.push_back({-12,-12,24,0}); else r.push_back({12,12,24,0}); } }
  if((f.flags&F_CANDLE)) for(double l:{64.0,-32.0}) r.push_back({0,0,0,l}); else r.push_back({0,0,0,64.0}); return r; }
// first bar at which a decaying sum of past movement (Wilder smoothing) comes near the library's zero threshold in the smaller unit
int faded(const FD&f,const Cfg&c,const Data&d,int e){ if(e>=0||!in(f,"ADX ADXR DX PLUS_DI MINUS_DI CMO RSI STOCHRSI")) return d.n; double p=std::max(1.0,c.o[0]),w=0; for(int i=1;i<d.n;i++){ double mv= f.nin==1? fabs(d.p[0][i]-d.p[0][i-1]): std::max(std::max(d.p[0][i]-d.p[1][i],fabs(d.p[2][i-1]-d.p[0][i])),fabs(d.p[2][i-1]-d.p[1][i])); w=w*(p-1)/p+mv/p; if(w>0&&ldexp(w,e)<1e-13) return i; } return d.n; }
// CCI over a constant window: zero over zero up to rounding, told apart by the absolute threshold
bool flat_cci(const FD&f,const Cfg&c,const Data&d,int bar){ if(!is(f,"CCI")) return false; double lo=1e300,hi=-1e300; for(int i=std::max(0,bar-(int)c.o[0]+1);i<=bar;i++){ double t=d.p[0][i]+d.p[1][i]+d.p[2][i]; lo=std::min(lo,t); hi=std::max(hi,t); } return hi-lo<=1e-9*fabs(hi); }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0) continue; auto us=units(f,x.tier); Runs a(f,x),b(f,x);
    auto one=[&](const Hist&h,int e){ a.go(c,h,e); for(auto&u:us){ if(u.lift){ bool any=false; for(int k=0;k<f.nout;k++) any|=level(f,c,k)!=0; if(!any||e==1) continue; }
        Hist g=h; scale(f,g,u); Cfg cc=c; if(is(f,"SAREXT")) cc.o[0]=ldexp(cc.o[0],u.price); std::string id=cfgstr(f,c)+fmt(" %s prices x 2^%d (second series x 2^%d) volumes x 2^%d level %+g",ename(e),u.price,u.second,u.vol,u.lift); if(x.trace) x.step(id+" "+histstr(f,h));
        int fade=faded(f,c,a.d,u.price); b.go(cc,g,e); x.cov.traces++; x.cov.states++; if(a.rc!=b.rc||a.b!=b.b||a.m!=b.m){ x.viol(fmt("%s:window",f.name),id+fmt(": rc %d begIdx %d nb %d, was %d %d %d on ",b.rc,b.b,b.m,a.rc,a.b,a.m)+histstr(f,h)); return false; }
        for(int k=0;k<f.nout;k++){ int lv=u.lift?level(f,c,k):0; if(u.lift&&!lv) continue; bool two=second(f)!=100&&f.nin>1; int p2=price2(f),ex= is(f,"DIV")? u.price-u.second: is(f,"MULT")? u.price+u.second: p2*u.price/2+volume1(f)*u.vol; (void)two;
          for(int i=0;i<a.m&&a.b+i<fade;i++){ double v=a.o.get(f,k,i),w=b.o.get(f,k,i),back= u.lift? w-(lv==2?u.lift:0): ldexp(w,-ex);
            if(near(v,back,u.lift? 1e-8: 1e-10)) continue;
            if(a.b+i>=illcond_from(f,c,a.d)||rounding_only(f,c,a.d,0,a.b+i,k,v,back)||(u.lift&&rounding_only(f,c,b.d,0,a.b+i,k,v,back))||flat_cci(f,c,a.d,a.b+i)){ x.note("differences_by_rounding_alone"); continue; }
            x.viol(fmt("%s:%s",f.name,u.lift?"level":"unit"),id+fmt(": output %d bar %d is %.17g where %.17g belongs on ",k,a.b+i,w,u.lift? v+(lv==2?u.lift:0): ldexp(v,ex))+histstr(f,h)); return false; } } }
      return true; };
    for(int e=0;e<3;e++){ bool ok=true; histories(f,c,x,lb,e?2:x.tier?0:1,[&](const Hist&h){ return ok=one(h,e); }); if(!ok) break; } x.sample(cfgstr(f,c)+fmt(": %zu changes of unit or level",us.size())); } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; if(!strcmp(f.group,"Math Transform")&&!is(f,"SQRT")) continue; auto a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); if((f.flags&F_CANDLE)&&!tier) a=cfgs_life(f,0,6); int st=f.flags&F_CANDLE?1:6; for(size_t k=0;k<a.size();k+=st){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+st)); J.push_back({fmt("%s/unit/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C25","model_checking","states = (function, parameters/settings, history, change of unit or level) combinations; transitions = calls; traces = pairs of runs compared value by value",gen,
 {"scales are powers of two, so that every operation is exact up to the unit and results agree to 1e-10; price levels to 1e-8","angles, exponentials, logarithms and roundings (Math Transform except SQRT; LINEARREG_ANGLE) have no unit","quantities below the library's zero threshold 1e-14 count as zero and MFI counts a money flow below 1 as none, by definition: scales stay above that","values that hang on rounding alone are not judged"},
 "every word over 2-6 bar alphabets, 10 base histories and their single-bar deviations, every deviation of the committed candle patterns x up to 8 changes of unit (prices 2^-26..2^30, volumes 2^-20..2^24) and level x all parameter/settings combinations of both domains; the single-precision and streaming entry points over shorter words and the plain base histories and patterns"});
}
