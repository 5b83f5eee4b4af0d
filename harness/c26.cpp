// C26: the mirror image of a market (every price negated) gives the mirrored result.
#include "sym.h"
using namespace sym;
namespace {
bool still(const Cfg&c,const Data&d,int bar){ for(int k=0;k<3;k++){ double t=0; for(int i=std::max(1,bar-(int)c.o[k]+1);i<=bar;i++) t+=std::max(d.p[0][i],d.p[2][i-1])-std::min(d.p[1][i],d.p[2][i-1]); if(t<=1e-12) return true; } return false; }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0) continue; std::vector<M> ms; for(int k=0;k<f.nout;k++) ms.push_back(mirror(f,k)); const FD&g=FTAB[fidx(ms[0].g)]; Runs a(f,x),b(g,x);
    Cfg cc=c; if(is(f,"BBANDS")) std::swap(cc.o[1],cc.o[2]);
    auto one=[&](const Hist&h,int e){ if(ms[0].coloured) for(auto&q:h) if(q.v[0]==q.v[3]) return true;
      std::string id=cfgstr(f,c)+" "+ename(e)+fmt(" against %s of the mirror image",g.name); if(x.trace) x.step(id+" "+histstr(f,h)); Hist q=h; for(auto&y:q){ double hi=y.v[1]; y.v[0]=-y.v[0]; y.v[1]=-y.v[2]; y.v[2]=-hi; y.v[3]=-y.v[3]; y.v[6]=-y.v[6]; y.v[8]=-y.v[8]; }
      a.go(c,h,e); b.go(cc,q,e); x.cov.states++; x.cov.traces++; if(a.rc!=b.rc||a.b!=b.b||a.m!=b.m){ x.viol(fmt("%s:window",f.name),id+fmt(": rc %d begIdx %d nb %d, against %d %d %d on ",b.rc,b.b,b.m,a.rc,a.b,a.m)+histstr(f,h)); return false; }
      for(int k=0;k<f.nout;k++) for(int i=0;i<a.m;i++){ double v=a.o.get(f,k,i),w=b.o.get(g,ms[k].q,i); int r=ms[k].rel; double want= r==NEG? -v: r==COMPL? 100-v: r==NCOMPL? -100-v: v; if(near(w,want,1e-9)) continue;
        if((w==0&&v==0&&(r==COMPL||r==NCOMPL))||(is(f,"ULTOSC")&&still(c,a.d,a.b+i))) continue;                  // nothing moved: 0 by convention
        if(a.b+i>=illcond_from(f,c,a.d)||rounding_only(f,c,a.d,0,a.b+i,k,want,w)){ x.note("differences_by_rounding_alone"); continue; }
        x.viol(fmt("%s:mirror",f.name),id+fmt(": output %d bar %d is %.17g; on the mirror image %.17g instead of %.17g on ",k,a.b+i,v,w,want)+histstr(f,h)); return false; }
      return true; };
    for(int e=0;e<3;e++){ bool ok=true; histories(f,c,x,lb,e?2:0,[&](const Hist&h){ return ok=one(h,e); }); if(!ok) break; } x.sample(cfgstr(f,c)+" and "+g.name+" of the mirror image"); } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; if(!strcmp(f.group,"Math Transform")||mirror(f,0).rel==NONE) continue; auto a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); int st=f.flags&F_CANDLE?1:6; for(size_t k=0;k<a.size();k+=st){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+st)); J.push_back({fmt("%s/mirror/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C26","model_checking","states = (function, parameters/settings, history) combinations; transitions = calls; traces = runs compared with the run on the mirror image",gen,
 {"functions and patterns with no mirror counterpart in the library (STOCH, STOCHF, STOCHRSI, MFI, OBV, SAR, SAREXT, HT_DCPHASE, one-sided candle patterns) are not covered","ten patterns count a bar that closes where it opened as white: they are compared on histories without such bars","values that hang on rounding alone are not judged"},
 "every word over 2-6 bar alphabets, 10 base histories and their single-bar deviations, every deviation of the committed candle patterns x all parameter/settings combinations of both domains; the single-precision and streaming entry points over shorter words and the plain base histories and patterns"});
}
