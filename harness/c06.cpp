// C06: the output window contract of every batch entry point, for every request window.
#include "win.h"
namespace {
struct W { const FD&f; const Cfg&c; Ctx&x; int lb; Data d; 
  bool call(int s,int e,bool flt,const char*ep){ int want=std::max(s,lb), cnt=want<=e?e-want+1:0; Guard o; o.prep(f,e-s+1); int b=-99,m=-99; x.cov.transitions++; x.cov.states++;
    if(x.trace) x.step(winstr(f,c,s,e,ep));
    int r= flt? f.batchf(s,e,d.pf,c.o,&b,&m,o.q): f.batch(s,e,d.p,c.o,&b,&m,o.q); std::string id=winstr(f,c,s,e,ep)+fmt(" n=%d lookback=%d",d.n,lb);
    if(r!=TA_SUCCESS) return bad("rc",id+fmt(": returned %d",r));
    if(cnt? (b!=want||m!=cnt): (b!=0||m!=0)) return bad("window",id+fmt(": begIdx=%d nbElement=%d, expected %d and %d",b,m,cnt?want:0,cnt));
    for(int k=0;k<f.nout;k++) for(int j=-Guard::G;j<(int)(e-s+1)+Guard::G;j++){ bool in=j>=0&&j<cnt, u=o.untouched(k,j); if(in&&u) return bad("missing",id+fmt(": output %d element %d of %d was not written",k,j,cnt)); if(!in&&!u) return bad("overrun",id+fmt(": output %d element %d written, only %d are reported",k,j,cnt)); }
    return true; }
  bool bad(const char*k,const std::string&s){ x.viol(fmt("%s:%s",f.name,k),s); return false; } };
void wins(const FD&f,const Cfg&c,Ctx&x,const Hist&h,int lb,const std::vector<std::pair<int,int>>&w){ W t{f,c,x,lb}; t.d.set(f,h,true); for(auto&p:w) if(p.first>=0&&p.first<=p.second&&p.second<t.d.n){ x.cov.traces+=2; if(!t.call(p.first,p.second,false,"double")||!t.call(p.first,p.second,true,"float")) return; } }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int n=lb+(x.tier>1?24:x.tier?12:7); auto w=windows(n,lb,x.tier>1?150:x.tier?40:24); W t{f,c,x,lb};
    for(int b=0;b<nbase(f,c);b++){ t.d.set(f,base_hist(f,c,b,n),true); bool ok=true; for(auto&p:w) if(!(ok=t.call(p.first,p.second,false,"double")&&t.call(p.first,p.second,true,"float"))) break; x.cov.traces+=w.size()*2; if(b==4) x.sample(winstr(f,c,lb,n-1,"double")); if(!ok) return; }
    wins(f,c,x,base_hist(f,c,4,lb+420),lb,{{0,lb+419},{301,lb+419},{lb+311,lb+330}}); x.note("late_windows"); } }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0) return; wins(f,c,x,run_hist(f,c,RUN),lb,{{0,RUN-1},{32767,32768},{65535,65536},{65536,RUN-1},{RUN-1,RUN-1}}); x.note("runs_beyond_65536_bars"); }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0||lb>450000) return; wins(f,c,x,huge_hist(f,0,lb+4),lb,{{0,lb-1},{0,lb},{lb-1,lb},{lb,lb+3},{lb+2,lb+3}}); x.note("long_parameter_histories"); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}}); std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); for(size_t k=0;k<a.size();k+=16){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+16)); J.push_back({fmt("%s/win/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C06","model_checking","states/transitions = batch calls made, one per (function, parameters/settings, entry point, startIdx, endIdx, history); traces = windows whose reported first index, count and written elements were compared with the contract computed from startIdx, endIdx and the announced lookback",gen,
 {"output arrays hold endIdx-startIdx+1 elements, the size the header recommends, with guard elements on both sides"},
 "every 0<=startIdx<=endIdx<n for n=lookback+12<=40 (thorough: lookback+24<=150; 12 boundary points for longer histories) x all parameter/settings combinations of both domains x double and float entry points; windows beginning up to 311 bars after the lookback; windows of a 65776-bar history, parameters of 2000/70000"});
}
