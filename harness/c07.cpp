// C07: the requested range only selects outputs.
#include "win.h"
namespace {
struct W { const FD&f; const Cfg&c; Ctx&x; int lb; Data d; Out full; int fb,fn; bool fin; double tol=1e-9;
  bool bad(const char*k,const std::string&s){ x.viol(fmt("%s:%s",f.name,k),s); return false; }
  bool cmp(const Out&a,const Out&b,int m,const char*k,const std::string&id){ for(int j=0;j<f.nout;j++) for(int i=0;i<m;i++) if(!biteq(a.get(f,j,i),b.get(f,j,i))) return bad(k,id+fmt(": output %d element %d is %.17g instead of %.17g",j,i,b.get(f,j,i),a.get(f,j,i))); return true; }
  bool one(int s,int e){ int beg=std::max(s,lb); if(beg>e) return true; int m=e-beg+1; std::string id=winstr(f,c,s,e,"double")+fmt(" lookback=%d n=%d",lb,d.n);
    if(x.trace) x.step(id);
    Out o; o.prep(f,m); int b,nb; x.cov.transitions++; x.cov.states++; int r=f.batch(s,e,d.p,c.o,&b,&nb,o.q); if(r||b!=beg||nb!=m) return bad("rc",id+fmt(": rc=%d begIdx=%d nb=%d",r,b,nb));
    if(fin) for(int j=0;j<f.nout;j++) for(int i=0;i<m;i++) if(!near(o.get(f,j,i),full.get(f,j,beg+i-fb),tol)&&!rounding_only(f,c,d,s,beg+i,j,o.get(f,j,i),full.get(f,j,beg+i-fb))) return bad("slice",id+fmt(": output %d at bar %d is %.17g, but %.17g when the whole history is requested",j,beg+i,o.get(f,j,i),full.get(f,j,beg+i-fb)));
    // the same bars with everything outside the usable window destroyed
    int lo= c.compat&&depends_compat(f)? 0: beg-lb; for(double poison:{(double)NAN,1e290,-3.0}){ Data q=d; for(int k=0;k<f.nin;k++){ for(int i=0;i<d.n;i++) if(i<lo||i>e) q.in[k][i]=poison; q.p[k]=q.in[k].data(); }
      Out p; p.prep(f,m); int b2,n2; x.cov.transitions++; r=f.batch(s,e,q.p,c.o,&b2,&n2,p.q); if(r||b2!=b||n2!=nb) return bad("outside-rc",id+fmt(": with bars outside %d..%d replaced by %g: rc=%d begIdx=%d nb=%d",lo,e,poison,r,b2,n2)); if(!cmp(o,p,m,"outside",id+fmt(" with bars outside %d..%d replaced by %g",lo,e,poison))) return false; }
    // the same window at the start of an array of its own
    if(lo>0){ Data q=d; for(int k=0;k<f.nin;k++) q.p[k]=d.p[k]+lo; Out p; p.prep(f,m); int b2,n2; x.cov.transitions++; r=f.batch(s>=lo?s-lo:0,e-lo,q.p,c.o,&b2,&n2,p.q); if(r||b2!=beg-lo||n2!=m) return bad("shift-rc",id+fmt(": the same bars %d..%d at index 0: rc=%d begIdx=%d nb=%d",lo,e,r,b2,n2));
      for(int j=0;j<f.nout;j++) for(int i=0;i<m;i++){ double a=o.get(f,j,i),z=p.get(f,j,i); if(f.out[j].isint&&strstr(f.name,"INDEX")) z+=lo; if(!near(a,z,tol)&&!rounding_only(f,c,d,s,beg+i,j,a,z)) return bad("shift",id+fmt(": output %d element %d is %.17g, but %.17g when the same bars start at index 0",j,i,a,z)); } }
    x.cov.traces++; return true; } };
void wins(const FD&f,const Cfg&c,Ctx&x,const Hist&h,int lb,const std::vector<std::pair<int,int>>&w){ int n=h.size(); W t{f,c,x,lb}; if(is(f,"BETA")||is(f,"CORREL")) t.tol=1e-5; /* quotients of running sums that have drifted */ t.fin=finite_window(f,c); t.d.set(f,h); t.full.prep(f,n); f.batch(0,n-1,t.d.p,c.o,&t.fb,&t.fn,t.full.q); for(auto&p:w) if(p.first>=0&&p.first<=p.second&&p.second<n&&!t.one(p.first,p.second)) return; }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int n=lb+(x.tier>1?24:x.tier?14:9); auto w=windows(n,lb,x.tier>1?90:x.tier?30:20); W t{f,c,x,lb}; t.fin=finite_window(f,c); if(t.fin) x.note("finite_window_configs");
    for(int b=0;b<nbase(f,c);b++){ Hist h=base_hist(f,c,b,n); t.d.set(f,h); t.full.prep(f,n); f.batch(0,n-1,t.d.p,c.o,&t.fb,&t.fn,t.full.q); bool ok=true; for(auto&p:w) if(!(ok=t.one(p.first,p.second))) break; if(b==4) x.sample(winstr(f,c,lb,n-1,"double")); if(!ok) break; }
    for(int b=0;b<nbase(f,c);b++) wins(f,c,x,base_hist(f,c,b,lb+420),lb,{{301,lb+419},{lb+311,lb+330}}); x.note("late_windows"); } }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0) return; wins(f,c,x,run_hist(f,c,RUN),lb,{{1,RUN-1},{32767,32770},{65536,65540},{65535,RUN-1}}); x.note("runs_beyond_65536_bars"); }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0||lb>250000) return; wins(f,c,x,huge_hist(f,2,lb+8),lb,{{0,lb},{lb,lb+3},{lb+3,lb+5}}); x.note("long_parameter_histories"); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}}); std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); for(size_t k=0;k<a.size();k+=16){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+16)); J.push_back({fmt("%s/range/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C07","model_checking","states = request windows; transitions = batch calls; traces = windows whose outputs were compared with the slice of the whole-history result (finite-window functions), with the result after destroying every bar outside the window, and with the same bars moved to index 0",gen,
 {"cumulative and recursive functions (AD, ADOSC, OBV, NVI, PVI, PVT, SAR, SAREXT and everything built on exponential averages) start at the first bar of the request by definition: they are checked for locality and position independence but not for slice equality","in Metastock compatibility the functions seeded from bar 0 may read from bar 0 on"},
 "every window of histories of lookback+14<=30 bars (thorough: lookback+24<=90; 12 boundary points for longer ones), all parameter/settings combinations of both domains, all base histories, 3 poison values; windows beginning up to 311 bars after the lookback; windows of a 65776-bar history, parameters of 2000/70000"});
}
