// C02: batch-feeding a streaming object == feeding it bar by bar, for every cut of the history.
#include "life.h"
namespace {
const double CAN=-7.5e30; const int ICAN=-777777777;
bool feed(const FD&f,const Cfg&c,Ctx&x,void*st,const Data&d,const Trace&t,int a,int b,bool batch,const std::string&where){
  if(!batch){ double v[6]; for(int i=a;i<b;i++){ d.at(i,v); Out1 q(f); int r=f.sstep(st,v,q.q); x.cov.transitions++; if(r!=t.rc[i]){ x.viol(fmt("%s:single-rc",f.name),fmt("%s bar %d single step returned %d, expected %d %s",cfgstr(f,c).c_str(),i,r,t.rc[i],where.c_str())); return false; }
      if(r==TA_SUCCESS) for(int k=0;k<f.nout;k++) if(!near(q.get(k),t.v[k][i],1e-9)){ x.viol(fmt("%s:single-value",f.name),fmt("%s bar %d single step after a batch-feed: %.17g, expected %.17g %s",cfgstr(f,c).c_str(),i,q.get(k),t.v[k][i],where.c_str())); return false; } } return true; }
  int n=b-a; Out o; o.prep(f,n+2); int bi=-9,nb=-9; x.cov.transitions++;
  int r=f.sbatch(st,a,b-1,d.p,&bi,&nb,o.q);
  if(n==0){ if(r!=TA_SUCCESS||bi!=0||nb!=0){ x.viol(fmt("%s:empty",f.name),fmt("%s empty batch-feed returned %d begIdx=%d nb=%d %s",cfgstr(f,c).c_str(),r,bi,nb,where.c_str())); return false; } }
  else { if(r!=t.rc[b-1]){ x.viol(fmt("%s:rc",f.name),fmt("%s batch-feed [%d,%d) returned %d, single steps end with %d %s",cfgstr(f,c).c_str(),a,b,r,t.rc[b-1],where.c_str())); return false; }
    if(bi!=a||nb!=n){ x.viol(fmt("%s:window",f.name),fmt("%s batch-feed [%d,%d) reported begIdx=%d nb=%d %s",cfgstr(f,c).c_str(),a,b,bi,nb,where.c_str())); return false; }
    for(int i=a;i<b;i++) for(int k=0;k<f.nout;k++){ double g=o.get(f,k,i-a); if(t.rc[i]==TA_SUCCESS){ if(!near(g,t.v[k][i],1e-9)){ x.viol(fmt("%s:value",f.name),fmt("%s batch-feed [%d,%d) bar %d output %d: %.17g, single step %.17g %s",cfgstr(f,c).c_str(),a,b,i,k,g,t.v[k][i],where.c_str())); return false; } } else if(!f.out[k].isint&&!std::isnan(g)){ x.viol(fmt("%s:marker",f.name),fmt("%s batch-feed [%d,%d) bar %d output %d: %.17g where no output exists yet %s",cfgstr(f,c).c_str(),a,b,i,k,g,where.c_str())); return false; } } }
  for(int k=0;k<f.nout;k++) for(int j=n;j<n+2;j++) if(o.get(f,k,j)!=(f.out[k].isint?(double)ICAN:CAN)){ x.viol(fmt("%s:overrun",f.name),fmt("%s batch-feed [%d,%d) wrote output element %d %s",cfgstr(f,c).c_str(),a,b,j,where.c_str())); return false; }
  return true; }
void one(const FD&f,const Cfg&c,Ctx&x,const Hist&h,const std::vector<int>&cuts){
  Data d; d.set(f,h); Data keep=d; Trace t; stepref(f,c,d,t); int n=d.n; if((int)t.rc.size()!=n){ x.viol(fmt("%s:init",f.name),cfgstr(f,c)+" StateInit failed"); return; }
  for(int i:cuts) for(int j:cuts) if(i<=j) for(int m=1;m<8;m++){
      std::string w=fmt("cuts %d,%d modes %d on ",i,j,m)+histstr(f,h); if(x.trace) x.step(cfgstr(f,c)+" "+w);
      void*st=0; if(f.sinit(&st,c.o)!=TA_SUCCESS) return; bool ok=feed(f,c,x,st,d,t,0,i,m&1,w)&&feed(f,c,x,st,d,t,i,j,m&2,w)&&feed(f,c,x,st,d,t,j,n,m&4,w); f.sfree(&st); x.cov.traces++; x.cov.states+=3; if(!ok) return; }
  for(int k=0;k<f.nin;k++) for(int i=0;i<n;i++) if(!biteq(d.in[k][i],keep.in[k][i])){ x.viol(fmt("%s:input-modified",f.name),cfgstr(f,c)+" batch-feed modified its input"); return; }
}
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int n=lb+(x.tier?9:6); std::vector<int> cuts; if(n<=(x.tier?22:14)) for(int i=0;i<=n;i++) cuts.push_back(i); else { std::set<int> s={0,1,2,lb-1,lb,lb+1,lb+2,lb+3,n-1,n}; for(int i:s) if(i>=0) cuts.push_back(i); }
    for(int w=0;w<nbase(f,c);w++){ Hist h=base_hist(f,c,w,n); one(f,c,x,h,cuts); if(w==4) x.sample(cfgstr(f,c)+" "+histstr(f,h)); if(x.full()) return; }
    one(f,c,x,base_hist(f,c,4,lb+420),{lb+150,lb+311}); x.note("late_cuts"); } }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0) return; one(f,c,x,run_hist(f,c,RUN),{65530,RUN-3}); x.note("runs_beyond_65536_bars"); }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0||lb>250000) return; one(f,c,x,huge_hist(f,0,lb+4),{lb/2,lb+2}); x.note("long_parameter_histories"); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}}); auto a=cfgs_life(f,tier,tier?60:30); for(size_t k=0;k<a.size();k+=6){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+6)); J.push_back({fmt("%s/cut/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C02","model_checking","states = (object, cut) pairs visited; transitions = feeding calls (single step or batch-feed); traces = complete feeding schedules run on the real object and compared step by step with the single-step run",gen,
 {"real outputs of bars without a value are marked NaN by design; integer outputs of such bars carry no marker and are not compared"},
 "every pair of cut points (all cuts for histories up to 14 bars, 10 cut points around the lookback otherwise) x 7 mixes of single/batch segments x up to 30 parameter/settings combinations per function x 3 histories; 420-bar histories with cuts 150 and 311 bars after the lookback; runs of 65776 bars and parameters of 2000/70000 with cuts at and beyond 65536"});
}
