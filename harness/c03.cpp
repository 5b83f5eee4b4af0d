// C03: save at any bar, load, continue identically.
#include "life.h"
namespace {
bool cmp(const FD&f,const Cfg&c,Ctx&x,void*st,const Data&d,const Trace&t,int from,const char*who,int s,const Hist&h){
  double v[6]; for(int i=from;i<d.n;i++){ d.at(i,v); Out1 q(f); int r=f.sstep(st,v,q.q); x.cov.transitions++; bool ok=r==t.rc[i]; if(ok&&r==TA_SUCCESS) for(int k=0;k<f.nout;k++) ok=ok&&biteq(q.get(k),t.v[k][i]);
    if(!ok){ x.viol(fmt("%s:%s",f.name,who),fmt("%s saved before bar %d; bar %d of the %s object: rc %d (expected %d) value %.17g (expected %.17g) on %s",cfgstr(f,c).c_str(),s,i,who,r,t.rc[i],q.get(0),t.v[0][i],histstr(f,h).c_str())); return false; } } return true; }
bool at(const FD&f,const Cfg&c,Ctx&x,const Hist&h,const Data&d,const Trace&t,int s){
  if(x.trace) x.step(fmt("save before bar %d ",s)+cfgstr(f,c)+" "+histstr(f,h));
  long live=g_live; void*st=0; f.sinit(&st,c.o); double v[6]; for(int i=0;i<s;i++){ d.at(i,v); Out1 q(f); f.sstep(st,v,q.q); }
  std::string id=cfgstr(f,c)+fmt(" saved before bar %d",s); bool ok=true;
  MemFile m; int r1=f.ssave(st,m.f); long p1=ftell(m.f); int r2=f.ssave(0,m.f); long p2=ftell(m.f); int r3=f.ssave(st,m.f); long p3=ftell(m.f);
  if(r1||r2||r3){ x.viol(fmt("%s:save-rc",f.name),fmt("%s save returned %d, %d (null object), %d",id.c_str(),r1,r2,r3)); ok=false; }
  fwrite("END!",1,4,m.f); m.done();
  ok=ok&&cmp(f,c,x,st,d,t,s,"original",s,h); f.sfree(&st);
  if(ok){ FILE*g=fmemopen(m.buf,m.len,"rb"); void*a=0,*b=0,*e=0;
    r1=f.sload(&a,g); long q1=ftell(g); r2=f.sload(&b,g); long q2=ftell(g); r3=f.sload(&e,g); long q3=ftell(g); char tail[5]={0}; fread(tail,1,4,g); fclose(g);
    if(r1||r2||r3||!a||!e||b){ x.viol(fmt("%s:load-rc",f.name),fmt("%s load returned %d (object), %d (null object, handle %p), %d (object)",id.c_str(),r1,r2,b,r3)); ok=false; }
    else if(q1!=p1||q2!=p2||q3!=p3||memcmp(tail,"END!",4)){ x.viol(fmt("%s:delimit",f.name),fmt("%s records end at %ld,%ld,%ld but loading stopped at %ld,%ld,%ld",id.c_str(),p1,p2,p3,q1,q2,q3)); ok=false; }
    else { // chain: save the loaded object, load that one
      MemFile m2; r1=f.ssave(e,m2.f); m2.done(); FILE*g2=fmemopen(m2.buf,m2.len,"rb"); void*z=0; r2=f.sload(&z,g2); fclose(g2);
      if(r1||r2||!z){ x.viol(fmt("%s:chain-rc",f.name),fmt("%s saving/loading the loaded object returned %d/%d",id.c_str(),r1,r2)); ok=false; }
      else { ok=cmp(f,c,x,a,d,t,s,"loaded",s,h)&&cmp(f,c,x,z,d,t,s,"reloaded",s,h); }
      f.sfree(&z); }
    f.sfree(&a); f.sfree(&e); f.sfree(&b); }
  if(ok&&g_live!=live){ x.viol(fmt("%s:leak",f.name),fmt("%s save/load/free leaves %ld allocations",id.c_str(),g_live-live)); ok=false; }
  x.cov.traces++; x.cov.states++; return ok; }
void lng(const FD&f,const Cfg&c,Ctx&x,const Hist&h,const std::vector<int>&S){ Data d; Trace t; d.set(f,h); stepref(f,c,d,t); for(int s:S) if(s>=0&&s<d.n&&!at(f,c,x,h,d,t,s)) return; }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int tail=x.tier>1?80:x.tier?40:14, n=lb+tail; std::set<int> S; if(n<=(x.tier>1?200:x.tier?70:40)) for(int i=0;i<n;i++) S.insert(i); else { for(int i:{0,1,2,3,lb/2,lb-2,lb-1,lb,lb+1,lb+2,lb+3,lb+tail/2,n-1}) if(i>=0) S.insert(i); }
    auto A=alphabet(f,0);
    for(int w=0;w<nbase(f,c);w++){ Hist h=base_hist(f,c,w,n); Data d; Trace t; d.set(f,h); stepref(f,c,d,t); if(w==4) x.sample(cfgstr(f,c)+" "+histstr(f,h));
      for(int s:S){ if(!at(f,c,x,h,d,t,s)) break; } if(x.full()) return;
      if(x.tier||w==4||w==5) for(int p:{lb-3,lb-2,lb-1,lb,lb+1,lb+2}) if(p>=0&&(x.tier>1||(p>=lb-1&&p<=lb+1))) for(int a=0;a<(x.tier>1?3:2);a++){ Hist h2=h; h2[p]=A[a+1]; Data d2; Trace t2; d2.set(f,h2); stepref(f,c,d2,t2); for(int s:{p,p+1,p+2}) if(s<n&&!at(f,c,x,h2,d2,t2,s)) break; } }
    lng(f,c,x,base_hist(f,c,4,lb+420),{lb+150,lb+311}); x.note("late_save_points"); } }
void run(const FD&f,const Cfg&c,Ctx&x){ apply(c); if(f.lookback(c.o)<0) return; lng(f,c,x,run_hist(f,c,RUN),{65535,65537,RUN-5}); x.note("runs_beyond_65536_bars"); }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0||lb>250000) return; lng(f,c,x,huge_hist(f,0,lb+6),{lb/2,lb-1,lb+2}); x.note("long_parameter_histories"); }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(auto&c:cfgs_run(f)) J.push_back({fmt("%s/run",f.name),[&f,c](Ctx&x){run(f,c,x);}}); for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge",f.name),[&f,c](Ctx&x){huge(f,c,x);}}); auto a=cfgs_life(f,tier?tier-1:0,tier>1?5000:tier?400:45); for(size_t k=0;k<a.size();k+=4){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+4)); J.push_back({fmt("%s/save/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C03","fault_enumeration","one evaluation per (function, parameters/settings, history, crash point = bar before which the process saves, dies and reloads); distinct_nontrivial counts the evaluations, all of which compare the original, the loaded and the re-saved/re-loaded object with an undisturbed run",gen,
 {"records are loaded by the same build under the same global settings as they were saved"},
 "every save point 0..n-1 of histories up to lookback+40 bars (13 points around the lookback for lookbacks above 30; thorough: lookback+80, every point up to 200 bars), 6 base histories plus single-bar deviations next to the save point, up to 400 (thorough: all) parameter/settings combinations per function; save points 150 and 311 bars after the lookback; runs of 65776 bars, parameters of 2000/70000"});
}
