// C09: outputs overlaying inputs.
#include "win.h"
namespace {
struct W { const FD&f; const Cfg&c; Ctx&x; int lb; Data d;
  // map[k]: input the k-th output overlays, or -1
  bool one(int s,int e,const std::vector<int>&map){ int beg=std::max(s,lb); std::string id=winstr(f,c,s,e,"double")+" outputs over inputs:"; for(int k=0;k<f.nout;k++) if(map[k]>=0) id+=fmt(" %s=input%d",f.out[k].name,map[k]);
    if(x.trace) x.step(id);
    Out o; o.prep(f,e-s+1); int b,m; int r=f.batch(s,e,d.p,c.o,&b,&m,o.q);
    Data q=d; void*out[3]; Out p; p.prep(f,e-s+1); for(int k=0;k<f.nin;k++) q.p[k]=q.in[k].data(); for(int k=0;k<f.nout;k++) out[k]= map[k]>=0? (void*)q.in[map[k]].data(): p.q[k];
    int b2=-9,m2=-9; int r2=f.batch(s,e,q.p,c.o,&b2,&m2,out); x.cov.transitions+=2; x.cov.states++; x.cov.traces++;
    if(r!=r2||b!=b2||m!=m2){ x.viol(fmt("%s:rc",f.name),id+fmt(": rc %d/%d begIdx %d/%d nb %d/%d",r,r2,b,b2,m,m2)); return false; }
    for(int k=0;k<f.nout;k++) for(int i=0;i<m;i++){ double a=o.get(f,k,i),z=map[k]>=0? q.in[map[k]][i]: p.get(f,k,i); if(!near(a,z,1e-9)){ x.viol(fmt("%s:value",f.name),id+fmt(": output %d element %d (bar %d) is %.17g, %.17g with separate arrays",k,i,beg+i,z,a)); return false; } }
    for(int k=0;k<f.nin;k++){ bool used=false; for(int j=0;j<f.nout;j++) used|=map[j]==k; for(int i=0;i<d.n;i++) if((!used||i>e)&&q.in[k][i]!=d.in[k][i]){ x.viol(fmt("%s:input",f.name),id+fmt(": input %d element %d changed",k,i)); return false; } }
    return true; } };
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  // every injective partial map of real outputs to inputs
  std::vector<std::vector<int>> M; std::vector<int> cur(f.nout,-1);
  std::function<void(int)> rec=[&](int k){ if(k==f.nout){ bool any=false; for(int m:cur) any|=m>=0; if(any) M.push_back(cur); return; } cur[k]=-1; rec(k+1); if(!f.out[k].isint) for(int i=0;i<f.nin;i++){ bool dup=false; for(int j=0;j<k;j++) dup|=cur[j]==i; if(!dup){ cur[k]=i; rec(k+1); } } cur[k]=-1; };
  rec(0); if(M.empty()) return;
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int n=lb+(x.tier>1?60:x.tier?30:14); std::vector<std::pair<int,int>> w; for(int s:{0,1,lb-1,lb,lb+1,lb+2,lb+3,n-2}) for(int e:{lb,lb+1,lb+4,lb+9,n-1}) if(s>=0) if(s<=e&&e<n) w.push_back({s,e}); W t{f,c,x,lb};
    for(int b=0;b<nbase(f,c);b++){ Hist h=base_hist(f,c,b,n); t.d.set(f,h); bool ok=true; for(auto&p:w) for(auto&m:M) if(ok) ok=t.one(p.first,p.second,m); if(b==4) x.sample(winstr(f,c,lb,n-1,"double")+fmt(" %zu overlays",M.size())); if(!ok) break; }
    t.d.set(f,base_hist(f,c,4,lb+420)); bool ok=true; for(int s:{0,301,lb+311}) for(auto&m:M) if(ok) ok=t.one(s,lb+419,m); x.note("late_windows"); } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; bool any=false; for(int k=0;k<f.nout;k++) any|=!f.out[k].isint; if(!any) continue; std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end()); for(size_t k=0;k<a.size();k+=12){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+12)); J.push_back({fmt("%s/alias/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C09","model_checking","states = (function, parameters/settings, window, overlay) combinations, each run once with separate and once with overlaid arrays on the same history; traces = combinations compared element by element",gen,
 {"an overlaid input array may be used as work space up to endIdx (upstream does so); it is not written past endIdx and inputs without an overlay are not written at all","an overlaid output starts at the first element of the input array, and two outputs never share an array"},
 "every injective partial map from real outputs to inputs x up to 40 request windows around the lookback and 3 of a 420-bar history x all parameter/settings combinations of both domains x all base histories"});
}
