// C11: parameter validation is the same in every entry point.
#include "win.h"
namespace {
const double IDEF=INT_MIN, RDEF=-4e37;
struct V { double v; bool ok; };
std::vector<V> values(const OptD&o,int tier){ std::vector<V> r; auto add=[&](double v){ bool mark= o.type==1? v==RDEF: v==IDEF; bool ok=mark||(v>=o.mn&&v<=o.mx); for(auto&x:r) if(x.v==v) return; r.push_back({v,ok}); };
  if(o.type!=1){ add(o.df); add(o.mn-1); add(o.mn); add(o.mx); add(o.mx+1); add(IDEF); add(-1); if(o.type==2) for(int t=-1;t<=o.mx+1;t++) add(t); add((double)INT_MAX); add((double)INT_MIN+1); add(0); add(o.mn+1); add(o.mx-1); if(tier){ add(1); add(2); add(3); add(1000); add(65536); add(-2); add(-100000);} }
  else { add(o.df); add(RDEF); add(o.mn); add(o.mx); double e=std::max(1e-9,fabs(o.mn)*1e-9); if(o.mn-e!=RDEF) add(o.mn-e); add(o.mx+std::max(1e-9,fabs(o.mx)*1e-9)); add(0); add(-0.001); add(1.001); add(-5e37); add(4e37); add(-3.5e37); }
  return r; }
struct T { const FD&f; Ctx&x; Data d; int n;
  bool bad(const Cfg&c,const char*k,const std::string&s){ x.viol(fmt("%s:%s",f.name,k),cfgstr(f,c)+": "+s); return false; }
  bool clean(const Guard&g){ for(int k=0;k<f.nout;k++) for(int i=-Guard::G;i<g.n+Guard::G;i++) if(!g.untouched(k,i)) return false; return true; }
  bool one(const Cfg&c,bool ok){
    if(x.trace) x.step(cfgstr(f,c)); x.cov.states++;
    int lb=f.lookback(c.o); x.cov.transitions++; if(ok?lb<0:lb!=-1) return bad(c,"lookback",fmt("lookback returned %d for %s parameters",lb,ok?"valid":"invalid"));
    Cfg dc=c; bool mark=false; for(int i=0;i<f.nopt;i++) if(c.o[i]==(f.opt[i].type==1?RDEF:IDEF)){ dc.o[i]=f.opt[i].df; mark=true; }
    if(mark&&ok&&lb!=f.lookback(dc.o)) return bad(c,"default-lookback",fmt("lookback %d, but %d with the documented defaults",lb,f.lookback(dc.o)));
    for(int fl=0;fl<2;fl++){ Guard g; g.prep(f,n); int b=-9,m=-9; int r= fl? f.batchf(0,n-1,d.pf,c.o,&b,&m,g.q): f.batch(0,n-1,d.p,c.o,&b,&m,g.q); x.cov.transitions++;
      const char*w=fl?"float batch":"batch";
      if(!ok){ if(r!=TA_BAD_PARAM) return bad(c,"reject",fmt("%s returned %d for invalid parameters",w,r)); if(!clean(g)) return bad(c,"reject-output",fmt("%s wrote outputs although it refused the parameters",w)); }
      else { if(r!=TA_SUCCESS) return bad(c,"accept",fmt("%s returned %d for valid parameters",w,r)); int eb=lb>n-1?0:lb,em=lb>n-1?0:n-lb; if(b!=eb||m!=em) return bad(c,"window",fmt("%s begIdx=%d nb=%d, lookback=%d n=%d",w,b,m,lb,n));
        if(mark){ Guard h; h.prep(f,n); int b2,m2; r= fl? f.batchf(0,n-1,d.pf,dc.o,&b2,&m2,h.q): f.batch(0,n-1,d.p,dc.o,&b2,&m2,h.q); if(r||b2!=b||m2!=m) return bad(c,"default-rc",fmt("%s differs from the documented defaults: rc %d window %d/%d vs %d/%d",w,r,b,m,b2,m2)); for(int k=0;k<f.nout;k++) for(int i=0;i<m;i++) if(!biteq(g.get(k,i),h.get(k,i))) return bad(c,"default-value",fmt("%s output %d element %d is %.17g, %.17g with the documented defaults",w,k,i,g.get(k,i),h.get(k,i))); } } }
    void*st=0; long live=g_live; int r=f.sinit(&st,c.o); x.cov.transitions++;
    if(!ok){ if(r!=TA_BAD_PARAM) return bad(c,"init-reject",fmt("StateInit returned %d for invalid parameters",r)); if(st||g_live!=live) return bad(c,"init-reject-alloc","StateInit refused the parameters but allocated something"); x.note("rejected"); return true; }
    if(r!=TA_SUCCESS||!st) return bad(c,"init-accept",fmt("StateInit returned %d for valid parameters",r)); x.note("accepted");
    void*s2=0; if(mark){ r=f.sinit(&s2,dc.o); if(r) return bad(c,"init-default",fmt("StateInit with the documented defaults returned %d",r)); }
    double v[6]; bool good=true; for(int i=0;i<n&&good;i++){ d.at(i,v); Out1 q(f); r=f.sstep(st,v,q.q); int e= i<lb? TA_NEED_MORE_DATA: TA_SUCCESS; x.cov.transitions++; if(r!=e) good=bad(c,"step",fmt("bar %d: state returned %d, lookback is %d",i,r,lb));
      if(good&&mark){ Out1 z(f); int rz=f.sstep(s2,v,z.q); if(rz!=r) good=bad(c,"state-default-rc",fmt("bar %d: state returned %d, %d with the documented defaults",i,r,rz)); if(!r) for(int k=0;k<f.nout&&good;k++) if(!biteq(q.get(k),z.get(k))) good=bad(c,"state-default",fmt("bar %d output %d is %.17g, %.17g with the documented defaults",i,k,q.get(k),z.get(k))); } }
    f.sfree(&st); if(mark) f.sfree(&s2); x.cov.traces++; return good; }
  // pointers and ranges
  void ptrs(const Cfg&c){ struct Rg{int s,e,rc;}; std::vector<Rg> R; for(int s:{INT_MIN,-100,-2,-1,0,1,5,n-1,INT_MAX}) for(int e:{INT_MIN,-100,-1,0,4,5,n-1}){ int rc= s<0?TA_OUT_OF_RANGE_START_INDEX: (e<0||e<s)?TA_OUT_OF_RANGE_END_INDEX: 0; R.push_back({s,e,rc}); }
    for(int fl=0;fl<2;fl++) for(auto&r:R) for(int nul=-1;nul<f.nin+f.nout;nul++){ Guard g; g.prep(f,n); const double*p[6]; const float*pf[6]; void*q[3]; for(int k=0;k<f.nin;k++){ p[k]=nul==k?0:d.p[k]; pf[k]=nul==k?0:d.pf[k]; } for(int k=0;k<f.nout;k++) q[k]=nul==f.nin+k?0:g.q[k];
      if(nul<0&&!r.rc) continue; std::string id=fmt("%s range %d..%d%s",fl?"float batch":"batch",r.s,r.e,nul<0?"":fmt(" with %s %d NULL",nul<f.nin?"input":"output",nul<f.nin?nul:nul-f.nin).c_str()); if(x.trace) x.step(cfgstr(f,c)+" "+id);
      int b=-9,m=-9; int rc= fl? f.batchf(r.s,r.e,pf,c.o,&b,&m,q): f.batch(r.s,r.e,p,c.o,&b,&m,q); int want= r.rc?r.rc:TA_BAD_PARAM; x.cov.transitions++; x.cov.states++; x.cov.traces++;
      if(rc!=want){ bad(c,r.rc?"range":"null",id+fmt(": returned %d, expected %d",rc,want)); return; } if(!clean(g)){ bad(c,"error-output",id+": outputs written although the call was refused"); return; } } }
};
void job(const FD&f,int part,Ctx&x){ Cfg c; memset(&c,0,sizeof c); apply(c); T t{f,x}; t.n=70; Hist h=base_hist(f,4,t.n); t.d.set(f,h,true); for(int i=0;i<f.nopt;i++) c.o[i]=f.opt[i].df;
  if(part==0) t.ptrs(c);
  std::vector<std::vector<V>> L; for(int i=0;i<f.nopt;i++) L.push_back(values(f.opt[i],x.tier));
  x.sample(fmt("TA_%s: parameter lattice of ",f.name)+[&]{ std::string s; for(auto&l:L) s+=fmt("%zu ",l.size()); return s; }()+"values per parameter");
  uint64_t prod=1; for(auto&l:L) prod*=l.size(); int np=f.nopt>1?8:1; uint64_t k=0;
  if(prod<= (x.tier>1?40000000u:x.tier?200000u:4000u)){ std::function<bool(int,Cfg,bool)> rec=[&](int i,Cfg c,bool ok)->bool{ if(i==f.nopt){ if((k++%np)!=(uint64_t)part) return true; return t.one(c,ok)||!x.full(); } for(auto&v:L[i]){ Cfg d=c; d.o[i]=v.v; if(!rec(i+1,d,ok&&v.ok)) return false; } return true; }; rec(0,c,true); x.note(part?"partial_products":"full_products"); }
  else for(int i=0;i<f.nopt;i++) for(int j=i+1;j<f.nopt;j++) for(auto&a:L[i]) for(auto&b:L[j]){ if((k++%np)!=(uint64_t)part) continue; Cfg e=c; e.o[i]=a.v; e.o[j]=b.v; if(!t.one(e,a.ok&&b.ok)&&x.full()) return; }
}
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(int p=0;p<(f.nopt>1?8:1);p++) J.push_back({fmt("%s/params/%d",f.name,p),[&f,p](Ctx&x){job(f,p,x);}}); } }
Reg r({"C11","model_checking","states = parameter vectors and (range, null-pointer) combinations; every one is given to lookback, double batch, float batch and StateInit (+70 streaming bars when accepted) and compared with the documented acceptance predicate; traces = parameter vectors run to completion plus refused range/pointer calls",gen,
 {"the documented ranges are those frozen in harness/table.inc from the published function interfaces (ta_func.h comments)","NaN parameters and null outBegIdx/outNBElement pointers are not documented and not explored"},
 "boundary lattice of 12-18 values per parameter (bounds, bounds+-1, defaults, default marker, extremes, every MA type): full product up to 200000 vectors (thorough: every product), all pairs beyond; 63 ranges x every single NULL position"});
}
