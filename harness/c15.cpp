// C15: the abstract interface calls exactly the direct functions.
#include "abs.h"
namespace {
struct T { const FD&f; Ctx&x; Hist h; Data d; std::vector<double> price[6]; int n;
  bool bad(const Cfg&c,const char*k,const std::string&s){ x.viol(fmt("%s:%s",f.name,k),cfgstr(f,c)+": "+s); return false; }
  bool same(const Guard&a,const Guard&b){ for(int k=0;k<f.nout;k++) for(int i=-Guard::G;i<a.n+Guard::G;i++) if(a.untouched(k,i)!=b.untouched(k,i)||!biteq(a.get(k,i),b.get(k,i))) return false; return true; }
  bool one(const Cfg&c,bool setopt,bool rev){
    std::string id= setopt? "": "(options left at their initial values) "; if(x.trace) x.step(cfgstr(f,c)+" "+id); x.cov.states++;
    Abs a(f); if(a.rc) return bad(c,"alloc",fmt("handle/holder: %d",a.rc)); Guard g0; g0.prep(f,n);
    if(setopt&&a.opt(c.o,0,rev)) return bad(c,"set","setting an option failed"); if(a.in(price,d,0)||a.out(g0.q)) return bad(c,"set","setting inputs/outputs failed");
    int lb=f.lookback(c.o),al=-77; int r=TA_GetLookback(a.p,&al); x.cov.transitions++; if(r||al!=lb) return bad(c,"lookback",id+fmt("TA_GetLookback rc %d gives %d, direct %d",r,al,lb));
    for(int w=0;w<6;w++){ int L=std::min(std::max(lb,0),n-1); int s=w==0?0:w==1?std::min(L+1,n-1):w==2?n-1:w==3?0:w==4?std::max(L-1,0):L, e=w==1?n-2:w==3?std::max(L-1,0):w==4?L:n-1; if(s>e) continue; Guard g,q; g.prep(f,n); q.prep(f,n); a.out(g.q); int b=-9,m=-9,b2=-9,m2=-9; r=TA_CallFunc(a.p,s,e,&b,&m); int r2=f.batch(s,e,d.p,c.o,&b2,&m2,q.q); x.cov.transitions+=2; x.cov.traces++;
      if(r!=r2||b!=b2||m!=m2) return bad(c,"rc",id+fmt("[%d..%d] rc %d window %d/%d, direct rc %d window %d/%d",s,e,r,b,m,r2,b2,m2)); if(!same(g,q)) return bad(c,"value",id+fmt("[%d..%d] outputs differ from the direct call",s,e)); }
    // ranges that must be refused alike
    for(int w=0;w<3;w++){ int s=w==0?-1:w==1?5:0,e=w==0?3:w==1?4:-1,b=-9,m=-9,b2=-9,m2=-9; Guard q; q.prep(f,n); r=TA_CallFunc(a.p,s,e,&b,&m); int r2=f.batch(s,e,d.p,c.o,&b2,&m2,q.q); if(r!=r2||b!=b2||m!=m2) return bad(c,"range-rc",id+fmt("[%d..%d] rc %d, direct %d",s,e,r,r2)); }
    // streaming
    void*st=0; r=TA_InitNewState(a.p); int r2=f.sinit(&st,c.o); x.cov.transitions+=2; if(r!=r2) return bad(c,"init",id+fmt("TA_InitNewState %d, direct %d",r,r2)); if(r2) return true;
    void*ast=0; if(TA_GetParamStatePtr(a.p,&ast)||!ast){ f.sfree(&st); return bad(c,"stateptr",id+"TA_GetParamStatePtr gives no object"); }
    bool ok=true; double v[6]; int half=n/2; const TA_FuncInfo*fi=0; TA_GetFuncInfo(a.h,&fi); TA_StateFunc fs=0; TA_GetCallFuncStateFuncPtr(fi,&fs);
    for(int i=0;i<half&&ok;i++){ Guard g,q; g.prep(f,1); q.prep(f,1); a.in(price,d,i); a.out(g.q); d.at(i,v); r= (i&1)&&fs? fs(a.p->hiddenData): TA_CallFuncState(a.p); r2=f.sstep(st,v,q.q); x.cov.transitions+=2; if(r!=r2||!same(g,q)) ok=bad(c,"state",id+fmt("bar %d: TA_CallFuncState rc %d value %.17g, direct rc %d value %.17g",i,r,g.get(0,0),r2,q.get(0,0))); }
    // save through either interface, load through the other
    if(ok){ MemFile m1,m2; r=TA_SaveState(a.p,m1.f); r2=f.ssave(st,m2.f); m1.done(); m2.done(); if(r||r2||m1.len!=m2.len) ok=bad(c,"save",id+fmt("TA_SaveState rc %d %zu bytes, direct rc %d %zu bytes",r,m1.len,r2,m2.len));
      if(ok){ Abs b(f); if(setopt) b.opt(c.o); FILE*g1=fmemopen(m2.buf,m2.len,"rb"); r=TA_LoadState(b.p,g1); fclose(g1); void*z=0; g1=fmemopen(m1.buf,m1.len,"rb"); r2=f.sload(&z,g1); fclose(g1); if(r||r2||!z) ok=bad(c,"load",id+fmt("TA_LoadState rc %d, direct load of the saved record rc %d",r,r2));
        // the rest of the history: abstract batch-feed of the loaded object against direct batch-feed
        if(ok){ Guard g,q,y; g.prep(f,n); q.prep(f,n); y.prep(f,n); int b1=-9,k1=-9,b2=-9,k2=-9; b.in(price,d,0); b.out(g.q); r=TA_CallFuncBatchState(b.p,half,n-1,&b1,&k1); r2=f.sbatch(z,half,n-1,d.p,&b2,&k2,q.q); if(r!=r2||b1!=b2||k1!=k2||!same(g,q)) ok=bad(c,"batchstate",id+fmt("bars %d..%d: TA_CallFuncBatchState rc %d %d/%d, direct rc %d %d/%d",half,n-1,r,b1,k1,r2,b2,k2)); 
          a.in(price,d,0); a.out(y.q); int b3=-9,k3=-9; r=TA_CallFuncBatchState(a.p,half,n-1,&b3,&k3); if(ok&&(r!=r2||b3!=b2||k3!=k2||!same(y,q))) ok=bad(c,"batchstate",id+"batch-feeding the original object differs from the loaded one"); x.cov.transitions+=3; }
        f.sfree(&z); r=TA_FreeState(b.p); void*e=(void*)1; TA_GetParamStatePtr(b.p,&e); if(ok&&(r||e)) ok=bad(c,"free",id+fmt("TA_FreeState rc %d leaves object %p",r,e)); } }
    if(ok){ // attaching a directly created object
      Abs b(f); TA_SetParamStatePtr(b.p,st); void*e=0; TA_GetParamStatePtr(b.p,&e); if(e!=st) ok=bad(c,"setstate",id+"TA_SetParamStatePtr/TA_GetParamStatePtr do not agree"); TA_FreeState(b.p); st=0; }
    if(st) f.sfree(&st); x.cov.traces++; return ok; } };
void job(const FD&f,const std::vector<Cfg>&cs,int kind,Ctx&x){ T t{f,x}; long live; for(int hw=0;hw<(x.tier?6:2);hw++){ t.n=hw&1?96:48; t.h=base_hist(f,5-hw,t.n); t.d.set(f,t.h); for(int k=0;k<6;k++){ t.price[k].clear(); for(auto&b:t.h) t.price[k].push_back(b.v[k]); }
  for(auto&c:cs){ if(x.full()) return; apply(c); live=g_live; for(int rev=0;rev<(f.nopt>1?2:1);rev++) if(!t.one(c,true,rev)) break; if(g_live!=live){ t.bad(c,"leak",fmt("%ld allocations left",g_live-live)); live=g_live; } x.sample(cfgstr(f,c)); }
  if(kind==0){ Cfg c; memset(&c,0,sizeof c); for(int i=0;i<f.nopt;i++) c.o[i]=f.opt[i].df; apply(c); t.one(c,false,false); } } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier); a.insert(a.end(),l.begin(),l.end());
    Cfg c; memset(&c,0,sizeof c); for(int j=0;j<f.nopt;j++) c.o[j]=f.opt[j].df;
    for(int j=0;j<f.nopt;j++){ bool re=f.opt[j].type==1; for(double v:{re?-4e37:(double)INT_MIN,f.opt[j].mn,f.opt[j].mn-1,f.opt[j].mx,f.opt[j].mx+ (re?1e30:1)}){ Cfg e=c; e.o[j]=v; a.push_back(e); } }
    for(size_t k=0;k<a.size();k+=40){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+40)); int kind=k; J.push_back({fmt("%s/abstract/%zu",f.name,k),[&f,s,kind](Ctx&x){job(f,s,kind,x);}}); } } }
Reg r({"C15","model_checking","states = parameter vectors driven through a parameter holder (options set in both orders); transitions = abstract and direct calls; traces = calls and streaming sessions compared element by element with the direct call",gen,
 {"six distinct price arrays are handed to every price input, so that using a wrong component is visible"},
 "all parameter/settings combinations of both domains plus every option at default marker, bounds and just outside; 6 windows around the lookback, 3 refused ranges, half of the history streamed bar by bar, save/load across the two interfaces, the other half batch-fed; 6 histories of 48 and 96 bars"});
}
