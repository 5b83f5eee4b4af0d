// C05: every allocation failure of every operation.
#include "abs.h"
#include "life.h"
namespace {
bool bad(Ctx&x,const FD&f,const char*k,const std::string&d){ x.viol(fmt("%s:%s",f.name,k),d); return false; }
// runs op with the k-th allocation failing, for every k
template<class F,class G> void every(Ctx&x,const FD&f,const char*kind,const std::string&id,F op,G cleanup){
  for(long k=0;k<4000&&!x.full();k++){ if(x.trace) x.step(id+fmt(" %s: allocation %ld fails",kind,k));
    long live=g_live; g_nalloc=0; g_fail_at=k; int rc=op(); bool hit=g_nalloc>k; g_fail_at=-1; x.cov.transitions++;
    std::string cl=cleanup(); x.cov.states+=hit;
    if(!hit){ x.cov.traces++; if(g_live!=live) bad(x,f,kind,id+fmt(" %s: leaks %ld allocations without any failure",kind,g_live-live)); return; }
    if(rc!=TA_ALLOC_ERR) bad(x,f,kind,id+fmt(" %s: allocation %ld failed but the call returned %d",kind,k,rc));
    else if(cl.size()) bad(x,f,kind,id+fmt(" %s: allocation %ld failed: ",kind,k)+cl);
    if(g_live!=live){ bad(x,f,kind,id+fmt(" %s: allocation %ld failed and %ld allocations leak",kind,k,g_live-live)); g_live=live; } } }
// the same operations through a parameter holder
void abst(Ctx&x,const FD&f,const Cfg&c,const Data&d,MemFile&mf,Out&o,int n,int lb,const std::string&id){
  std::vector<double> pr[6]; for(int k=0;k<6;k++){ pr[k].assign(n,1.0); for(int i=0;i<f.nin;i++) if(f.ik[i]==k) pr[k].assign(d.p[i],d.p[i]+n); }
  auto none=[]{ return std::string(); }; const TA_FuncHandle*h=0; TA_GetFuncHandle(f.name,&h); int b,m;
  every(x,f,"holder",id,[&]{ TA_ParamHolder*p=0; int r=TA_ParamHolderAlloc(h,&p); if(!r) TA_ParamHolderFree(p); return r; },none);
  auto hold=[&](const char*kind,auto op){ Abs*a=0; every(x,f,kind,id,[&]{ long k=g_fail_at; g_fail_at=-1; a=new Abs(f); a->opt(c.o); a->in(pr,d,0); a->out(o.q); g_nalloc=0; g_fail_at=k; return op(*a); },
     [&]{ int r=TA_FreeState(a->p); void*e=(void*)1; TA_GetParamStatePtr(a->p,&e); std::string s= r||e? fmt("the holder's object cannot be freed (rc %d, %p left)",r,e): ""; r=TA_FreeState(a->p); if(s.empty()&&r) s=fmt("a second TA_FreeState returns %d",r); delete a; return s; }); };
  hold("call",[&](Abs&a){ return (int)TA_CallFunc(a.p,0,n-1,&b,&m); });
  hold("callinit",[&](Abs&a){ return (int)TA_InitNewState(a.p); });
  hold("callload",[&](Abs&a){ FILE*g=fmemopen(mf.buf,mf.len,"rb"); int r=TA_LoadState(a.p,g); fclose(g); return r; });
  hold("callfeed",[&](Abs&a){ long k=g_fail_at; g_fail_at=-1; int r=TA_InitNewState(a.p); g_nalloc=0; g_fail_at=k; if(r) return r; r=TA_CallFuncBatchState(a.p,0,n-1,&b,&m); int r2=TA_CallFuncState(a.p); if(r2!=TA_NEED_MORE_DATA&&r2) r=r2; return r==TA_NEED_MORE_DATA?0:r; }); }
void tables(Ctx&x){ auto none=[]{ return std::string(); }; const FD&f=FTAB[0]; static const char*G[]={"Math Operators","Math Transform","Overlap Studies","Volatility Indicators","Momentum Indicators","Cycle Indicators","Volume Indicators","Pattern Recognition","Statistic Functions","Price Transform"};
  every(x,f,"grouptable","group table",[&]{ TA_StringTable*t=0; int r=TA_GroupTableAlloc(&t); if(!r) TA_GroupTableFree(t); return r; },none);
  for(auto g:G) every(x,f,"functable",fmt("function table of %s",g),[&]{ TA_StringTable*t=0; int r=TA_FuncTableAlloc(g,&t); if(!r) TA_FuncTableFree(t); return r; },none);
  every(x,f,"xml","description",[&]{ return TA_FunctionDescriptionXML()?0:(int)TA_ALLOC_ERR; },none);
  every(x,f,"initialize","TA_Initialize/TA_Shutdown",[&]{ int r=TA_Initialize(); int q=TA_Shutdown(); return r?r:q; },none); long k=g_fail_at; g_fail_at=-1; TA_Initialize(); g_fail_at=k; quiet_reset(); }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  auto none=[]{ return std::string(); };
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0||lb>400){ x.cov.skipped++; continue; }
    Data d; Hist h=base_hist(f,4,lb+8); d.set(f,h,true); int n=d.n; Out o; o.prep(f,n+4); int b,m; std::string id=cfgstr(f,c); x.sample(id);
    for(int s:{0,lb,lb+2}) for(int e:{lb,n-1}) if(s<=e){
      every(x,f,"batch",id+fmt(" %d..%d",s,e),[&]{ return f.batch(s,e,d.p,c.o,&b,&m,o.q); },none);
      every(x,f,"float",id+fmt(" %d..%d",s,e),[&]{ return f.batchf(s,e,d.pf,c.o,&b,&m,o.q); },none); }
    void*st=0; auto fr=[&]{ int r=f.sfree(&st); bool ok=r==TA_SUCCESS&&!st; st=0; return ok?std::string():fmt("the handle cannot be freed (rc %d)",r); };
    every(x,f,"init",id,[&]{ st=0; return f.sinit(&st,c.o); },fr);
    // steps of a live object
    { void*s2=0; if(f.sinit(&s2,c.o)==TA_SUCCESS){ double v[6]; for(int i=0;i<n;i++){ d.at(i,v); g_nalloc=0; Out1 q(f); f.sstep(s2,v,q.q); if(g_nalloc) x.note("steps that allocate"); x.cov.transitions++; }
        MemFile mf; f.ssave(s2,mf.f); mf.done(); f.sfree(&s2);
        every(x,f,"load",id,[&]{ st=0; FILE*g=fmemopen(mf.buf,mf.len,"rb"); int r=f.sload(&st,g); fclose(g); return r; },fr);
        // feeding a loaded object further: in one go, bar by bar, and after a failure (the object must stay freeable)
        for(int w=0;w<3;w++) every(x,f,w?"step":"batchfeed",id,[&]{ long k=g_fail_at; g_fail_at=-1; st=0; FILE*g=fmemopen(mf.buf,mf.len,"rb"); f.sload(&st,g); fclose(g); g_nalloc=0; g_fail_at=k; int r=0; Out1 q(f); double v[6];
          if(!w) r=f.sbatch(st,0,n-1,d.p,&b,&m,o.q); else for(int i=0;i<n;i++){ d.at((i*w)%n,v); int z=f.sstep(st,v,q.q); if(z!=TA_SUCCESS&&z!=TA_NEED_MORE_DATA){ r=z; break; } } return r; },fr);
        every(x,f,"save",id,[&]{ long k=g_fail_at; g_fail_at=-1; st=0; FILE*g=fmemopen(mf.buf,mf.len,"rb"); f.sload(&st,g); fclose(g); MemFile z; g_nalloc=0; g_fail_at=k; int r=f.ssave(st,z.f); z.done(); return r; },fr);
        abst(x,f,c,d,mf,o,n,lb,id);
        MemFile m0; f.sinit(&s2,c.o); f.ssave(s2,m0.f); m0.done(); f.sfree(&s2);
        every(x,f,"load0",id,[&]{ st=0; FILE*g=fmemopen(m0.buf,m0.len,"rb"); int r=f.sload(&st,g); fclose(g); return r; },fr); } } } }
void gen(std::vector<Job>&J,int tier){ J.push_back({"tables/alloc",[](Ctx&x){tables(x);}}); for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; auto a=cfgs_life(f,tier,tier>1?100000:tier?400:60); for(size_t k=0;k<a.size();k+=8){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+8)); J.push_back({fmt("%s/alloc/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C05","fault_enumeration","one evaluation per (function, parameters/settings, operation, index k of the failing allocation); distinct_nontrivial counts those where the k-th allocation really happened and was refused",gen,
 {"exactly one allocation fails per operation (a second failure would have to happen inside error handling, which allocates nothing)","memory is obtained through malloc/calloc/realloc (interposed inside the library)"},
 "every allocation index of batch (double and float), StateInit, StateLoad, StateSave, single-step and batch-feed, the abstract layer's tables, holders, calls and streaming calls for up to 400 (thorough: all) configurations per function"});
}
