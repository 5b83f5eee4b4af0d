// C16: parameter holders under every short sequence of operations, against a model of the protocol.
#include "abs.h"
namespace {
const int N=10;
enum K { SETIN, SETIN_NULL, SETIN_WRONG, SETIN_IDX, SETOPT, SETOPT_WRONG, SETOPT_IDX, SETOUT, SETOUT_NULL, SETOUT_WRONG, SETOUT_IDX, LOOK, CALL, CALL_NULL, SINIT, STEP, SFREE, BATCH };
struct Op { K k; int i,v; };
struct M { const FD&f; Ctx&x; std::vector<AIn> A; std::vector<Op> ops; std::vector<double> buf[2][6], real[2][2]; double v0[8],v1[8];
  M(const FD&ff,Ctx&xx):f(ff),x(xx){ A=ainputs(f); bool full=f.nopt<=2&&f.nout<=2;
    for(int i=0;i<(int)A.size();i++){ for(int v=0;v<2;v++) ops.push_back({SETIN,i,v}); if(A[i].price) for(int k:A[i].k) ops.push_back({SETIN_NULL,i,(int)f.ik[k]}); else ops.push_back({SETIN_NULL,i,0}); ops.push_back({SETIN_WRONG,i,0}); ops.push_back({SETIN_WRONG,i,1}); }
    ops.push_back({SETIN_IDX,0,0});
    for(int i=0;i<f.nopt;i++){ ops.push_back({SETOPT,i,0}); if(full||i==0) ops.push_back({SETOPT,i,1}); ops.push_back({SETOPT_WRONG,i,0}); } ops.push_back({SETOPT_IDX,0,0});
    for(int i=0;i<f.nout;i++){ ops.push_back({SETOUT,i,0}); ops.push_back({SETOUT,i,1}); ops.push_back({SETOUT_NULL,i,0}); ops.push_back({SETOUT_WRONG,i,0}); } ops.push_back({SETOUT_IDX,0,0});
    for(K k:{LOOK,CALL,CALL_NULL,SINIT,STEP,SFREE,BATCH}) ops.push_back({k,0,0});
    for(int b=0;b<2;b++){ Hist h=base_hist(f,4+b,N); for(int k=0;k<6;k++) for(auto&y:h) buf[b][k].push_back(y.v[k]); for(int k=0;k<2;k++) for(auto&y:h) real[b][k].push_back(y.v[k==0? slot(f,A[0].k[0]): 8]); }
    for(int i=0;i<f.nopt;i++){ if(f.opt[i].type==1){ v0[i]=f.opt[i].df; v1[i]=f.opt[i].df==0.5?0.25:0.5; } else if(f.opt[i].type==2){ v0[i]=0; v1[i]=2; } else { v0[i]=std::max(2.0,f.opt[i].mn); v1[i]=std::max(3.0,f.opt[i].mn+1); } } }
  std::string name(const Op&o){ static const char*n[]={"SetInput","SetInput(NULL component)","SetInput(wrong type)","SetInput(bad index)","SetOpt","SetOpt(wrong type)","SetOpt(bad index)","SetOutput","SetOutput(NULL)","SetOutput(wrong type)","SetOutput(bad index)","GetLookback","CallFunc","CallFunc(NULL)","InitNewState","CallFuncState","FreeState","CallFuncBatchState"}; return fmt("%s[%d,%d]",n[o.k],o.i,o.v); }
  std::string seqstr(const std::vector<int>&s,int n){ std::string r=fmt("TA_%s:",f.name); for(int i=0;i<n;i++) r+=" "+name(ops[s[i]]); return r; }
  const double* comp(int b,int k,bool fl){ return fl?buf[b][k].data():0; }
  bool run(const std::vector<int>&s){
    // model
    int in[2]={-1,-1}; double opt[8]; int out[3]={-1,-1,-1}; void*shadow=0; for(int i=0;i<f.nopt;i++) opt[i]=f.opt[i].df;
    Guard G[2],D; G[0].prep(f,N); G[1].prep(f,N); D.prep(f,N); long live=g_live; bool ok=true; int j=0;
    { TA_ParamHolder*p=0; const TA_FuncHandle*h=0; if(TA_GetFuncHandle(f.name,&h)||TA_ParamHolderAlloc(h,&p)){ x.viol(fmt("%s:alloc",f.name),"holder allocation failed"); return false; }
      int wi=A.size()>1?1:0; (void)wi;
      auto chk=[&](int r,int e)->bool{ x.cov.transitions++; if(r!=e){ x.viol(fmt("%s:rc",f.name),seqstr(s,j+1)+fmt(" -> %d, expected %d",r,e)); return ok=false; } return true; };
      auto inptr=[&](const double**q,int off){ for(size_t i=0;i<A.size();i++) for(int k:A[i].k) q[k]= A[i].price? buf[in[i]][f.ik[k]].data()+off: real[in[i]][i?1:0].data()+off; };
      auto missing=[&]()->int{ for(size_t i=0;i<A.size();i++) if(in[i]<0) return TA_INPUT_NOT_ALL_INITIALIZE; for(int i=0;i<f.nout;i++) if(out[i]<0) return TA_OUTPUT_NOT_ALL_INITIALIZE; return 0; };
      auto cmp=[&](const char*what){ for(int k=0;k<f.nout;k++) for(int i=0;i<N;i++) if(!biteq(G[out[k]].get(k,i),D.get(k,i))||G[out[k]].untouched(k,i)!=D.untouched(k,i)){ x.viol(fmt("%s:value",f.name),seqstr(s,j+1)+fmt(" -> %s output %d element %d is %.17g, expected %.17g",what,k,i,G[out[k]].get(k,i),D.get(k,i))); return ok=false; } return true; };
      auto fresh=[&](){ for(auto*g:{&G[0],&G[1],&D}) for(int k=0;k<f.nout;k++){ if(f.out[k].isint) std::fill(g->i[k].begin(),g->i[k].end(),Guard::CI()); else std::fill(g->d[k].begin(),g->d[k].end(),Guard::CD()); } };
      for(j=0;j<(int)s.size()&&ok;j++){ const Op&o=ops[s[j]]; int r;
        switch(o.k){
        case SETIN: case SETIN_NULL: { bool nul=o.k==SETIN_NULL; int b=nul?1-std::max(in[o.i],0):o.v; if(A[o.i].price){ auto q=[&](int k){ return comp(b,k,!(nul&&o.v==k)); }; r=TA_SetInputParamPricePtr(p,o.i,q(0),q(1),q(2),q(3),q(4),q(5)); } else r=TA_SetInputParamRealPtr(p,o.i,nul?0:real[b][o.i?1:0].data()); chk(r,nul?TA_BAD_PARAM:0); if(!nul) in[o.i]=b; break; }
        case SETIN_WRONG: { if(o.v){ int z=0; r=TA_SetInputParamIntegerPtr(p,o.i,&z); } else r= A[o.i].price? TA_SetInputParamRealPtr(p,o.i,real[0][0].data()): TA_SetInputParamPricePtr(p,o.i,comp(0,0,1),comp(0,1,1),comp(0,2,1),comp(0,3,1),comp(0,4,1),comp(0,5,1)); chk(r,TA_INVALID_PARAM_HOLDER_TYPE); break; }
        case SETIN_IDX: for(unsigned u:{(unsigned)A.size(),(unsigned)A.size()+7,0xffffffffu}){ chk(TA_SetInputParamRealPtr(p,u,real[0][0].data()),TA_BAD_PARAM); chk(TA_SetInputParamPricePtr(p,u,comp(0,0,1),comp(0,1,1),comp(0,2,1),comp(0,3,1),comp(0,4,1),comp(0,5,1)),TA_BAD_PARAM); } break;
        case SETOPT: { double v=o.v?v1[o.i]:v0[o.i]; r= f.opt[o.i].type==1? TA_SetOptInputParamReal(p,o.i,v): TA_SetOptInputParamInteger(p,o.i,(int)v); if(chk(r,0)) opt[o.i]=v; break; }
        case SETOPT_WRONG: chk(f.opt[o.i].type==1? TA_SetOptInputParamInteger(p,o.i,7): TA_SetOptInputParamReal(p,o.i,7),TA_INVALID_PARAM_HOLDER_TYPE); break;
        case SETOPT_IDX: for(unsigned u:{(unsigned)f.nopt,(unsigned)f.nopt+9,0xffffffffu}){ chk(TA_SetOptInputParamInteger(p,u,7),TA_BAD_PARAM); chk(TA_SetOptInputParamReal(p,u,7),TA_BAD_PARAM); } break;
        case SETOUT: r= f.out[o.i].isint? TA_SetOutputParamIntegerPtr(p,o.i,(int*)G[o.v].q[o.i]): TA_SetOutputParamRealPtr(p,o.i,(double*)G[o.v].q[o.i]); if(chk(r,0)) out[o.i]=o.v; break;
        case SETOUT_NULL: chk(f.out[o.i].isint? TA_SetOutputParamIntegerPtr(p,o.i,0): TA_SetOutputParamRealPtr(p,o.i,0),TA_BAD_PARAM); break;
        case SETOUT_WRONG: { int z; double y; chk(f.out[o.i].isint? TA_SetOutputParamRealPtr(p,o.i,&y): TA_SetOutputParamIntegerPtr(p,o.i,&z),TA_INVALID_PARAM_HOLDER_TYPE); break; }
        case SETOUT_IDX: for(unsigned u:{(unsigned)f.nout,(unsigned)f.nout+5,0xffffffffu}){ int z; double y; chk(TA_SetOutputParamRealPtr(p,u,&y),TA_BAD_PARAM); chk(TA_SetOutputParamIntegerPtr(p,u,&z),TA_BAD_PARAM); } break;
        case LOOK: { int l=-5; if(chk(TA_GetLookback(p,&l),0)&&l!=f.lookback(opt)){ x.viol(fmt("%s:lookback",f.name),seqstr(s,j+1)+fmt(" -> %d, expected %d",l,f.lookback(opt))); ok=false; } chk(TA_GetLookback(p,0),TA_BAD_PARAM); chk(TA_GetLookback(0,&l),TA_BAD_PARAM); break; }
        case CALL: { int b=-9,m=-9,b2=-9,m2=-9,e=missing(); if(!e){ fresh(); const double*q[6]; inptr(q,0); e=f.batch(0,N-1,q,opt,&b2,&m2,D.q); r=TA_CallFunc(p,0,N-1,&b,&m); if(chk(r,e)&&(b!=b2||m!=m2)){ x.viol(fmt("%s:window",f.name),seqstr(s,j+1)+fmt(" -> window %d/%d, expected %d/%d",b,m,b2,m2)); ok=false; } if(ok) cmp("CallFunc"); } else chk(TA_CallFunc(p,0,N-1,&b,&m),e); break; }
        case CALL_NULL: { int b,m; chk(TA_CallFunc(p,0,N-1,0,&m),TA_BAD_PARAM); chk(TA_CallFunc(p,0,N-1,&b,0),TA_BAD_PARAM); chk(TA_CallFunc(0,0,N-1,&b,&m),TA_BAD_PARAM); chk(TA_CallFuncBatchState(p,0,1,0,&m),TA_BAD_PARAM); chk(TA_CallFuncState(0),TA_BAD_PARAM); chk(TA_InitNewState(0),TA_BAD_PARAM); chk(TA_FreeState(0),TA_BAD_PARAM); chk(TA_GetParamStatePtr(p,0),TA_BAD_PARAM); break; }
        case SINIT: if(!shadow){ int e=f.sinit(&shadow,opt); chk(TA_InitNewState(p),e); } break;
        case STEP: { int e=missing(); if(!e){ fresh(); const double*q[6]; inptr(q,0); double v[6]; for(int k=0;k<f.nin;k++) v[k]=q[k][0]; e=f.sstep(shadow,v,D.q); if(chk(TA_CallFuncState(p),e)) cmp("CallFuncState"); } else chk(TA_CallFuncState(p),e); break; }
        case BATCH: { int b=-9,m=-9,b2=-9,m2=-9,e=missing(); if(!e){ if(!shadow){ chk(TA_CallFuncBatchState(p,1,N-1,&b,&m),TA_BAD_PARAM); break; } fresh(); const double*q[6]; inptr(q,0); e=f.sbatch(shadow,1,N-1,q,&b2,&m2,D.q); if(chk(TA_CallFuncBatchState(p,1,N-1,&b,&m),e)&&(b!=b2||m!=m2)){ x.viol(fmt("%s:window",f.name),seqstr(s,j+1)+fmt(" -> batch-state window %d/%d, expected %d/%d",b,m,b2,m2)); ok=false; } if(ok) cmp("CallFuncBatchState"); } else chk(TA_CallFuncBatchState(p,1,N-1,&b,&m),e); break; }
        case SFREE: { f.sfree(&shadow); shadow=0; if(chk(TA_FreeState(p),0)){ void*z=(void*)1; TA_GetParamStatePtr(p,&z); if(z){ x.viol(fmt("%s:freestate",f.name),seqstr(s,j+1)+" leaves an object"); ok=false; } } break; }
        } }
      if(ok) for(int k=0;k<f.nout;k++) for(int b=0;b<2;b++) for(int i=0;i<Guard::G;i++) if(!G[b].untouched(k,-1-i)||!G[b].untouched(k,N+i)){ x.viol(fmt("%s:guard",f.name),seqstr(s,s.size())+" wrote outside the output"); ok=false; }
      f.sfree(&shadow); TA_FreeState(p); int r=TA_ParamHolderFree(p); if(r){ x.viol(fmt("%s:free",f.name),fmt("TA_ParamHolderFree returned %d",r)); ok=false; } }
    if(ok&&g_live!=live){ x.viol(fmt("%s:leak",f.name),seqstr(s,s.size())+fmt(" leaves %ld allocations",g_live-live)); ok=false; }
    x.cov.states++; x.cov.traces++; return ok; } };
void job(const FD&f,int depth,int part,int np,Ctx&x){ Cfg c; memset(&c,0,sizeof c); apply(c); M m(f,x); int K=m.ops.size(); x.note("functions",part==0);
  // "ready" prefixes put the holder in a complete state first, so the calls inside the explored suffix really execute
  std::vector<int> ready; for(int i=0;i<K;i++){ auto&o=m.ops[i]; if((o.k==SETIN||o.k==SETOUT)&&o.v==0) ready.push_back(i); if(o.k==SETOPT&&o.v==0) ready.push_back(i); }
  std::vector<int> ready2=ready; for(int i=0;i<K;i++) if(m.ops[i].k==SINIT) ready2.push_back(i);
  int call=-1; for(int i=0;i<K;i++) if(m.ops[i].k==CALL) call=i;
  for(auto&pre:{std::vector<int>(),ready,ready2}){ std::vector<int> ix(depth,0); uint64_t k=0; while(1){ if((k++%np)==(uint64_t)part){ std::vector<int> s=pre; s.insert(s.end(),ix.begin(),ix.end()); s.push_back(call); if(x.trace) x.step(m.seqstr(s,s.size())); if(!m.run(s)&&x.full()) return; if(k==5) x.sample(m.seqstr(s,s.size())); }
      int j=depth-1; while(j>=0&&++ix[j]==K) ix[j--]=0; if(j<0) break; } } }
void misc(Ctx&x){ // handles and holders that are not what they claim to be
  auto chk=[&](const char*w,int r,int e){ x.cov.transitions++; x.cov.states++; x.cov.traces++; if(r!=e) x.viol(fmt("misc:%s",w),fmt("%s returned %d, expected %d",w,r,e)); };
  const TA_FuncHandle*h=(const TA_FuncHandle*)1; chk("GetFuncHandle(NULL)",TA_GetFuncHandle(0,&h),TA_BAD_PARAM); chk("GetFuncHandle(,NULL)",TA_GetFuncHandle("SMA",0),TA_BAD_PARAM);
  chk("ParamHolderAlloc(NULL)",TA_ParamHolderAlloc(0,0),TA_BAD_PARAM); chk("ParamHolderFree(NULL)",TA_ParamHolderFree(0),0);
  TA_FuncHandle fake[64]={0}; TA_ParamHolder*p=(TA_ParamHolder*)1; chk("ParamHolderAlloc(fake handle)",TA_ParamHolderAlloc(fake,&p),TA_INVALID_HANDLE); if(p) x.viol("misc:fake-handle-out","holder pointer not cleared");
  const TA_FuncInfo*fi; chk("GetFuncInfo(fake)",TA_GetFuncInfo(fake,&fi),TA_INVALID_HANDLE); const TA_InputParameterInfo*ii; const TA_OptInputParameterInfo*oi; const TA_OutputParameterInfo*ui;
  chk("GetInputParameterInfo(fake)",TA_GetInputParameterInfo(fake,0,&ii),TA_INVALID_HANDLE); chk("GetOptInputParameterInfo(fake)",TA_GetOptInputParameterInfo(fake,0,&oi),TA_INVALID_HANDLE); chk("GetOutputParameterInfo(fake)",TA_GetOutputParameterInfo(fake,0,&ui),TA_INVALID_HANDLE);
  struct { TA_ParamHolder p; char priv[256]; } fp; memset(&fp,0,sizeof fp); fp.p.hiddenData=fp.priv; double y=0; int z=0,b,m; TA_ParamHolder*q=&fp.p; void*st;
  chk("ParamHolderFree(fake)",TA_ParamHolderFree(q),TA_INVALID_PARAM_HOLDER); chk("SetInputParamRealPtr(fake)",TA_SetInputParamRealPtr(q,0,&y),TA_INVALID_PARAM_HOLDER); chk("SetInputParamIntegerPtr(fake)",TA_SetInputParamIntegerPtr(q,0,&z),TA_INVALID_PARAM_HOLDER); chk("SetInputParamPricePtr(fake)",TA_SetInputParamPricePtr(q,0,&y,&y,&y,&y,&y,&y),TA_INVALID_PARAM_HOLDER);
  chk("SetOptInputParamInteger(fake)",TA_SetOptInputParamInteger(q,0,1),TA_INVALID_PARAM_HOLDER); chk("SetOptInputParamReal(fake)",TA_SetOptInputParamReal(q,0,1),TA_INVALID_PARAM_HOLDER); chk("SetOutputParamRealPtr(fake)",TA_SetOutputParamRealPtr(q,0,&y),TA_INVALID_PARAM_HOLDER); chk("SetOutputParamIntegerPtr(fake)",TA_SetOutputParamIntegerPtr(q,0,&z),TA_INVALID_PARAM_HOLDER);
  chk("GetLookback(fake)",TA_GetLookback(q,&z),TA_INVALID_PARAM_HOLDER); chk("CallFunc(fake)",TA_CallFunc(q,0,1,&b,&m),TA_INVALID_PARAM_HOLDER); chk("InitNewState(fake)",TA_InitNewState(q),TA_INVALID_PARAM_HOLDER); chk("CallFuncState(fake)",TA_CallFuncState(q),TA_INVALID_PARAM_HOLDER); chk("CallFuncBatchState(fake)",TA_CallFuncBatchState(q,0,1,&b,&m),TA_INVALID_PARAM_HOLDER); chk("FreeState(fake)",TA_FreeState(q),TA_INVALID_PARAM_HOLDER); chk("SaveState(fake)",TA_SaveState(q,0),TA_INVALID_PARAM_HOLDER); chk("LoadState(fake)",TA_LoadState(q,0),TA_INVALID_PARAM_HOLDER); chk("GetParamStatePtr(fake)",TA_GetParamStatePtr(q,&st),TA_INVALID_PARAM_HOLDER); chk("SetParamStatePtr(fake)",TA_SetParamStatePtr(q,0),TA_INVALID_PARAM_HOLDER);
  for(int i=0;i<6;i++){ chk("Set*(NULL holder)", i==0?TA_SetInputParamRealPtr(0,0,&y): i==1?TA_SetInputParamIntegerPtr(0,0,&z): i==2?TA_SetInputParamPricePtr(0,0,&y,&y,&y,&y,&y,&y): i==3?TA_SetOptInputParamInteger(0,0,1): i==4?TA_SetOutputParamRealPtr(0,0,&y): TA_SetOutputParamIntegerPtr(0,0,&z),TA_BAD_PARAM); } }
void gen(std::vector<Job>&J,int tier){ J.push_back({"misc/holders",[](Ctx&x){misc(x);}});
  static const char*deep[]={"SMA","BBANDS","STOCH","CDLDOJI","MAVP","AROON","MINMAXINDEX","ADD","AD","MFI","CDLMORNINGSTAR","MAXINDEX","BOP","IMI",0};
  for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; bool d=false; for(int k=0;deep[k];k++) d|=is(f,deep[k]); int depth=(tier>1?(d?5:4):tier?(d?4:3):(d?3:2)), np=depth>=3?8:1; for(int p=0;p<np;p++) J.push_back({fmt("%s/holder/%d",f.name,p),[&f,depth,p,np](Ctx&x){job(f,depth,p,np,x);}}); } }
Reg r({"C16","model_checking","states = operation sequences executed on a fresh parameter holder and on the protocol model (bound inputs, options, outputs, object; the model's calls go through the direct functions); transitions = return codes checked; every sequence ends with a call whose outputs are compared with the model's",gen,
 {"TA_InitNewState is issued only when the holder has no object (a second one would abandon the first)"},
 "every sequence of 3 operations (4 for 14 functions of all interface shapes; thorough 4/5) out of 15-45 operations per function, from the empty holder, from a completely filled one and from one with an object"});
}
