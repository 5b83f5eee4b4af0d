// the abstract interface seen through the frozen call table
#pragma once
#include "win.h"
extern "C" {
#include "ta_abstract.h"
}
// abstract inputs: every run of price components is one price input, every other input stands alone
struct AIn { bool price; int flags; std::vector<int> k; };   // k: indices into FD inputs
inline std::vector<AIn> ainputs(const FD&f){ std::vector<AIn> v; for(int i=0;i<f.nin;i++){ int t=f.ik[i]; if(t<6){ if(v.empty()||!v.back().price) v.push_back({true,0,{}}); v.back().flags|=1<<t; v.back().k.push_back(i); } else v.push_back({false,0,{i}}); } return v; }
struct Abs { const FD&f; TA_ParamHolder*p=0; const TA_FuncHandle*h=0; int rc;
  Abs(const FD&ff):f(ff){ rc=TA_GetFuncHandle(f.name,&h); if(!rc) rc=TA_ParamHolderAlloc(h,&p); }
  ~Abs(){ if(p){ TA_FreeState(p); TA_ParamHolderFree(p); } }
  // six price arrays and the real inputs, all at offset off
  int in(const std::vector<double>*price,const Data&d,int off){ int i=0; for(auto&a:ainputs(f)){ int r= a.price? TA_SetInputParamPricePtr(p,i,price[0].data()+off,price[1].data()+off,price[2].data()+off,price[3].data()+off,price[4].data()+off,price[5].data()+off): TA_SetInputParamRealPtr(p,i,d.p[a.k[0]]+off); if(r) return r; i++; } return 0; }
  int opt(const double*o,int from=0,bool rev=false){ for(int j=0;j<f.nopt;j++){ int i=rev?f.nopt-1-j:j; int r= f.opt[i].type==1? TA_SetOptInputParamReal(p,i,o[i]): TA_SetOptInputParamInteger(p,i,(int)o[i]); if(r) return r; } return 0; }
  int out(void*const*q){ for(int i=0;i<f.nout;i++){ int r= f.out[i].isint? TA_SetOutputParamIntegerPtr(p,i,(int*)q[i]): TA_SetOutputParamRealPtr(p,i,(double*)q[i]); if(r) return r; } return 0; } };
