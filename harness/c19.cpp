// C19: which settings a function may depend on, and what an unstable period does.
#include "life.h"
#include "candledep.inc"
namespace {
struct ST { int u[25]; int compat; int cs[11]; };   // complete settings vector; cs[i]: 0 = base candle set, 1 = altered
struct CSet { TA_RangeType t; int p; double f; };
const CSet BASE[11]={{TA_RangeType_RealBody,2,1},{TA_RangeType_RealBody,2,1.5},{TA_RangeType_RealBody,2,1},{TA_RangeType_HighLow,2,.25},{TA_RangeType_RealBody,0,1},{TA_RangeType_RealBody,0,2},{TA_RangeType_Shadows,2,1},{TA_RangeType_HighLow,2,.25},{TA_RangeType_HighLow,2,.25},{TA_RangeType_HighLow,2,.5},{TA_RangeType_HighLow,2,.125}};
void put(const ST&s){ for(int i=0;i<25;i++) TA_SetUnstablePeriod((TA_FuncUnstId)i,s.u[i]); TA_SetCompatibility((TA_Compatibility)s.compat); for(int i=0;i<11;i++){ CSet c=BASE[i]; if(s.cs[i]==1){ c.t=(TA_RangeType)((c.t+1)%3); c.p+=3; c.f=c.f/2+.375; } if(s.cs[i]==2) c.f=1e6; if(s.cs[i]==3) c.f=0; TA_SetCandleSettings((TA_CandleSettingType)i,c.t,c.p,c.f); } }
unsigned maunst(int t){ switch(t){ case 1: case 3: case 4: return 1u<<TA_FUNC_UNST_EMA; case 6: return 1u<<TA_FUNC_UNST_KAMA; case 7: return 1u<<TA_FUNC_UNST_MAMA; case 8: return 1u<<TA_FUNC_UNST_T3; case 9: return 1u<<TA_FUNC_UNST_WLMA; } return 0; }
bool anyof(const FD&f,const char*const*l){ for(;*l;l++) if(is(f,*l)) return true; return false; }
unsigned unstdep(const FD&f,const Cfg&c){ unsigned m=0; if(is(f,"ADXR")) m=1u<<TA_FUNC_UNST_ADX; else if(is(f,"STOCHRSI")) m=1u<<TA_FUNC_UNST_RSI; else if(f.flags&F_UNST) m=1u<<f.unst;
  static const char*E[]={"MACD","MACDFIX","DEMA","TEMA","TRIX","ADOSC",0}; if(anyof(f,E)) m|=1u<<TA_FUNC_UNST_EMA; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2) m|=maunst((int)c.o[i]); return m; }
bool compdep(const FD&f,const Cfg&c){ static const char*E[]={"EMA","WLMA","MACD","MACDFIX","DEMA","TEMA","TRIX","CMO","RSI","STOCHRSI",0}; if(anyof(f,E)) return true; for(int i=0;i<f.nopt;i++) if(f.opt[i].type==2&&(c.o[i]==1||c.o[i]==3||c.o[i]==4||c.o[i]==9)) return true; return false; }
int cmask(const FD&f){ for(auto&c:CDEP) if(is(f,c.n)) return c.m; return 0; }
struct Res { int lb; std::vector<double> v; };
void eval(const FD&f,const Cfg&c,const std::vector<Data>&D,Res&r,bool stream){ r.v.clear(); r.lb=f.lookback(c.o); for(auto&d:D){ Out o; o.prep(f,d.n); for(int s:{0,d.n/2}){ int b=-9,m=-9; r.v.push_back(f.batch(s,d.n-1,d.p,c.o,&b,&m,o.q)); r.v.push_back(b); r.v.push_back(m); for(int k=0;k<f.nout;k++) for(int i=0;i<m;i++) r.v.push_back(o.get(f,k,i)); b=m=-9; r.v.push_back(f.batchf(s,d.n-1,d.pf,c.o,&b,&m,o.q)); r.v.push_back(b); r.v.push_back(m); for(int k=0;k<f.nout;k++) for(int i=0;i<m;i++) r.v.push_back(o.get(f,k,i)); }
    if(stream){ Trace t; stepref(f,c,d,t); for(size_t i=0;i<t.rc.size();i++){ r.v.push_back(t.rc[i]); if(!t.rc[i]) for(int k=0;k<f.nout;k++) r.v.push_back(t.v[k][i]); } } } }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){ for(auto&c:cs){ if(x.full()) return; ST z; memset(&z,0,sizeof z); put(z); int lb=f.lookback(c.o); if(lb<0) continue; unsigned um=unstdep(f,c); bool cd=compdep(f,c); int cm=cmask(f);
    int n=std::min(2*lb+30,lb+60); std::vector<Data> D; for(int w:{4,3,0,6}) { D.emplace_back(); D.back().set(f,base_hist(f,w,n),true); } 
    // the settings the function does depend on take several values; around each, everything else is varied
    std::vector<ST> bases={z}; if(um){ ST s=z; for(int i=0;i<25;i++) if(um>>i&1) s.u[i]=3; bases.push_back(s); } if(cd){ size_t k=bases.size(); for(size_t i=0;i<k;i++){ ST s=bases[i]; s.compat=1; bases.push_back(s); } } if(cm){ for(int v=1;v<4;v++){ ST s=z; for(int i=0;i<11;i++) if(cm>>i&1) s.cs[i]=v; bases.push_back(s); } }
    for(auto&b:bases){ put(b); Res r0,r; eval(f,c,D,r0,true); auto cmp=[&](const ST&s,const std::string&what){ put(s); if(x.trace) x.step(cfgstr(f,c)+" "+what); eval(f,c,D,r,x.tier||lb<40); x.cov.states++; x.cov.traces++; x.cov.transitions+=r.v.size(); bool st=x.tier||lb<40; bool ok=r.lb==r0.lb&&(!st||r.v.size()==r0.v.size()); if(!st){ Res q; put(b); eval(f,c,D,q,false); ok=r.lb==q.lb&&r.v.size()==q.v.size(); for(size_t i=0;ok&&i<r.v.size();i++) ok=biteq(r.v[i],q.v[i]); } else for(size_t i=0;ok&&i<r.v.size();i++) ok=biteq(r.v[i],r0.v[i]); if(!ok) x.viol(fmt("%s:isolation",f.name),cfgstr(f,c)+": "+what+" changes the result, though the function is not documented to depend on it"); return ok; };
      ST all=b; bool ok=true; for(int i=0;i<25&&ok;i++) if(!(um>>i&1)){ ST s=b; s.u[i]=b.u[i]+5; all.u[i]+=2+i; ok=cmp(s,fmt("unstable period #%d = 5",i)); } if(ok&&!cd){ ST s=b; s.compat=1; all.compat=1; ok=cmp(s,"compatibility Metastock"); } for(int i=0;i<11&&ok;i++) if(!(cm>>i&1)){ for(int v=1;v<4&&ok;v++){ ST s=b; s.cs[i]=v; ok=cmp(s,fmt("candle setting #%d altered (%d)",i,v)); } all.cs[i]=1; } if(ok) ok=cmp(all,"all unrelated settings altered together"); if(!ok) break; }
    // an unstable period of k: lookback +k, first k outputs dropped, the rest bit-identical
    bool own=(f.flags&F_UNST)||is(f,"EMA")||(is(f,"MA")&&(c.o[1]==1||c.o[1]==6||c.o[1]==7||c.o[1]==8||c.o[1]==9)&&c.o[0]>1); if(own&&(is(f,"PLUS_DI")||is(f,"MINUS_DI")||is(f,"PLUS_DM")||is(f,"MINUS_DM"))&&c.o[0]==1) own=false; // unsmoothed: no unstable period
    bool tol=is(f,"STOCHRSI"); auto eq=[&](double a,double b){ return near(a,b,1e-9); };   // its moving average restarts its running sum k bars later
    int J=tol&&c.o[3]!=0&&c.o[3]!=2&&c.o[3]!=5?1:f.nout;   // STOCHRSI: a recursive FastD average starts k bars later
    if(own) for(int comp=0;comp<(cd?2:1);comp++){ ST s=z; s.compat=comp; put(s); int l0=f.lookback(c.o); std::vector<Out> o0(D.size()); std::vector<int> b0(D.size()),m0(D.size()); std::vector<Trace> t0(D.size()); for(size_t q=0;q<D.size();q++){ o0[q].prep(f,n); f.batch(0,n-1,D[q].p,c.o,&b0[q],&m0[q],o0[q].q); stepref(f,c,D[q],t0[q]); }
      std::vector<int> ids; for(int i=0;i<25;i++) if(um>>i&1) ids.push_back(i); int id=ids.size()?ids[0]:-1; if(is(f,"STOCHRSI")) id=TA_FUNC_UNST_RSI; if(id<0) continue; for(int k:{1,2,3,5,13,30,n,257,70000}){ s.u[id]=k; put(s); int l=f.lookback(c.o); std::string w=cfgstr(f,c)+fmt(" unstable period %d%s",k,comp?" (Metastock)":""); if(x.trace) x.step(w); x.cov.states++; if(l!=l0+k){ x.viol(fmt("%s:lengthen",f.name),w+fmt(": lookback %d instead of %d+%d",l,l0,k)); break; }
        bool ok=true; for(size_t q=0;q<D.size()&&ok;q++){ Out o; o.prep(f,n); int b=-9,m=-9; f.batch(0,n-1,D[q].p,c.o,&b,&m,o.q); x.cov.traces++; int em=std::max(0,m0[q]-k); if(m!=em||(m&&b!=b0[q]+k)){ x.viol(fmt("%s:drop",f.name),w+fmt(": window %d/%d, without it %d/%d",b,m,b0[q],m0[q])); ok=false; break; }
          for(int j=0;j<J&&ok;j++) for(int i=0;i<m;i++) if(!eq(o.get(f,j,i),o0[q].get(f,j,i+k))){ x.viol(fmt("%s:later",f.name),w+fmt(": bar %d output %d is %.17g, without it %.17g on ",b+i,j,o.get(f,j,i),o0[q].get(f,j,i+k))+histstr(f,base_hist(f,std::vector<int>{4,3,0,6}[q],n))); ok=false; break; }
          if(ok){ Out p; p.prep(f,n); int b2=-9,m2=-9; f.batchf(0,n-1,D[q].pf,c.o,&b2,&m2,p.q); if(b2!=b||m2!=m){ x.viol(fmt("%s:drop",f.name),w+fmt(": single-precision window %d/%d, double %d/%d",b2,m2,b,m)); ok=false; break; } }
          Trace t; stepref(f,c,D[q],t); for(int i=0;ok&&i<n;i++) if((t.rc[i]==0)!=(i>=l0+k)||(t.rc[i]==0&&[&]{ for(int j=0;j<J;j++) if(!eq(t.v[j][i],t0[q].v[j][i])) return true; return false; }())){ x.viol(fmt("%s:later-stream",f.name),w+fmt(": streamed bar %d rc %d, value %.17g, without it %.17g",i,t.rc[i],t.v[0][i],t0[q].v[0][i])); ok=false; } }
        if(!ok) break; } }
    put(z); x.sample(cfgstr(f,c)+fmt(" depends on unstable ids %#x, compatibility %d, candle settings %#x",um,cd,cm)); } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; std::vector<Cfg> a=cfgs_small(f,tier),l=cfgs_long(f,tier),k; a.insert(a.end(),l.begin(),l.end()); for(auto c:a){ c.unst=c.compat=c.candle=0; bool dup=false; for(auto&y:k) dup|=!memcmp(&y,&c,sizeof c); if(!dup) k.push_back(c); } for(size_t p=0;p<k.size();p+=6){ std::vector<Cfg> s(k.begin()+p,k.begin()+std::min(k.size(),p+6)); J.push_back({fmt("%s/iso/%zu",f.name,p),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C19","model_checking","both precisions; states = settings vectors evaluated (every unrelated register altered singly and all together, around every value of the related ones); transitions = result values compared bit for bit; traces = histories evaluated through batch (two ranges) and streaming",gen,
 {"documented dependencies: a function's own unstable-period id (ADXR: ADX, STOCHRSI: RSI), those of the averages it is built on or asked to use, compatibility for functions built on EMA/RSI/CMO seeding, and the candle settings named in the pattern's source comment (harness/candledep.inc)"},
 "25 unstable periods, compatibility, 11 candle settings x 3 alternatives; unstable periods 1,2,3,5,13,30,257,70000 and larger than the history; all parameter combinations of both domains; 4 histories"});
}
