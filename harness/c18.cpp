// C18: the global settings are independent registers, whatever sequence of operations has run.
#include "cdlhist.h"
namespace {
enum { INIT,SHUT,UNST,COMP,CSET,CRES };
struct Op { int k,id,v; };
struct CV { int t,p; double f; };
const CV ALT[4]={{TA_RangeType_HighLow,3,0.5},{TA_RangeType_Shadows,0,4},{TA_RangeType_RealBody,5,0.03125},{TA_RangeType_RealBody,70005,0.5}};
const CV DEF[11]={{0,10,1},{0,10,3},{0,10,1},{1,10,0.1},{0,0,1},{0,0,2},{2,10,1},{1,10,0.1},{1,5,0.2},{1,5,0.6},{1,5,0.05}};   // documented defaults
struct Model { bool up=true; unsigned u[25]; int compat; CV c[11]; bool touched[11];
  void init(){ up=true; memset(u,0,sizeof u); compat=0; for(int i=0;i<11;i++) c[i]=DEF[i]; }
  Model(){ init(); memset(touched,0,sizeof touched); }
  int apply(const Op&o){ switch(o.k){
    case INIT: init(); return TA_SUCCESS;
    case SHUT: if(!up) return TA_LIB_NOT_INITIALIZE; up=false; return TA_SUCCESS;
    case UNST: if(o.id<0||o.id>25) return TA_BAD_PARAM; if(o.id==25) for(auto&x:u) x=o.v; else u[o.id]=o.v; return TA_SUCCESS;
    case COMP: compat=o.v; return TA_SUCCESS;
    case CSET: if(o.id<0||o.id>=11) return TA_BAD_PARAM; c[o.id]=ALT[o.v]; touched[o.id]=true; return TA_SUCCESS;
    default: if(o.id<0||o.id>11) return TA_BAD_PARAM; if(o.id==11) for(int i=0;i<11;i++) c[i]=DEF[i]; else c[o.id]=DEF[o.id]; return TA_SUCCESS; } } };
int run(const Op&o){ switch(o.k){ case INIT: return TA_Initialize(); case SHUT: return TA_Shutdown(); case UNST: return TA_SetUnstablePeriod((TA_FuncUnstId)o.id,o.v); case COMP: return TA_SetCompatibility((TA_Compatibility)o.v);
  case CSET: return TA_SetCandleSettings((TA_CandleSettingType)o.id,(TA_RangeType)ALT[o.v].t,ALT[o.v].p,ALT[o.v].f); default: return TA_RestoreCandleDefaultSettings((TA_CandleSettingType)o.id); } }
std::string str(const Op&o){ switch(o.k){ case INIT: return "Initialize"; case SHUT: return "Shutdown"; case UNST: return fmt("SetUnstablePeriod(%d,%d)",o.id,o.v); case COMP: return fmt("SetCompatibility(%d)",o.v); case CSET: return fmt("SetCandleSettings(%d,%d,%d,%g)",o.id,ALT[o.v].t,ALT[o.v].p,ALT[o.v].f); default: return fmt("RestoreCandleDefaultSettings(%d)",o.id); } }
std::string str(const std::vector<Op>&s){ std::string r; for(auto&o:s) r+=(r.size()?"; ":"")+str(o); return r; }
// candle probes: functions and a short history on which each value of the setting gives different patterns
struct Probe { const FD*f; CdlDef d; Data D; std::map<std::string,std::vector<int>> memo; };
struct Env { std::vector<Probe*> by[11],sharp; int nsharp=0; std::vector<std::pair<const FD*,CdlDef>> cf; int lb[25][2]; const FD*uf[25]; 
  std::vector<int> want(Probe&p,const Model&m,int&lb){ CR r; for(int i=0;i<11;i++){ r.s[i].type=m.c[i].t; r.s[i].period=m.c[i].p; r.s[i].factor=m.c[i].f; } lb=cdl_lookback(p.d,r.s); std::string k; for(int i=0;i<11;i++) if(p.d.dep>>i&1) k+=fmt("%d,%d,%g;",m.c[i].t,m.c[i].p,m.c[i].f); auto it=p.memo.find(k); if(it!=p.memo.end()) return it->second;
    r.pen=p.f->nopt?p.f->opt[0].df:0; r.o=p.D.p[0]; r.h=p.D.p[1]; r.l=p.D.p[2]; r.c=p.D.p[3]; std::vector<int> v; for(int i=lb;i<p.D.n;i++) v.push_back((r.*p.d.fn)(i)); p.memo[k]=v; return v; }
  Env(){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; if(f.flags&F_CANDLE) cf.push_back({&f,cdl_def(f.name)}); else if(f.flags&F_UNST&&f.unst>=0&&f.unst<25) uf[f.unst]=&f; }
    TA_Initialize(); for(int m=0;m<2;m++){ TA_SetCompatibility((TA_Compatibility)m); for(int i=0;i<25;i++){ double o[8]; for(int k=0;k<uf[i]->nopt;k++) o[k]=uf[i]->opt[k].df; lb[i][m]=uf[i]->lookback(o); } } TA_Initialize();
    for(int s=0;s<11;s++){ std::set<int> seen; for(auto&p:cf) if(p.second.dep>>s&1&&by[s].size()<2){ Probe*q=new Probe; q->f=p.first; q->d=p.second; Hist h=debruijn(cdl_alphabet(17),2,150); for(auto&z:cdl_seeds(*q->f,0)) if(h.size()<260) h.insert(h.end(),z.h.begin(),z.h.end()); q->D.set(*q->f,h); Model m; int l; std::set<std::vector<int>> d; auto tail=[&](std::vector<int> v){ return std::vector<int>(v.end()-100,v.end()); }; d.insert(tail(want(*q,m,l))); for(auto&a:ALT) if(a.p<100){ m.c[s]=a; d.insert(tail(want(*q,m,l))); }
        if(d.size()>=3||(by[s].empty()&&d.size()==2)) by[s].push_back(q); else delete q; } }
    // sharp probes: a bar of an occurrence moved to just beside the value where the pattern changes, so that under the defaults the
    // answer depends on the setting's factor being right to within 1/64 (1/16 of the average distance where it is 0)
    for(int s=0;s<11;s++) for(int dir=-1;dir<=1;dir+=2){ int have=0; Model m; CR r0,r1; for(int i=0;i<11;i++){ r0.s[i].type=DEF[i].t; r0.s[i].period=DEF[i].p; r0.s[i].factor=DEF[i].f; r1.s[i]=r0.s[i]; } r1.s[s].factor=DEF[s].f*(1+dir/64.);
      for(auto&p:cf) if(have<2&&p.second.dep>>s&1){ auto Z=cdl_seeds(*p.first,0); bool got=false; std::vector<Hist> B; for(size_t zi=0;zi<Z.size()&&zi<6;zi++){ Hist h=Z[zi].h; for(auto&b:h) b=mkbar(64*b.v[0],64*b.v[1],64*b.v[2],64*b.v[3]); B.push_back(h); }
        for(size_t q=0,nb=B.size();q<nb;q++) for(int j=1;j<=p.second.bars+1;j++) for(int k=0;k<4;k+=3) for(int g=1;g<12;g++){ Hist h=B[q]; Bar&b=h[h.size()-j]; double v[4]={b.v[0],b.v[1],b.v[2],b.v[3]}; v[k]= g<8? b.v[2]+(b.v[1]-b.v[2])*g/8: v[3-k]+64*(g%2?1:-1)*(g<10?1/4.:1); if(v[k]<b.v[2]||v[k]>b.v[1]) continue; b=mkbar(v[0],v[1],v[2],v[3]); B.push_back(h); }
        for(size_t zi=0;zi<B.size()&&!got;zi++){ Hist h=B[zi]; int n=h.size(); r0.pen=r1.pen=p.first->nopt?p.first->opt[0].df:0;
        std::vector<double> c[4]; for(auto&b:h) for(int k=0;k<4;k++) c[k].push_back(b.v[k]); for(CR*r:{&r0,&r1}){ r->o=c[0].data(); r->h=c[1].data(); r->l=c[2].data(); r->c=c[3].data(); } auto fn=p.second.fn;
        for(int j=n-1;j>=0&&j>=n-1-p.second.bars&&!got;j--) for(int k=0;k<4&&!got;k++){ double o=c[k][j]; double lo=k==1?std::max(c[0][j],c[3][j]):c[2][j],hi=k==2?std::min(c[0][j],c[3][j]):k==1?c[1][j]+1024:c[1][j]; if(k==2) lo=c[2][j]-1024; if(hi<=lo) continue;
          auto at=[&](double v){ c[k][j]=v; return (r0.*fn)(n-1); }; const int G=64; int pv=at(lo); double px=lo; for(int g=1;g<=G&&!got;g++){ double v=lo+(hi-lo)*g/G; int w=at(v); if(w!=pv){ double a=px,b=v; for(int it=0;it<40&&b-a>1e-9;it++){ double mid=(a+b)/2; if(at(mid)==pv) a=mid; else b=mid; }
              for(double e:{-1/8192.,1/8192.}){ double t=(e<0?a:b)+e; if(t<lo||t>hi) continue; int x0=at(t); if(x0!=at(t+1e-6)||x0!=at(t-1e-6)) continue; c[k][j]=t; if((r1.*fn)(n-1)!=x0){ Probe*q=new Probe; q->f=p.first; q->d=p.second; Hist z=h; for(int i=0;i<n;i++) z[i]=mkbar(c[0][i],c[1][i],c[2][i],c[3][i]); q->D.set(*q->f,z); sharp.push_back(q); have++; got=true; break; } } }
            pv=w; px=v; }
          c[k][j]=o; } } }
      if(have) nsharp|=1<<(2*s+(dir>0)); } } };
Env&env(){ static Env*e=new Env; return *e; }
bool check(Env&e,const Model&m,const std::vector<Op>&s,Ctx&x,bool allprobes){ x.cov.states++; auto bad=[&](const char*k,const std::string&d){ x.viol(k,"after "+str(s)+": "+d); return false; };
  if(!m.up) return true;          // what the registers hold between Shutdown and Initialize is not specified
  for(int i=0;i<25;i++){ x.cov.transitions++; unsigned g=TA_GetUnstablePeriod((TA_FuncUnstId)i); if(g!=m.u[i]) return bad("unstable",fmt("unstable period #%d reads %u instead of %u",i,g,m.u[i])); }
  for(int i:{25,26,-1,1000}) if(TA_GetUnstablePeriod((TA_FuncUnstId)i)!=0) return bad("unstable-invalid",fmt("unstable period of invalid id %d reads %u",i,TA_GetUnstablePeriod((TA_FuncUnstId)i)));
  if((int)TA_GetCompatibility()!=m.compat) return bad("compat",fmt("compatibility reads %d instead of %d",TA_GetCompatibility(),m.compat));
  for(int i=0;i<25;i++){ double o[8]; for(int k=0;k<e.uf[i]->nopt;k++) o[k]=e.uf[i]->opt[k].df; int g=e.uf[i]->lookback(o),w=e.lb[i][m.compat]+(int)m.u[is(*e.uf[i],"ADXR")?TA_FUNC_UNST_ADX:is(*e.uf[i],"STOCHRSI")?TA_FUNC_UNST_RSI:i]; x.cov.transitions++; if(g!=w) return bad("unstable-effect",fmt("lookback of %s is %d instead of %d",e.uf[i]->name,g,w)); }
  CandleS cs[11]; for(int i=0;i<11;i++) cs[i].period=m.c[i].p; double pen[1];
  for(auto&p:e.cf){ if(p.first->nopt) pen[0]=p.first->opt[0].df; int g=p.first->lookback(pen),w=cdl_lookback(p.second,cs); x.cov.transitions++; if(g!=w) return bad("candle-period",fmt("lookback of %s is %d, the assigned averaging periods give %d",p.first->name,g,w)); }
  int buf[400]; auto probe=[&](Probe*p)->bool{ int lb; auto w=e.want(*p,m,lb); int b=-1,nb=-1; void*q[1]={buf}; if(p->f->nopt) pen[0]=p->f->opt[0].df; int rc=p->f->batch(0,p->D.n-1,p->D.p,pen,&b,&nb,q); x.cov.transitions++; if(rc||nb!=(int)w.size()) return bad("candle-window",fmt("%s: rc %d, %d outputs instead of %zu",p->f->name,rc,nb,w.size())); for(int j=0;j<nb;j++) if(buf[j]!=w[j]) return bad("candle-effect",fmt("%s at bar %d gives %d, under the assigned settings %d",p->f->name,b+j,buf[j],w[j]));  return true; };
  for(int i=0;i<11;i++) if(allprobes||m.touched[i]) for(auto*p:e.by[i]) if(!probe(p)) return false;
  if(allprobes) for(auto*p:e.sharp) if(!probe(p)) return false;
  return true; }
bool seq(Env&e,const std::vector<Op>&s,Ctx&x,bool all){ for(size_t i=0;i+1<s.size();i++) if(s[i].k==SHUT&&s[i+1].k!=INIT&&s[i+1].k!=SHUT) return true;
  if(x.trace) x.step(str(s)); TA_Initialize(); Model m; for(size_t i=0;i<s.size();i++){ int w=m.apply(s[i]),g=run(s[i]); x.cov.transitions++; if(g!=w){ x.viol("rc",str(s)+fmt(": step %zu returned %d instead of %d",i+1,g,w)); return false; } } x.cov.traces++; return check(e,m,s,x,all); }
std::vector<Op> ops(int full){ std::vector<Op> r={{INIT,0,0},{SHUT,0,0},{COMP,0,0},{COMP,0,1}}; std::vector<int> ids; for(int i=0;i<25;i++) if(full||i==0||i==11||i==24) ids.push_back(i); for(int i:{25,26,-1}) ids.push_back(i); if(full){ ids.push_back(1000); ids.push_back(INT_MAX); ids.push_back(INT_MIN); }
  for(int i:ids) for(int v:{0,3,70011}) if(v!=70011||full||i<3||i==25) r.push_back({UNST,i,v}); for(int i:std::vector<int>{0,1,2,3,4,5,6,7,8,9,10,11,12,-1,99}){ if(i==99&&!full) continue; for(int v=0;v<4;v++) if(full||v==i%3||(v==1&&i<11)) r.push_back({CSET,i,v}); r.push_back({CRES,i,0}); } return r; }
void product(int full,int depth,int first,Ctx&x){ Env&e=env(); auto A=ops(full); if(first>=(int)A.size()) return; std::vector<Op> s={A[first]}; x.sample(fmt("every sequence of up to %d operations beginning with ",depth)+str(A[first])+fmt(" over %zu operations",A.size()));
  std::function<bool()> rec=[&]()->bool{ if(!seq(e,s,x,s.size()<=2)) return false; if((int)s.size()==depth) return true; for(auto&o:A){ s.push_back(o); bool ok=rec(); s.pop_back(); if(!ok||x.full()) return false; } return true; }; rec(); int z=0; for(auto&p:e.by) z+=!p.empty(); x.note("settings_with_behavioural_probe",first?0:z); if(!first&&full){ x.note("sharp_factor_probes",e.sharp.size()); x.note("factor_directions_with_sharp_probe",__builtin_popcount(e.nsharp)); } TA_Initialize(); }
void gen(std::vector<Job>&J,int tier){ for(size_t i=0;i<ops(1).size();i++) J.push_back({fmt("all-ids/depth%d/%zu",tier>1?3:2,i),[i,tier](Ctx&x){product(1,tier>1?3:2,i,x);}}); for(size_t i=0;i<ops(0).size();i++) J.push_back({fmt("depth%d/%zu",tier>1?5:tier<0?3:4,i),[i,tier](Ctx&x){product(0,tier>1?5:tier<0?3:4,i,x);}}); }
Reg r({"C18","model_checking","states = register states reached and compared in full; transitions = operations and observations; traces = operation sequences run",gen,
 {"candle settings have no getter: they are observed through the lookbacks of all 61 patterns and the values of probe patterns, judged by the reference definitions under the model's settings; a setting no pattern reads is observed through nothing; a default factor is told from its neighbours to within 1/64","what the registers hold between Shutdown and the next Initialize is unspecified"},
 "all sequences of up to 4 (thorough: 5) operations over ~60 representative ones and up to 2 (thorough: 3) over all identifiers: initialize, shutdown, set unstable (every id, ALL, NONE, out of range), compatibility, set/restore candle (every id, ALL, out of range)"});
}
