// C08: memory safety and absence of undefined behaviour.  Built with the address and undefined-behaviour
// sanitizers: every access outside an exactly sized caller array, freed memory, overflow, invalid shift or
// cast stops the worker, which the engine reports.  On top of that every call is made twice with different
// contents of the fresh heap and of the dead stack, so that a value taken from uninitialised memory shows.
#include "abs.h"
#include <alloca.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char*__asan_default_options(){ return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=8:detect_stack_use_after_return=0:print_summary=0:redzone=256:malloc_context_size=2"; }
extern "C" const char*__ubsan_default_options(){ return "print_stacktrace=0"; }
static const bool SAN=true;
#else
static const bool SAN=false;
#endif
std::vector<Check>&checks();
namespace {
__attribute__((noinline)) void dirty(int v){ volatile char*p=(volatile char*)alloca(24576); for(int i=0;i<24576;i+=8) *(volatile uint64_t*)(p+i)=0x0101010101010101ull*(uint64_t)(v&255); }
template<class T> struct Ex { T*p=0; size_t n=0; Ex(){} Ex(const Ex&)=delete; void set(size_t k){ free(p); n=k; p=(T*)malloc(k*sizeof(T)); memset((void*)p,0xCD,k*sizeof(T)); } ~Ex(){ free(p); } };
struct Ins { Ex<double> d[6]; Ex<float> f[6]; const double*p[6]; const float*pf[6];
  void set(const FD&fd,const Data&x,int n){ for(int k=0;k<fd.nin;k++){ d[k].set(n); f[k].set(n); memcpy(d[k].p,x.p[k],n*sizeof(double)); for(int i=0;i<n;i++) f[k].p[i]=x.pf[k][i]; p[k]=d[k].p; pf[k]=f[k].p; } }
  bool same(const FD&fd,const Data&x,int n){ for(int k=0;k<fd.nin;k++){ if(memcmp(d[k].p,x.p[k],n*sizeof(double))||memcmp(f[k].p,x.pf[k],n*sizeof(float))) return false; } return true; } };
struct Outs { Ex<double> d[3]; Ex<int> i[3]; void*q[3]; void set(const FD&f,int n){ for(int k=0;k<f.nout;k++){ if(f.out[k].isint){ i[k].set(n); q[k]=i[k].p; } else { d[k].set(n); q[k]=d[k].p; } } }
  std::string raw(const FD&f,int n){ std::string s; for(int k=0;k<f.nout;k++){ if(f.out[k].isint) s.append((char*)i[k].p,n*sizeof(int)); else s.append((char*)d[k].p,n*sizeof(double)); } return s; } };
bool bad(Ctx&x,const FD&f,const char*k,const std::string&s){ x.viol(fmt("%s:%s",f.name,k),s); return false; }
const int FILL[2]={0xAA,0x55};
// ---- batch calls on exactly sized arrays
bool batch(const FD&f,const Cfg&c,Ctx&x,const Data&d,const std::vector<std::pair<int,int>>&W,int lb,const std::string&hn){
  Ins in; int have=-1; 
  for(auto&w:W){ int s=w.first,e=w.second, want=std::max(s,lb), cnt=want<=e?e-want+1:0; if(e+1!=have){ in.set(f,d,e+1); have=e+1; }
    for(int flt=0;flt<2;flt++){ std::string first; std::string id=winstr(f,c,s,e,flt?"float":"double")+" on "+hn; if(x.trace) x.step(id+" "+fmt("n=%d",d.n));
      for(int r=0;r<2;r++){ Outs o; o.set(f,cnt); int b=-99,m=-99; g_fill=FILL[r]; dirty(FILL[r]); int rc= flt? f.batchf(s,e,in.pf,c.o,&b,&m,o.q): f.batch(s,e,in.p,c.o,&b,&m,o.q); g_fill=-1; x.cov.transitions++;
        std::string v=fmt("%d %d %d ",rc,b,m)+ (rc==TA_SUCCESS?o.raw(f,std::min(m,cnt)):""); if(!r) first=v; else if(v!=first) return bad(x,f,"uninitialised",id+": the result depends on the contents of fresh heap memory or dead stack memory"); }
      x.cov.states++; }
    if(!in.same(f,d,e+1)) return bad(x,f,"input-modified",winstr(f,c,s,e,"")+" modified its input"); }
  x.cov.traces+=W.size(); return true; }
// ---- streaming calls
std::string stream(const FD&f,const Cfg&c,Ctx&x,const Data&d,int cut,int fill,const std::string&id){ std::string v; auto F=[&]{ g_fill=fill; dirty(fill); };
  auto T=[&](const char*w,int i){ if(x.trace) x.step(id+fmt(" %s %d",w,i)); x.cov.transitions++; };
  void*st=0; T("init",0); F(); if(f.sinit(&st,c.o)!=TA_SUCCESS){ g_fill=-1; return "init"; } double in[6];
  auto stepn=[&](void*z,int a,int b){ for(int i=a;i<b;i++){ Ex<double> one[6]; (void)one; d.at(i,in); Outs o; o.set(f,1); T("step",i); F(); int rc=f.sstep(z,in,o.q); v+=fmt("%d ",rc); if(rc==TA_SUCCESS) v+=o.raw(f,1); } };
  stepn(st,0,cut); MemFile g; T("save",cut); F(); v+=fmt("s%d ",f.ssave(st,g.f)); g.done();
  void*z=0; if(FILE*r=fmemopen(g.buf,g.len,"r")){ T("load",cut); F(); v+=fmt("l%d ",f.sload(&z,r)); fclose(r); }
  int n=d.n, mid=cut+(n-cut)/2; stepn(st,cut,mid);
  if(n>mid){ Ins ex; ex.set(f,d,n); Outs o; o.set(f,n-mid); int b=-9,m=-9; T("batchfeed",mid); F(); int rc=f.sbatch(st,mid,n-1,ex.p,&b,&m,o.q); v+=fmt("b%d %d %d ",rc,b,m); if(rc==TA_SUCCESS) v+=o.raw(f,n-mid); if(!ex.same(f,d,n)) v+="MODIFIED"; }
  if(z) stepn(z,cut,n); 
  for(size_t L=0;L<g.len;L+= g.len>160? g.len/37+1: 5) { std::vector<char> cp(g.buf,g.buf+g.len); if(FILE*r=fmemopen(cp.data(),L?L:1,"r")){ if(!L) fgetc(r); void*q=0; T("truncated load",L); F(); f.sload(&q,r); fclose(r); T("free after truncated load",L); f.sfree(&q); } }
  T("free",0); f.sfree(&st); f.sfree(&st); f.sfree(&z); g_fill=-1; return v; }
Hist hostile(const FD&f,int w,int n){ Hist h=base_hist(f,4,n); static const double Z[]={0,-1,1e9,-1e9,1e-9,3,0.1,-0.0,1e-300,7}; static const double P[]={0,-5,1e9,1e10,3,2.5,-1e10,99,1e300,2};
  for(int i=0;i<n;i++) for(int k=0;k<9;k++){ double z= w==0? Z[(i*3+k*7)%10]: w==1? 0: w==2? ((i+k)%2?1e30:-1e30): w==3? ((i*5+k)%3?1e-300:0): Z[(i*i+k)%10]*(k==4?0:1); if(k==7) z=P[(i*3+w)%10]; h[i].v[k]=z; } 
  if(w<5&&(f.nin==1&&f.ik[0]==6)&&(!strcmp(f.group,"Math Transform"))&&w==2) for(auto&b:h) b.v[6]/=1e29; return h; }
const int NH=5;
std::string hname(int w){ return w<100?fmt("history %d",w):fmt("hostile history %d",w-100); }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x,bool lng){
  if(!SAN){ x.viol("build:no-sanitizer","the harness was not built with the sanitizers"); return; }
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; continue; }
    int n=lb+(x.tier?11:6); auto W=windows(n,lb,x.tier?30:11); std::vector<int> hs; int nb=std::min(nbase(f,c),x.tier?40:12); for(int b=0;b<nb;b++) if(x.tier||!lng||b==0||b==4||b==8) hs.push_back(b); for(int b=0;b<NH;b++) hs.push_back(100+b); if(!x.tier&&c.candle>=NCANDLE) hs={0,4,100};
    for(int h:hs){ Data d; d.set(f,h<100?base_hist(f,c,h,n):hostile(f,h-100,n),true); if(!batch(f,c,x,d,W,lb,hname(h))) break;
      if(lng&&h!=4&&(h<100||c.candle>=NCANDLE)) continue; if(n>2500) continue;
      std::set<int> cuts={0,std::min(lb,n),n}; if(x.tier){ cuts.insert(1); cuts.insert(lb/2); cuts.insert(lb+2);} 
      for(int cut:cuts){ std::string id=cfgstr(f,c)+fmt(" streaming, saved before bar %d, ",cut)+hname(h); std::string a=stream(f,c,x,d,cut,FILL[0],id),b=stream(f,c,x,d,cut,FILL[1],id); x.cov.traces++; x.cov.states++; if(a!=b){ bad(x,f,"uninitialised-stream",id+": outputs depend on the contents of fresh heap memory or dead stack memory"); break; } if(a.find("MODIFIED")!=std::string::npos){ bad(x,f,"input-modified",id+": batch-feed modified its input"); break; } }
      if(x.full()) return; }
    x.sample(winstr(f,c,lb,n-1,"double")); } }
void huge(const FD&f,const Cfg&c,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0){ x.cov.skipped++; return; } int n=lb+3; Data d; d.set(f,huge_hist(f,0,n),true); std::vector<std::pair<int,int>> W={{0,n-1},{lb,n-1},{n-1,n-1},{0,lb}}; if(lb) W.push_back({0,lb-1}); batch(f,c,x,d,W,lb,"long ramp"); }
// the jobs of other checks once more in this build; their verdicts are theirs, only crashes count here
bool share(const std::string&p,const std::string&j,int tier){ (void)j; static const char*Q[]={"C03","C05","C11","C15","C16","C17","C18","C21",0}; static const char*T[]={"C02","C04","C09","C20","C06",0}; for(int i=0;Q[i];i++) if(p==Q[i]) return true; if(tier) for(int i=0;T[i];i++) if(p==T[i]) return true; return false; }
void gen(std::vector<Job>&J,int tier){
  for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; for(int l=0;l<2;l++){ auto a=l?cfgs_long(f,tier):cfgs_small(f,tier); size_t st=l?6:12; for(size_t k=0;k<a.size();k+=st){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+st)); J.push_back({fmt("%s/%s/%zu",f.name,l?"long":"small",k),[&f,s,l](Ctx&x){job(f,s,x,l);}}); } }
    int k=0; for(auto&c:cfgs_huge(f,tier)) J.push_back({fmt("%s/huge/%d",f.name,k++),[&f,c](Ctx&x){huge(f,c,x);}}); }
  for(auto&ck:checks()) if(share(ck.prop,"",tier)){ std::vector<Job> o; std::string p=ck.prop; ck.gen(o,!tier&&(p=="C18"||p=="C21")?-1:0); for(auto&j:o){ auto fn=j.fn; J.push_back({p+"-"+j.name,[fn](Ctx&x){ int t=x.tier; x.tier=0; x.mute=true; uint64_t tr=x.cov.transitions,s=x.cov.states,c=x.cov.traces; fn(x); x.mute=false; x.tier=t; x.note("foreign_states",x.cov.states-s); x.cov.transitions=tr+(x.cov.transitions-tr); (void)c; }}); } } }
Reg r({"C08","model_checking","states = (function, parameters/settings, history, window, precision) and (.., save point) combinations executed, each twice with different contents of fresh heap and dead stack; transitions = library calls; traces = windows and streaming lifecycles completed without a sanitizer report on exactly sized heap arrays; the jobs of C03 C05 C11 C15 C16 C17 and, one operation shallower, C18 and C21 are run once more in this build for their crashes",gen,
 {"gcc AddressSanitizer and UndefinedBehaviorSanitizer (with float-cast-overflow) are trusted to stop on what they detect; reads of uninitialised memory are detected through their effect on outputs, with two fill patterns","price data are finite"},
 "all windows of histories of lookback+6 bars up to 11 bars (12 boundary points beyond) x parameter/settings combinations of both domains and single long parameters 2000 and 70000 x base histories plus 5 hostile ones (zeros, negatives, 1e9, 1e-9, 1e30, 1e-300; MAVP periods from -1e10 to 1e300) x both precisions; streaming with save/load at 3 points and truncated loads"});
}
