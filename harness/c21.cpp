// C21: every short sequence of lifecycle operations on one streaming object against a three-variable model
// (object alive?, bars consumed, content of the last saved record).
#include "life.h"
namespace {
enum { INIT, STEP, BATCH, SAVE, LOAD, FREE, INITBAD, NULLS, NULLARR, EMPTY, NULLOUT, NOPS };
const char*ON[]={"init","step","batch2","save","load","free","init(bad parameter)","null handles","batch(null arrays)","batch(empty range)","step(null output)"};
struct L { const FD&f; const Cfg&c; Ctx&x; Data d; Trace t; int pre; double badp[8]; int nbad=-1;
  L(const FD&f,const Cfg&c,Ctx&x,const Hist&h,int pre):f(f),c(c),x(x),pre(pre){ d.set(f,h); stepref(f,c,d,t);
    for(int i=0;i<f.nopt;i++){ badp[i]=c.o[i]; if(nbad<0&&f.opt[i].type==0&&f.opt[i].mn>INT_MIN+2){ nbad=i; } if(nbad<0&&f.opt[i].type==2) nbad=i; } if(nbad>=0) badp[nbad]=f.opt[nbad].type==2?99:f.opt[nbad].mn-1; }
  std::string id(const int*s,int n){ std::string r=cfgstr(f,c)+fmt(" (%d bars fed first):",pre); for(int i=0;i<n;i++) r+=std::string(" ")+ON[s[i]]; return r; }
  bool bad(const char*k,const int*s,int n,const std::string&m){ x.viol(fmt("%s:%s",f.name,k),id(s,n)+" -> "+m); return false; }
  // runs a sequence; returns false when an operation in it is disabled or on violation
  bool run(const int*s,int n){
    void*h=0; int cnt=0; bool taint=false; int rec=-2; bool rtaint=false; /* -2 no record, -1 null record */ MemFile*mf=0; long live=g_live; bool ok=true; double v[6];
    if(pre>=0){ if(f.sinit(&h,c.o)) return bad("init",s,0,"StateInit failed"); for(;cnt<pre;cnt++){ d.at(cnt,v); Out1 q(f); f.sstep(h,v,q.q); } }
    for(int j=0;j<n&&ok;j++){ int r; x.cov.transitions++;
      switch(s[j]){
      case INIT: if(h){ goto off; } r=f.sinit(&h,c.o); if(r||!h) ok=bad("init",s,j+1,fmt("StateInit returned %d, handle %p",r,h)); cnt=0; taint=false; break;
      case STEP: { Out1 q(f); d.at(cnt,v); r=f.sstep(h,v,q.q); if(!h){ if(r!=TA_BAD_PARAM) ok=bad("null-step",s,j+1,fmt("step on a null object returned %d",r)); break; }
          if(!taint){ if(r!=t.rc[cnt]) ok=bad("step-rc",s,j+1,fmt("step %d returned %d, expected %d",cnt,r,t.rc[cnt])); else if(!r) for(int k=0;k<f.nout;k++) if(!biteq(q.get(k),t.v[k][cnt])) ok=bad("step-value",s,j+1,fmt("bar %d output %d: %.17g, expected %.17g",cnt,k,q.get(k),t.v[k][cnt])); } cnt++; break; }
      case BATCH: { Out o; o.prep(f,2); int b=-9,m=-9; r=f.sbatch(h,cnt,cnt+1,d.p,&b,&m,o.q); if(!h){ if(r!=TA_BAD_PARAM) ok=bad("null-batch",s,j+1,fmt("batch-feed of a null object returned %d",r)); break; }
          if(!taint){ if(r!=t.rc[cnt+1]||b!=cnt||m!=2) ok=bad("batch-rc",s,j+1,fmt("batch-feed returned %d begIdx=%d nb=%d, expected %d %d 2",r,b,m,t.rc[cnt+1],cnt)); else for(int i=0;i<2&&ok;i++) if(!t.rc[cnt+i]) for(int k=0;k<f.nout;k++) if(!biteq(o.get(f,k,i),t.v[k][cnt+i])) ok=bad("batch-value",s,j+1,fmt("bar %d output %d: %.17g, expected %.17g",cnt+i,k,o.get(f,k,i),t.v[k][cnt+i])); } cnt+=2; break; }
      case SAVE: delete mf; mf=new MemFile; r=f.ssave(h,mf->f); mf->done(); if(r) ok=bad("save",s,j+1,fmt("save returned %d",r)); rec=h?cnt:-1; rtaint=taint; break;
      case LOAD: { if(rec==-2) goto off; FILE*g=fmemopen(mf->buf,mf->len,"rb"); void*h0=h; r=f.sload(&h,g); fclose(g);
          if(rec==-1){ if(r||h!=h0) ok=bad("load-null",s,j+1,fmt("loading the record of a null object returned %d (handle %p -> %p)",r,h0,h)); }
          else if(h0){ if(r!=TA_BAD_PARAM||h!=h0) ok=bad("load-busy",s,j+1,fmt("loading over a live object returned %d (handle %p -> %p)",r,h0,h)); }
          else if(r||!h) ok=bad("load",s,j+1,fmt("load returned %d handle %p",r,h)); else { cnt=rec; taint=rtaint; } break; }
      case FREE: r=f.sfree(&h); if(r||h) ok=bad("free",s,j+1,fmt("free returned %d, handle %p",r,h)); break;
      case INITBAD: if(h||nbad<0) goto off; r=f.sinit(&h,badp); if(r!=TA_BAD_PARAM||h) ok=bad("init-bad",s,j+1,fmt("StateInit with a bad parameter returned %d, handle %p",r,h)); break;
      case NULLS: { Out1 q(f); d.at(0,v); int r1=f.sstep(0,v,q.q),r2=f.sfree(0),r3=f.sinit(0,c.o); int b,m; Out o; o.prep(f,2); int r4=f.sbatch(0,0,1,d.p,&b,&m,o.q); void*z=0; int r5=f.sfree(&z);
          if(r1!=TA_BAD_PARAM||r2!=TA_BAD_PARAM||r3!=TA_BAD_PARAM||r4!=TA_BAD_PARAM||r5||z) ok=bad("nulls",s,j+1,fmt("null handles: step %d, free %d, init %d, batch %d, free of an empty handle %d",r1,r2,r3,r4,r5)); break; }
      case NULLARR: { int b=-9,m=-9; Out o; o.prep(f,2); for(int k=0;k<f.nin+f.nout&&ok;k++){ const double*p[6]; void*q[3]; for(int i=0;i<f.nin;i++) p[i]=i==k?0:d.p[i]; for(int i=0;i<f.nout;i++) q[i]=i+f.nin==k?0:o.q[i]; r=f.sbatch(h,0,1,p,&b,&m,q); if(r!=TA_BAD_PARAM) ok=bad("nullarr",s,j+1,fmt("batch-feed with %s %d null returned %d",k<f.nin?"input":"output",k<f.nin?k:k-f.nin,r)); } break; }
      case EMPTY: { int b=-9,m=-9; Out o; o.prep(f,2); r=f.sbatch(h,3,2,d.p,&b,&m,o.q); if(h? (r||b||m): r!=TA_BAD_PARAM) ok=bad("empty",s,j+1,fmt("empty batch-feed returned %d begIdx=%d nb=%d",r,b,m)); break; }
      case NULLOUT: { if(!h) goto off; d.at(cnt,v); void*q[3]={0,0,0}; r=f.sstep(h,v,q); if(r!=TA_BAD_PARAM&&r!=TA_NEED_MORE_DATA) ok=bad("nullout",s,j+1,fmt("step without output pointers returned %d",r)); taint=true; cnt++; break; }
      } continue;
      off: f.sfree(&h); delete mf; return false; }
    if(ok){ int r=f.sfree(&h); if(r||h) ok=bad("free",s,n,fmt("final free returned %d, handle %p",r,h)); r=f.sfree(&h); if(ok&&(r||h)) ok=bad("free-twice",s,n,fmt("second free returned %d",r)); }
    delete mf; if(ok&&g_live!=live) ok=bad("leak",s,n,fmt("%ld allocations left after the final free",g_live-live)); x.cov.states++; x.cov.traces++; return ok; }
  // does an operation sequence contain an operation that is disabled where it stands? (pruning)
  void all(int D){ int s[8]={0}; std::function<void(int,bool,int)> rec=[&](int j,bool alive,int haverec){ if(x.full()) return; if(j==D){ if(x.trace) x.step(id(s,D)); run(s,D); return; }
      for(int o=0;o<NOPS;o++){ bool a=alive; int hr=haverec; if(o==INIT){ if(alive) continue; a=true; } if(o==INITBAD&&(alive||nbad<0)) continue; if(o==LOAD&&!haverec) continue; if(o==NULLOUT&&!alive) continue; if(o==FREE) a=false; if(o==SAVE) hr=alive?2:1; if(o==LOAD&&haverec==2) a=true;
        s[j]=o; rec(j+1,a,hr); } };
    rec(0,pre>=0,0); } };
void job(const FD&f,const Cfg&c,int depth,Ctx&x){ apply(c); int lb=f.lookback(c.o); if(lb<0) return; std::set<int> P={-1,0,lb,lb+1};
  for(int p:P){ if(x.full()) return; Hist h=base_hist(f,4+(p&1),std::max(p,0)+2*depth+3); L l(f,c,x,h,p); if((int)l.t.rc.size()!=l.d.n){ x.viol(fmt("%s:init",f.name),cfgstr(f,c)+" StateInit failed"); return; } l.all(p>40?std::min(depth,4):depth); int s[]={STEP,SAVE,FREE,LOAD,STEP}; if(p==lb) x.sample(l.id(s,5)); } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; auto a=cfgs_life(f,std::max(tier,0),tier>0?24:8); int k=0; for(auto&c:a){ int depth=(k<2||k==(int)a.size()-1)?(tier>0?6:tier<0?4:5):(tier>0?5:tier<0?3:4); J.push_back({fmt("%s/seq/%d",f.name,k++),[&f,c,depth](Ctx&x){job(f,c,depth,x);}}); } } }
Reg r({"C21","model_checking","states = complete operation sequences executed on the real object and on the model (object alive, bars consumed, saved record); transitions = operations; traces = sequences ending with free, free again and an allocation balance",gen,
 {"creating over or a null handle for load are not exercised (the API requires an empty handle)","after a step without output pointers the object's values are not compared, only codes and memory"},
 "every sequence of 5 operations for 3 parameter/settings combinations and of 4 for the others (thorough 6 and 5) out of 11, started from nothing, from a fresh object and from objects that have consumed lookback and lookback+1 bars, x up to 8 parameter/settings combinations per function"});
}
