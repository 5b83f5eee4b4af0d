// C04: state save/load under every I/O fault.
#include "life.h"
namespace {
// a FILE whose k-th read/write or whose bytes after limit B fail
struct Dev { std::string data; size_t pos=0; long limit=-1; long failcall=-1; long calls=0; bool hit=false; bool shorten=false; };
ssize_t dw(void*p,const char*b,size_t n){ Dev*d=(Dev*)p; long c=d->calls++; if(c==d->failcall){ d->hit=true; if(d->shorten&&n>1){ d->data.append(b,n/2); return n/2; } errno=EIO; return 0; }
  if(d->limit>=0&&d->data.size()+n>(size_t)d->limit){ d->hit=true; size_t m=d->limit-d->data.size(); d->data.append(b,m); errno=ENOSPC; return m; }
  d->data.append(b,n); return n; }
ssize_t dr(void*p,char*b,size_t n){ Dev*d=(Dev*)p; long c=d->calls++; if(c==d->failcall){ d->hit=true; errno=EIO; return -1; }
  size_t end=d->data.size(); if(d->limit>=0&&(size_t)d->limit<end) end=d->limit; size_t m=std::min(n,end-d->pos); if(m<n) d->hit=true; memcpy(b,d->data.data()+d->pos,m); d->pos+=m; return m; }
FILE*dopen(Dev*d,const char*m){ cookie_io_functions_t io={dr,dw,0,0}; FILE*f=fopencookie(d,m,io); setvbuf(f,0,_IONBF,0); return f; }
bool bad(Ctx&x,const FD&f,const char*k,const std::string&d){ x.viol(fmt("%s:%s",f.name,k),d); return false; }
bool one(const FD&f,const Cfg&c,Ctx&x,const Data&d,int s,bool dense){
  std::string id=cfgstr(f,c)+fmt(" saved before bar %d",s);
  if(x.trace) x.step(id);
  void*st=0; if(f.sinit(&st,c.o)!=TA_SUCCESS) return true; double v[6]; for(int i=0;i<s;i++){ d.at(i,v); Out1 q(f); f.sstep(st,v,q.q); }
  Dev ok; FILE*g=dopen(&ok,"w"); int rc=f.ssave(st,g); fclose(g); long W=ok.calls, L=ok.data.size(); bool good=true;
  if(rc||!L){ f.sfree(&st); return bad(x,f,"save-rc",id+fmt(": save to a healthy file returned %d (%ld bytes)",rc,L)); }
  std::vector<long> B; if(dense||L<=600) for(long b=0;b<L;b++) B.push_back(b); else { std::set<long> S; for(long b=0;b<200;b++) S.insert(b); for(long b=L-300;b<L;b++) S.insert(b); for(long b=200;b<L-300;b+=7) S.insert(b); B.assign(S.begin(),S.end()); }
  // the disk fills up after b bytes / the k-th write fails once
  for(long b:B){ Dev e; e.limit=b; g=dopen(&e,"w"); rc=f.ssave(st,g); fclose(g); x.cov.states++; x.cov.transitions++;
    if(rc==TA_SUCCESS){ good=bad(x,f,"save-full",id+fmt(": file full after %ld of %ld bytes but save returned success",b,L)); break; }
    if(rc!=TA_IO_FAILED){ good=bad(x,f,"save-full-rc",id+fmt(": file full after %ld of %ld bytes, save returned %d instead of TA_IO_FAILED",b,L,rc)); break; }
    if(e.data!=ok.data.substr(0,e.data.size())){ good=bad(x,f,"save-prefix",id+fmt(": bytes written before the failure at %ld are not a prefix of the record",b)); break; } }
  for(int sh=0;sh<2;sh++) for(long k=0;k<W;k++){ Dev e; e.failcall=k; e.shorten=sh; g=dopen(&e,"w"); rc=f.ssave(st,g); fclose(g); x.cov.states++; x.cov.transitions++;
    if(e.hit&&rc==TA_SUCCESS&&e.data!=ok.data){ good=bad(x,f,"save-transient",id+fmt(": write call %ld of %ld failed but save returned success",k,W)); break; } }
  // the object is unharmed: saving again gives the same record
  { Dev e; g=dopen(&e,"w"); rc=f.ssave(st,g); fclose(g); if(rc||e.data!=ok.data) good=bad(x,f,"save-again",id+fmt(": after failed saves a good save returned %d / a different record",rc)); }
  f.sfree(&st); long live=g_live;
  // every truncation of the record / every failing read
  for(long b:B){ Dev e; e.data=ok.data; e.limit=b; g=dopen(&e,"r"); void*z=0; if(x.trace) x.step(id+fmt(" load of %ld of %ld bytes",b,L)); rc=f.sload(&z,g); fclose(g); x.cov.states++; x.cov.transitions++;
    if(rc==TA_SUCCESS) good=bad(x,f,"load-truncated",id+fmt(": record truncated to %ld of %ld bytes but load returned success",b,L));
    else if(rc!=TA_IO_FAILED) good=bad(x,f,"load-truncated-rc",id+fmt(": record truncated to %ld of %ld bytes, load returned %d instead of TA_IO_FAILED",b,L,rc));
    if(f.sfree(&z)!=TA_SUCCESS||z) good=bad(x,f,"load-free",id+fmt(": after loading %ld of %ld bytes the handle could not be freed",b,L));
    if(g_live!=live) good=bad(x,f,"load-leak",id+fmt(": loading %ld of %ld bytes leaks %ld allocations",b,L,g_live-live)); 
    if(!good) return false; }
  Dev p; p.data=ok.data; g=dopen(&p,"r"); void*z=0; rc=f.sload(&z,g); fclose(g); f.sfree(&z); long R=p.calls;
  if(rc) return bad(x,f,"load-rc",id+fmt(": load of an intact record returned %d",rc));
  for(long k=0;k<R;k++){ Dev e; e.data=ok.data; e.failcall=k; g=dopen(&e,"r"); z=0; if(x.trace) x.step(id+fmt(" read call %ld fails",k)); rc=f.sload(&z,g); fclose(g); x.cov.states++; x.cov.transitions++;
    if(e.hit&&rc==TA_SUCCESS) good=bad(x,f,"load-transient",id+fmt(": read call %ld of %ld failed but load returned success",k,R));
    if(f.sfree(&z)!=TA_SUCCESS||z) good=bad(x,f,"load-free",id+": handle could not be freed after a failed load");
    if(g_live!=live) good=bad(x,f,"load-leak",id+fmt(": failing read call %ld leaks %ld allocations",k,g_live-live)); if(!good) return false; }
  x.cov.traces++; return good; }
void job(const FD&f,const std::vector<Cfg>&cs,Ctx&x){
  for(auto&c:cs){ if(x.full()) return; apply(c); int lb=f.lookback(c.o); if(lb<0||lb>400){ x.cov.skipped++; continue; }
    Data d; Hist h=base_hist(f,4,lb+5); d.set(f,h); x.sample(cfgstr(f,c));
    std::set<int> S={0,1,lb/2,lb,lb+3}; for(int s:S) if(!one(f,c,x,d,s,x.tier)) break; } }
void gen(std::vector<Job>&J,int tier){ for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; auto a=cfgs_life(f,tier,tier?60:24); for(size_t k=0;k<a.size();k+=4){ std::vector<Cfg> s(a.begin()+k,a.begin()+std::min(a.size(),k+4)); J.push_back({fmt("%s/io/%zu",f.name,k),[&f,s](Ctx&x){job(f,s,x);}}); } } }
Reg r({"C04","fault_enumeration","one evaluation per (function, parameters/settings, save point, I/O fault); faults: the medium is full after b bytes, the k-th write fails or is short once, the record is truncated to b bytes, the k-th read fails once; every evaluation injects exactly one fault, all distinct",gen,
 {"stdio is unbuffered, so that a failing write reaches the call that issued it (with a buffered stream the library cannot see the failure before fflush)"},
 "every byte offset b of records up to 600 bytes (first 200, last 300 and every 7th byte of longer ones in the quick tier, all in the thorough tier), every write call, every read call; save points 0, 1, lookback/2, lookback, lookback+3; up to 24 configurations per function"});
}
