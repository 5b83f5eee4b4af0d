// helpers shared by the streaming-lifecycle checks
#pragma once
#include "core.h"
// configurations used by the lifecycle checks: a spread of the small set plus the nested/large ones
inline std::vector<Cfg> cfgs_life(const FD&f,int tier,size_t cap){
  std::vector<Cfg> v=cfgs_small(f,tier),l=cfgs_long(f,tier),o; size_t nl=std::min(l.size(),cap/3+1),ns=std::min(v.size(),cap-std::min(cap,nl));
  for(size_t i=0;i<ns;i++) o.push_back(v[i*v.size()/ns]);
  for(size_t i=0;i<nl;i++) o.push_back(l[i*l.size()/nl]);
  return o; }
struct Trace { std::vector<int> rc; std::vector<double> v[3]; };
inline void stepref(const FD&f,const Cfg&c,const Data&d,Trace&t){ void*st=0; t.rc.clear(); for(auto&x:t.v) x.clear();
  if(f.sinit(&st,c.o)!=TA_SUCCESS) return; double x[6]; for(int i=0;i<d.n;i++){ d.at(i,x); Out1 q(f); t.rc.push_back(f.sstep(st,x,q.q)); for(int k=0;k<f.nout;k++) t.v[k].push_back(q.get(k)); } f.sfree(&st); }
struct MemFile { char*buf=0; size_t len=0; FILE*f; MemFile(){ f=open_memstream(&buf,&len);} void done(){ if(f){ fclose(f); f=0; } } ~MemFile(){ done(); free(buf);} };
