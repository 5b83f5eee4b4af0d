#include "cdlhist.h"
Bar mkbar(double o,double h,double l,double c){ Bar b; double a[9]={o,h,l,c,100,50,c,3,o}; memcpy(b.v,a,sizeof a); return b; }
std::vector<Bar> cdl_alphabet(int size){
  // bodies on a small price grid x shadow pairs, ordered so that every prefix is spread over colours, lengths and levels
  std::vector<Bar> all; static const double SHD[][2]={{0,0},{1,1},{.25,.25},{3,0},{0,3},{4,4},{.25,2},{2,.25},{.5,.125},{8,8}};
  std::vector<std::vector<Bar>> bk; 
  for(auto&s:SHD) for(int o=0;o<7;o++) for(int c=0;c<7;c++){ double O=20+o,C=20+c; all.push_back(mkbar(O,std::max(O,C)+s[0],std::min(O,C)-s[1],C)); }
  std::vector<Bar> out; size_t n=all.size(),step=197; size_t i=2; std::vector<char> used(n,0); // 490 bars, 197 coprime to 490
  while(out.size()<n&&(int)out.size()<size){ i=(i+step)%n; if(!used[i]){ used[i]=1; out.push_back(all[i]); } else i++; }
  return out; }
Hist debruijn(const std::vector<Bar>&A,int w,size_t maxlen,int*Kout){
  int K=A.size(); if(w<1) w=1; while(K>2&&pow((double)K,w)>(double)maxlen) K--; if(Kout)*Kout=K;
  std::vector<int> a(K*w+1,0); Hist h; std::vector<int> seq;
  std::function<void(int,int)> db=[&](int t,int p){ if(t>w){ if(w%p==0) for(int j=1;j<=p;j++) seq.push_back(a[j]); } else { a[t]=a[t-p]; db(t+1,p); for(int j=a[t-p]+1;j<K;j++){ a[t]=j; db(t+1,t); } } };
  db(1,1); h.reserve(seq.size()+w); for(int x:seq) h.push_back(A[x]); for(int i=0;i<w-1&&i<(int)seq.size();i++) h.push_back(A[seq[i]]); return h; }
static const struct { const char*n; int cs,res,len; int q[15*4]; } SEEDS[]={
#include "cdlseeds.inc"
};
std::vector<Seed> cdl_seeds(const FD&f,int cs){ std::vector<Seed> v; for(auto&s:SEEDS) if(s.cs==cs&&!strcmp(s.n,f.name)){ Seed x; x.res=s.res; for(int i=0;i<s.len;i++) x.h.push_back(mkbar(s.q[4*i]/4.,s.q[4*i+1]/4.,s.q[4*i+2]/4.,s.q[4*i+3]/4.)); v.push_back(x); } return v; }
std::vector<Bar> cdl_variants(const Hist&h,int p,const CR&r,int dep,bool fine){
  std::set<double> lev; int n=h.size(); for(int j=std::max(0,p-4);j<std::min(n,p+5);j++) for(int k=0;k<4;k++) lev.insert(h[j].v[k]);
  for(int j=std::max(0,p-4);j<std::min(n,p+5);j++){ lev.insert((h[j].v[0]+h[j].v[3])/2); lev.insert((h[j].v[1]+h[j].v[2])/2); }
  auto dy=[](double x){ return x*1024==floor(x*1024); };
  std::set<double> av; for(int k=0;k<11;k++) if(dep>>k&1) for(int j=std::max(r.s[k].period,p-4);j<std::min(n,p+5);j++){ double a=r.AVG(k,j); if(dy(a)) av.insert(a); }
  std::set<double> L2=lev; if(fine){ for(double x:lev){ L2.insert(x+.25); L2.insert(x-.25); } }
  double mx=std::max(h[p].v[0],h[p].v[3]),mn=std::min(h[p].v[0],h[p].v[3]); for(double a:av) for(double e:{-1/64.,0.,1/64.}){ L2.insert(mx+a+e); L2.insert(mn-a+e); }
  for(double a:av) for(int k=0;k<4;k++){ L2.insert(h[p].v[k]+a); L2.insert(h[p].v[k]-a); if(fine){ for(int j=std::max(0,p-2);j<std::min(n,p+3);j++){ L2.insert(h[j].v[k]+a); L2.insert(h[j].v[k]-a); } } }
  std::vector<Bar> out; auto put=[&](double o,double hi,double lo,double c){ hi=std::max(hi,std::max(o,c)); lo=std::min(lo,std::min(o,c)); Bar b=mkbar(o,hi,lo,c); if(memcmp(&b,&h[p],4*sizeof(double))) out.push_back(b); };
  double o=h[p].v[0],hi=h[p].v[1],lo=h[p].v[2],c=h[p].v[3];
  for(double x:L2){ put(x,hi,lo,c); put(o,x,lo,c); put(o,hi,x,c); put(o,hi,lo,x); double d=x-c; put(x,hi,lo,x); put(o+d,hi+d,lo+d,x); }
  put(c,hi,lo,o);
  std::sort(out.begin(),out.end(),[](const Bar&a,const Bar&b){return memcmp(&a,&b,sizeof a)<0;}); out.erase(std::unique(out.begin(),out.end(),[](const Bar&a,const Bar&b){return !memcmp(&a,&b,sizeof a);}),out.end()); return out; }
int cdl_enumerate(const Hist&h,const CR&rr,const CdlDef&d,int nal,uint64_t cap,int before,const std::function<bool(const Hist&)>&fn){
  int n=h.size(); const FD&f=FTAB[fidx("CDLDOJI")]; auto at=[&](const Hist&g,Data&D){ D.set(f,g); CR r=rr; r.o=D.p[0]; r.h=D.p[1]; r.l=D.p[2]; r.c=D.p[3]; return r; };
  { Hist g=h; int k=std::min(n,d.bars+1); for(int m=1;m<(1<<k);m++){ for(int j=0;j<k;j++){ g[n-1-j]=h[n-1-j]; if(m>>j&1) std::swap(g[n-1-j].v[0],g[n-1-j].v[3]); } if(!fn(g)) return -1; } }
  Data d0; CR r0=at(h,d0); int lo=std::max(0,n-1-d.bars-before); std::vector<std::vector<Bar>> W(n); for(int p=lo;p<n;p++) W[p]=cdl_variants(h,p,r0,d.dep,false);
  auto AL=cdl_alphabet(nal); Hist g=h; uint64_t cnt=0;
  for(int p=n-1;p>=0;p--){ for(auto&b:cdl_variants(h,p,r0,d.dep,true)){ g[p]=b; if(!fn(g)) return -1; } for(auto&b:AL){ g[p]=b; if(!fn(g)) return -1; } g[p]=h[p]; }
  // two fields of one bar at, just above and just below the prices of its neighbours
  for(int p=n-1;p>=lo;p--){ std::set<double> L; for(int j=std::max(0,p-2);j<std::min(n,p+3);j++){ double*v=(double*)h[j].v; for(int k=0;k<4;k++) L.insert(v[k]); L.insert((v[0]+v[3])/2); } std::vector<double> L2; for(double x:L) for(double e:{-1/16.,0.,1/16.}) L2.push_back(x+e);
    const double*v=h[p].v; for(int k1=0;k1<4;k1++) for(int k2=k1+1;k2<4;k2++) for(double x:L2) for(double y:L2){ double b[4]={v[0],v[1],v[2],v[3]}; b[k1]=x; b[k2]=y; if(k1!=1&&k2!=1) b[1]=std::max(b[1],std::max(b[0],b[3])); if(k1!=2&&k2!=2) b[2]=std::min(b[2],std::min(b[0],b[3])); if(b[1]<std::max(b[0],b[3])||b[2]>std::min(b[0],b[3])) continue; g[p]=mkbar(b[0],b[1],b[2],b[3]); if(!fn(g)) return -1; }
    g[p]=h[p]; }
  for(int gap=0;gap<n&&cnt<=cap;gap++) for(int p=n-1;p-gap>=lo;p--){ int q=p-gap;
    for(size_t a=0;a<W[p].size()&&cnt<=cap;a++){ g[p]=W[p][a];
      if(!gap){ Data d1; CR r1=at(g,d1); auto W2=cdl_variants(g,p,r1,d.dep,false); for(auto&b:W2){ if(cnt++>cap) break; g[p]=b; if(!fn(g)) return -1; } }
      else { for(auto&b:W[q]){ if(cnt++>cap) break; g[q]=b; if(!fn(g)) return -1; } g[q]=h[q]; }
      g[p]=h[p]; } }
  return cnt>cap; }
