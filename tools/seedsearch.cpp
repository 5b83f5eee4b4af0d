// Offline search for bar sequences on which each candlestick definition holds (writes harness/cdlseeds.inc).
// Uses only the reference definitions; the checks re-verify every seed at run time.
#include "cdlref.h"
#include <random>
#include <thread>
#include <mutex>
static std::mutex M; static std::map<std::string,std::vector<std::string>> outp;
struct Q { int o,h,l,c; };
int main(int ac,char**av){ long N=ac>1?atol(av[1]):20000000; TA_Initialize(); std::vector<int> fs; for(int i=0;i<NF;i++) if(FTAB[i].flags&F_CANDLE) fs.push_back(i);
  volatile int nx=0; std::vector<std::thread> T; for(int w=0;w<8;w++) T.emplace_back([&]{ while(1){ int k=__sync_fetch_and_add(&nx,1); if(k>=(int)fs.size()*NCANDLE) return; const FD&f=FTAB[fs[k/NCANDLE]]; int cs=k%NCANDLE; std::mt19937 g(k*7+1); CR r; candle_set(cs,r.s); r.pen=f.nopt?f.opt[0].df:0; CdlDef d=cdl_def(f.name); int n=cdl_lookback(d,r.s)+1; int tail=std::min(n,d.bars+1);
    std::vector<double> o(n),h(n),l(n),c(n); r.o=o.data();r.h=h.data();r.l=l.data();r.c=c.data(); std::map<int,int> got; auto R=[&](int m){return (int)(g()%m);} ;
    auto bar=[&](int i,int style){ static const int SH[]={0,0,1,2,4,8,16,40}; int oo,cc; int lv=80;
      switch(style){ case 0: oo=lv+4*R(9); cc=lv+4*R(9); break; case 1: oo=lv+4*R(9); cc=oo+R(3)-1; break; case 2: oo=lv+16+4*R(3); cc=oo+(R(2)?1:-1)*(8+R(9)); break; default: oo=lv+R(40); cc=lv+R(40); }
      int u=SH[R(style==0?8:6)],d2=SH[R(style==0?8:6)]; o[i]=oo/4.; c[i]=cc/4.; h[i]=std::max(oo,cc)/4.+u/4.; l[i]=std::min(oo,cc)/4.-d2/4.; };
    for(long it=0;it<N;it++){ int ps=R(4); if(n>tail&&(it%64==0)){ int mode=R(3); for(int i=0;i<n-tail;i++) bar(i,mode==0?0:ps); }
      int p=R(5); for(int i=n-tail;i<n;i++) bar(i,p==4?R(4):p);
      int v=(r.*d.fn)(n-1); if(v&&got[v]<2){ got[v]++; std::string s; for(int i=0;i<n;i++) s+=fmt("%s%d,%d,%d,%d",i?",":"",(int)(o[i]*4),(int)(h[i]*4),(int)(l[i]*4),(int)(c[i]*4)); std::lock_guard<std::mutex> q(M); outp[fmt("%s",f.name)].push_back(fmt("{\"%s\",%d,%d,%d,{%s}},",f.name,cs,v,n,s.c_str())); bool all=got.size()>=2; for(auto&e:got) all&=e.second>=2; if(all&&it>N/4) break; } } } });
  for(auto&t:T) t.join(); for(auto&e:outp){ std::sort(e.second.begin(),e.second.end()); for(auto&x:e.second) puts(x.c_str()); } }
