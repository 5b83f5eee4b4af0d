// Shared engine of all checks: the frozen call table, the explored domains
// (configurations, alphabets, histories) and the parallel job runner.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <climits>
#include <string>
#include <vector>
#include <functional>
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "ta_libc.h"
#include "ta_func.h"
}
struct OptD { const char *name; int type; double mn, mx, df; };   // type 0 int,1 real,2 MAType
struct OutD { const char *name; int isint; };
struct FD {
  const char *name, *camel, *group; int flags; int unst;
  int nin; unsigned char ik[6];      // 0 O,1 H,2 L,3 C,4 V,5 OI,6 real,7 periods
  int nopt; OptD opt[8]; int nout; OutD out[3];
  TA_RetCode (*batch)(int,int,const double*const*,const double*,int*,int*,void*const*);
  TA_RetCode (*batchf)(int,int,const float*const*,const double*,int*,int*,void*const*);
  int (*lookback)(const double*);
  TA_RetCode (*sinit)(void**,const double*);
  TA_RetCode (*sstep)(void*,const double*,void*const*);
  TA_RetCode (*sbatch)(void*,int,int,const double*const*,int*,int*,void*const*);
  TA_RetCode (*sfree)(void**);
  TA_RetCode (*ssave)(void*,FILE*);
  TA_RetCode (*sload)(void**,FILE*);
};
enum { F_OVERLAP=1, F_UNST=2, F_CANDLE=4, F_VOLUME=8 };
extern const FD FTAB[]; extern const int NF;
int fidx(const char *name);
inline bool is(const FD &f,const char*n){ return !strcmp(f.name,n); }

// ---- one bar of market data: every component a function may consume
struct Bar { double v[9]; };            // O H L C V OI R P R2
typedef std::vector<Bar> Hist;
int slot(const FD &f,int k);            // which component feeds input k
// ---- one configuration: parameters plus global settings
struct Cfg { double o[8]; int unst, compat, candle; };
void apply(const Cfg &c);               // sets globals (unstable periods, compat, candles)
void apply_candle(int id);
extern const int NCANDLE;
struct CandleS { int type,period; double factor; };
void candle_set(int id,CandleS*o);      // the 11 settings of candle set id
std::string cfgstr(const FD &f,const Cfg &c);
std::vector<Cfg> cfgs_small(const FD &f,int tier);
std::vector<Cfg> cfgs_long(const FD &f,int tier);
std::vector<Cfg> cfgs_huge(const FD &f,int tier);     // one long parameter (2000 or 70000) at a time
std::vector<Cfg> cfgs_run(const FD &f);               // few combinations for histories longer than 65536 bars
Hist run_hist(const FD&f,const Cfg&c,int n);
static const int RUN=65536+240;
Hist huge_hist(const FD&f,int which,int n);      // ramp with a drifting zigzag; which 0..2
bool depends_unst(const FD&f);
bool depends_compat(const FD&f);
// ---- alphabets / histories
std::vector<Bar> alphabet(const FD &f,int which);   // which=0,1
int nalpha(const FD&f);
typedef std::function<bool(const Hist&)> HistFn;    // return false to stop
struct Cov { uint64_t states=0, transitions=0, traces=0, skipped=0; };
// all sequences over alphabet K^D ; returns number
uint64_t tree(const std::vector<Bar>&A,int D,const HistFn&fn);
void tree_shape(const FD&f,int lb,uint64_t budget,int avail,int extra,int&K,int&D); // K=0: does not fit
// base histories (length n) and all <=dev deviations
int nbase(const FD &f,const Cfg&c);          // candle functions: plus the committed occurrences of the pattern under c's candle set
Hist base_hist(const FD &f,const Cfg&c,int which,int n);
Hist base_hist(const FD &f,int which,int n);
uint64_t deviations(const Hist&b,const std::vector<Bar>&A,int dev,const HistFn&fn);
std::string histstr(const FD &f,const Hist &h);

// ---- data in call form
struct Data {
  int n; std::vector<double> in[6]; std::vector<float> inf[6];
  const double *p[6]; const float *pf[6]; const FD *f;
  void set(const FD &f,const Hist &h,bool withf=false);
  void at(int i,double *x) const { for(int k=0;k<f->nin;k++) x[k]=p[k][i]; }
};
extern volatile unsigned long *g_beat;   // counts up while a job makes progress
struct Out {                     // one set of outputs in double form
  int nout=0; std::vector<double> d[3]; std::vector<int> i[3]; void *q[3];
  void prep(const FD &f,int n); double get(const FD&f,int k,int j)const{ return f.out[k].isint? (double)i[k][j] : d[k][j]; }
};
struct Out1 { double d[3]; int i[3]; void*q[3]; const FD*f;
  Out1(const FD&f_):f(&f_){ ++*g_beat; for(int k=0;k<3;k++){ d[k]=-7.5e30; i[k]=-777777777; q[k]= (k<f->nout&&f->out[k].isint)?(void*)&i[k]:(void*)&d[k]; } }
  double get(int k)const{ return f->out[k].isint?(double)i[k]:d[k]; } };
inline bool near(double a,double b,double tol=1e-8){
  if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b);
  if(std::isinf(a)||std::isinf(b)) return false;
  double m=std::max(std::fabs(a),std::fabs(b)); return std::fabs(a-b)<=tol*std::max(1.0,m); }
inline bool biteq(double a,double b){ return (std::isnan(a)&&std::isnan(b)) || a==b; }

// ---- job engine
struct Shared;                 // per worker slot in shared memory
struct Ctx {
  const char *prop; int tier; bool trace; bool mute=false; Cov cov; Shared *sh; int nv=0;
  void step(const std::string &s);                  // trace point (only when re-running a crashed job)
  void viol(const std::string &key,const std::string &detail);
  bool full() const { return nv>=3; }               // enough violations in this job
  void sample(const std::string &s);
  void note(const std::string&k,uint64_t n=1);      // named counters -> evidence
  std::map<std::string,uint64_t> notes;
};
struct Job { std::string name; std::function<void(Ctx&)> fn; };
struct Check {
  const char *prop,*level,*rule; std::function<void(std::vector<Job>&,int tier)> gen;
  std::vector<std::string> assumptions; std::string bounds;
};
void reg(const Check&c);
struct Reg { Reg(const Check&c){ reg(c);} };
std::string fmt(const char *f,...);
extern bool g_lib_ok;
void quiet_reset();            // TA_Initialize + defaults
// allocation interposition (shim.c, wrapped inside the library under test)
extern "C" { extern long g_live,g_bytes,g_nalloc,g_fail_at; extern int g_alloc_track,g_fill; }
// first bar from which an output hangs on the last bit of an intermediate value
// (STOCHRSI over an RSI that is flat up to rounding); n when there is none
int illcond_from(const FD&f,const Cfg&c,const Data&d,int s=0);
bool illcond_at(const FD&f,const Cfg&c,const Data&d,int bar);
// does the batch value of this bar, of a function known to amplify rounding (Hilbert transform, KAMA/MAMA averages, BETA), change when the inputs change in their last bits?
bool illcond_noise(const FD&f,const Cfg&c,const Data&d,int bar,int k);
// can two values of this bar (request starting at bar s) differ by rounding alone?  Asked only when they differ
double float_tol(const FD&f);   // agreement of the single-precision entry point on exactly representable inputs
bool rounding_only(const FD&f,const Cfg&c,const Data&d,int s,int bar,int k,double a,double b);
bool relevant_ma_overflow(const FD&f,const Cfg&c);
