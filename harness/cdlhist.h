// Candle histories on which the patterns really occur: de Bruijn sequences (every window of w bars over an alphabet occurs
// exactly once in one long history) and committed seeds with all their deviations.
#pragma once
#include "cdlref.h"
std::vector<Bar> cdl_alphabet(int size);             // the first `size` bars of a spread-out list of shapes
// longest affordable de Bruijn history of order w with at most maxlen bars
Hist debruijn(const std::vector<Bar>&A,int w,size_t maxlen,int*K=0);
struct Seed { int res; Hist h; };
std::vector<Seed> cdl_seeds(const FD&f,int candleset);
// every single-field change of bar p of h to one of the levels that matter there (other bars' prices and average distances)
std::vector<Bar> cdl_variants(const Hist&h,int p,const CR&r,int dep,bool fine);
Bar mkbar(double o,double h,double l,double c);
// around the occurrence at the end of h: every colour flip combination, every single-bar deviation anywhere, every pair of level
// changes inside the pattern (at most cap pairs). -1: stopped by fn, 1: the cap cut the pairs, 0: complete
int cdl_enumerate(const Hist&h,const CR&r,const CdlDef&d,int nal,uint64_t cap,int before,const std::function<bool(const Hist&)>&fn);
