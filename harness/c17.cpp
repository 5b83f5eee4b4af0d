// C17: introspection against the frozen description of the real functions.
#include "abs.h"
namespace {
const char*GROUPS[]={"Math Operators","Math Transform","Overlap Studies","Volatility Indicators","Momentum Indicators","Cycle Indicators","Volume Indicators","Pattern Recognition","Statistic Functions","Price Transform"};
void bad(Ctx&x,const std::string&k,const std::string&s){ x.viol(k,s); }
#define T(c,k,...) do{ x.cov.transitions++; if(!(c)) bad(x,k,fmt(__VA_ARGS__)); }while(0)
void groups(Ctx&x){ TA_StringTable*g=0; T(TA_GroupTableAlloc(0)==TA_BAD_PARAM,"group:null","TA_GroupTableAlloc(NULL) not refused"); long live=g_live; int r=TA_GroupTableAlloc(&g); T(r==0&&g,"group:alloc","TA_GroupTableAlloc returned %d",r); if(!g) return;
  std::set<std::string> S; for(unsigned i=0;i<g->size;i++) S.insert(g->string[i]); std::set<std::string> E; for(auto s:GROUPS) E.insert(s); for(int i=0;i<NF;i++) T(E.count(FTAB[i].group),"group:frozen","%s",FTAB[i].group);
  T(g->size==E.size()&&S==E,"group:list","group table has %u entries, %zu distinct, or names a group that does not exist",g->size,S.size());
  std::map<std::string,std::string> where; for(unsigned i=0;i<g->size;i++){ TA_StringTable*t=0; r=TA_FuncTableAlloc(g->string[i],&t); T(r==0&&t,"functable:alloc","TA_FuncTableAlloc(%s) returned %d",g->string[i],r); if(!t) continue; for(unsigned j=0;j<t->size;j++){ x.cov.states++; T(!where.count(t->string[j]),"functable:twice","%s is listed twice",t->string[j]); where[t->string[j]]=g->string[i]; } r=TA_FuncTableFree(t); T(r==0,"functable:free","TA_FuncTableFree returned %d",r); }
  for(int i=0;i<NF;i++){ auto w=where.find(FTAB[i].name); T(w!=where.end(),fmt("%s:unlisted",FTAB[i].name),"TA_%s is in no group list",FTAB[i].name); if(w!=where.end()) T(w->second==FTAB[i].group,fmt("%s:group",FTAB[i].name),"TA_%s is listed in '%s' instead of '%s'",FTAB[i].name,w->second.c_str(),FTAB[i].group); }
  T(where.size()==(size_t)NF,"functable:count","%zu functions listed, %d exist",where.size(),NF);
  TA_StringTable*t=0; for(const char*n:{"","Momentum","momentum indicators","Momentum Indicators ","SMA","Unknown"}) { r=TA_FuncTableAlloc(n,&t); T(r==TA_GROUP_NOT_FOUND,"functable:unknown","TA_FuncTableAlloc('%s') returned %d",n,r); } T(TA_FuncTableAlloc(0,&t)==TA_BAD_PARAM&&TA_FuncTableAlloc("Cycle Indicators",0)==TA_BAD_PARAM,"functable:null","null argument not refused");
  r=TA_GroupTableFree(g); T(r==0,"group:free","TA_GroupTableFree returned %d",r); TA_GroupTableFree(0); TA_FuncTableFree(0); T(g_live==live,"group:leak","%ld allocations left",g_live-live); x.cov.traces++; x.sample("group table -> every function table -> union"); }
std::map<std::string,const TA_FuncInfo*> *FE; int nFE;
void each(const TA_FuncInfo*i,void*o){ (*(std::map<std::string,const TA_FuncInfo*>*)o)[i->name]=i; nFE++; }
void names(Ctx&x){ std::map<std::string,const TA_FuncInfo*> m; nFE=0; int r=TA_ForEachFunc(each,&m); T(r==0,"foreach:rc","TA_ForEachFunc returned %d",r); T(TA_ForEachFunc(0,0)==TA_BAD_PARAM,"foreach:null","NULL callback accepted"); T(nFE==NF&&m.size()==(size_t)NF,"foreach:count","%d visits of %zu functions, %d exist",nFE,m.size(),NF);
  std::set<const TA_FuncHandle*> hs; for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; const TA_FuncHandle*h=0; r=TA_GetFuncHandle(f.name,&h); T(r==0&&h,fmt("%s:handle",f.name),"TA_GetFuncHandle(%s) returned %d",f.name,r); if(!h) continue; T(hs.insert(h).second,fmt("%s:handle-shared",f.name),"handle of %s is shared",f.name); const TA_FuncInfo*fi=0; r=TA_GetFuncInfo(h,&fi); T(r==0&&fi&&!strcmp(fi->name,f.name),fmt("%s:handle-name",f.name),"the handle of %s describes %s",f.name,fi?fi->name:"nothing"); T(m.count(f.name)&&m[f.name]==fi,fmt("%s:foreach",f.name),"TA_ForEachFunc gives another description of %s",f.name); x.cov.states++; }
  // every one-character change, prefix, extension and case change of every name that is not itself a name
  std::set<std::string> N; for(int i=0;i<NF;i++) N.insert(FTAB[i].name); std::set<std::string> W; for(auto&n:N){ for(size_t k=0;k<n.size();k++){ W.insert(n.substr(0,k)); std::string q=n; for(char ch: std::string("AZ_0Pz")){ q[k]=ch; W.insert(q); } q=n; q[k]=tolower(q[k]); W.insert(q); q=n; q.erase(k,1); W.insert(q); } W.insert(n+"X"); W.insert(n+" "); W.insert(" "+n); W.insert("TA_"+n); std::string l=n; for(auto&ch:l) ch=tolower(ch); W.insert(l); }
  for(char ch=1;ch<127;ch++) W.insert(std::string(1,ch));
  W.insert("\x80"); W.insert("\xff"); W.insert("\xe9MA"); W.insert("{"); W.insert("@"); W.insert("[");
  for(auto&w:W) if(!N.count(w)){ const TA_FuncHandle*h=(const TA_FuncHandle*)&h; r=TA_GetFuncHandle(w.c_str(),&h); int e= w.empty()?TA_BAD_PARAM:TA_FUNC_NOT_FOUND; T(r==e&&(w.empty()||!h),"lookup:unknown","TA_GetFuncHandle('%s') returned %d handle %p, expected %d",w.c_str(),r,(const void*)h,e); x.cov.states++; }
  T(TA_GetFuncHandle(0,(const TA_FuncHandle**)&m)==TA_BAD_PARAM,"lookup:null","NULL name accepted"); x.note("wrong_names",W.size()); x.cov.traces++; x.sample("every one-edit neighbour of every function name is refused"); }
void func(const FD&f,Ctx&x){ const TA_FuncHandle*h=0; TA_GetFuncHandle(f.name,&h); const TA_FuncInfo*fi=0; if(!h||TA_GetFuncInfo(h,&fi)||!fi){ bad(x,fmt("%s:info",f.name),"no description"); return; } std::string P=f.name; P+=":";
  T(TA_GetFuncInfo(h,0)==TA_BAD_PARAM&&TA_GetFuncInfo(0,&fi)==TA_BAD_PARAM,P+"null","TA_GetFuncInfo accepts NULL");
  T(!strcmp(fi->group,f.group),P+"group","group '%s' instead of '%s'",fi->group,f.group); T(fi->camelCaseName&&!strcmp(fi->camelCaseName,f.camel),P+"camel","camel-case name '%s' instead of '%s'",fi->camelCaseName,f.camel); T(fi->hint&&*fi->hint,P+"hint","no hint"); T(fi->handle==h,P+"handle","description points to another handle");
  int fl=0; if(f.flags&F_OVERLAP) fl|=TA_FUNC_FLG_OVERLAP; if(f.flags&F_UNST) fl|=TA_FUNC_FLG_UNST_PER; if(f.flags&F_CANDLE) fl|=TA_FUNC_FLG_CANDLESTICK; if(f.flags&F_VOLUME) fl|=TA_FUNC_FLG_VOLUME; T(fi->flags==fl,P+"flags","flags %#x instead of %#x",fi->flags,fl);
  auto A=ainputs(f); T(fi->nbInput==A.size(),P+"nbinput","%u inputs, the function has %zu",fi->nbInput,A.size()); T((int)fi->nbOptInput==f.nopt,P+"nbopt","%u options, the function has %d",fi->nbOptInput,f.nopt); T((int)fi->nbOutput==f.nout,P+"nboutput","%u outputs, the function has %d",fi->nbOutput,f.nout);
  for(unsigned i=0;i<fi->nbInput&&i<A.size();i++){ const TA_InputParameterInfo*q=0; int r=TA_GetInputParameterInfo(h,i,&q); T(r==0&&q,P+"input","input %u: rc %d",i,r); if(!q) continue; T((q->type==TA_Input_Price)==A[i].price&&(A[i].price||q->type==TA_Input_Real),P+"inputtype","input %u has type %d",i,q->type); if(A[i].price) T(q->flags==A[i].flags,P+"inputflags","price input %u needs components %#x, declared %#x",i,A[i].flags,q->flags); T(q->paramName&&*q->paramName,P+"inputname","input %u has no name",i); }
  for(unsigned i=0;i<fi->nbOptInput&&(int)i<f.nopt;i++){ const TA_OptInputParameterInfo*q=0; int r=TA_GetOptInputParameterInfo(h,i,&q); T(r==0&&q,P+"opt","option %u: rc %d",i,r); if(!q) continue; const OptD&o=f.opt[i]; T(q->paramName&&!strcmp(q->paramName,o.name),P+"optname","option %u is called %s instead of %s",i,q->paramName,o.name); T(q->defaultValue==o.df,P+"optdefault","option %s has default %g instead of %g",o.name,q->defaultValue,o.df); T(q->displayName&&*q->displayName&&q->hint,P+"opttext","option %s has no display name or hint",o.name); T(q->dataSet,P+"optdata","option %s has no data set",o.name);
    if(o.type==0){ T(q->type==TA_OptInput_IntegerRange,P+"opttype","option %s has type %d",o.name,q->type); if(q->type==TA_OptInput_IntegerRange){ auto*g=(const TA_IntegerRange*)q->dataSet; T(g->min==o.mn&&g->max==o.mx,P+"optrange","option %s ranges %d..%d instead of %g..%g",o.name,g->min,g->max,o.mn,o.mx); T(g->min<=q->defaultValue&&q->defaultValue<=g->max,P+"optdefrange","default of %s outside its range",o.name); } }
    else if(o.type==1){ T(q->type==TA_OptInput_RealRange,P+"opttype","option %s has type %d",o.name,q->type); if(q->type==TA_OptInput_RealRange){ auto*g=(const TA_RealRange*)q->dataSet; T(g->min==o.mn&&g->max==o.mx,P+"optrange","option %s ranges %g..%g instead of %g..%g",o.name,g->min,g->max,o.mn,o.mx); } }
    else { T(q->type==TA_OptInput_IntegerList,P+"opttype","option %s has type %d",o.name,q->type); if(q->type==TA_OptInput_IntegerList){ auto*g=(const TA_IntegerList*)q->dataSet; static const char*MT[]={"SMA","EMA","WMA","DEMA","TEMA","TRIMA","KAMA","MAMA","T3","WLMA"}; T(g->nbElement==10,P+"optlist","option %s lists %u choices",o.name,g->nbElement); for(unsigned k=0;k<g->nbElement&&k<10;k++) T(g->data[k].value==(int)k&&!strcmp(g->data[k].string,MT[k]),P+"optlist","choice %u of %s is %d '%s'",k,o.name,g->data[k].value,g->data[k].string); } }
    // the declared bounds are the bounds of the real function
    double v[8]; for(int k=0;k<f.nopt;k++) v[k]=f.opt[k].df; if(q->type==TA_OptInput_IntegerRange){ auto*g=(const TA_IntegerRange*)q->dataSet; for(int s=0;s<4;s++){ v[i]= s==0?g->min:s==1?g->max:s==2?g->min-1.0:g->max+1.0; T((f.lookback(v)>=0)==(s<2),P+"optbound","option %s: %g is %s although its declared range is %d..%d",o.name,v[i],s<2?"refused":"accepted",g->min,g->max); } } }
  for(unsigned i=0;i<fi->nbOutput&&(int)i<f.nout;i++){ const TA_OutputParameterInfo*q=0; int r=TA_GetOutputParameterInfo(h,i,&q); T(r==0&&q,P+"output","output %u: rc %d",i,r); if(!q) continue; T((q->type==TA_Output_Integer)==(f.out[i].isint!=0),P+"outtype","output %u has type %d",i,q->type); T(q->paramName&&!strcmp(q->paramName,f.out[i].name),P+"outname","output %u is called %s instead of %s",i,q->paramName,f.out[i].name); }
  // out-of-range indexes and nulls
  for(unsigned d:{0u,1u,100u,0xffffff00u}){ const TA_InputParameterInfo*a=(const TA_InputParameterInfo*)&f; const TA_OptInputParameterInfo*b=(const TA_OptInputParameterInfo*)&f; const TA_OutputParameterInfo*c=(const TA_OutputParameterInfo*)&f; T(TA_GetInputParameterInfo(h,A.size()+d,&a)==TA_BAD_PARAM&&!a,P+"inputindex","input index %zu+%u accepted",A.size(),d); T(TA_GetOptInputParameterInfo(h,f.nopt+d,&b)==TA_BAD_PARAM&&!b,P+"optindex","option index %d+%u accepted",f.nopt,d); T(TA_GetOutputParameterInfo(h,f.nout+d,&c)==TA_BAD_PARAM&&!c,P+"outindex","output index %d+%u accepted",f.nout,d); }
  T(TA_GetInputParameterInfo(h,0,0)==TA_BAD_PARAM&&TA_GetOutputParameterInfo(h,0,0)==TA_BAD_PARAM&&TA_GetOptInputParameterInfo(h,0,0)==TA_BAD_PARAM,P+"infonull","NULL destination accepted");
  TA_StateFunc s; TA_BatchStateFunc bs; TA_StateIOFunc io; T(!TA_GetInitNewStateFuncPtr(fi,&s)&&s&&!TA_GetCallFuncStateFuncPtr(fi,&s)&&s&&!TA_GetFreeStateFuncPtr(fi,&s)&&s&&!TA_GetCallFuncBatchStateFuncPtr(fi,&bs)&&bs&&!TA_GetSaveStateFuncPtr(fi,&io)&&io&&!TA_GetLoadStateFuncPtr(fi,&io)&&io,P+"funcptr","a streaming entry point is missing"); T(TA_GetInitNewStateFuncPtr(fi,0)==TA_BAD_PARAM&&TA_GetInitNewStateFuncPtr(0,&s)==TA_INVALID_HANDLE,P+"funcptrnull","null argument not refused");
  // truthfulness of the unstable-period flag, observed
  double o[8]; for(int k=0;k<f.nopt;k++) o[k]=f.opt[k].df; TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0); int l0=f.lookback(o); if(f.flags&F_UNST){ // ADXR and STOCHRSI inherit the period of the ADX and RSI they are built on
    TA_SetUnstablePeriod(is(f,"ADXR")?TA_FUNC_UNST_ADX:is(f,"STOCHRSI")?TA_FUNC_UNST_RSI:(TA_FuncUnstId)f.unst,11); int l1=f.lookback(o); T(l1==l0+11,P+"unstflag","declared to have an unstable period, but lookback goes from %d to %d for a period of 11",l0,l1); } TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0);
  x.cov.states++; x.cov.traces++; x.sample(fmt("TA_%s: %zu inputs, %d options, %d outputs, flags %#x",f.name,A.size(),f.nopt,f.nout,fi->flags)); }
const char*INFO[]={"No error","TA_Initialize was not sucessfully called","A parameter is out of range","Possibly out-of-memory"};
// the version string is put together from its parts
void version(Ctx&x){ std::string v=std::string(TA_GetVersionMajor())+"."+TA_GetVersionMinor()+"."+TA_GetVersionBuild(); if(*TA_GetVersionExtra()) v+=std::string("-")+TA_GetVersionExtra(); v+=std::string(" (")+TA_GetVersionDate()+" "+TA_GetVersionTime()+")"; T(v==TA_GetVersionString(),"version","version string '%s' instead of '%s'",TA_GetVersionString(),v.c_str()); x.cov.traces++; }
void codes(Ctx&x){ struct{int c;const char*n;} C[]={{0,"TA_SUCCESS"},{1,"TA_LIB_NOT_INITIALIZE"},{2,"TA_BAD_PARAM"},{3,"TA_ALLOC_ERR"},{4,"TA_GROUP_NOT_FOUND"},{5,"TA_FUNC_NOT_FOUND"},{6,"TA_INVALID_HANDLE"},{7,"TA_INVALID_PARAM_HOLDER"},{8,"TA_INVALID_PARAM_HOLDER_TYPE"},{9,"TA_INVALID_PARAM_FUNCTION"},{10,"TA_INPUT_NOT_ALL_INITIALIZE"},{11,"TA_OUTPUT_NOT_ALL_INITIALIZE"},{12,"TA_OUT_OF_RANGE_START_INDEX"},{13,"TA_OUT_OF_RANGE_END_INDEX"},{14,"TA_INVALID_LIST_TYPE"},{15,"TA_BAD_OBJECT"},{16,"TA_NOT_SUPPORTED"},{17,"TA_NEED_MORE_DATA"},{18,"TA_IO_FAILED"},{0xffff,"TA_UNKNOWN_ERR"}};
  for(int c=-3;c<=0x1000f;c++){ TA_RetCodeInfo i={0,0}; TA_SetRetCodeInfo((TA_RetCode)c,&i); const char*e= (c>=5000&&c<=5999)?"TA_INTERNAL_ERROR":"TA_UNKNOWN_ERR"; for(auto&k:C) if(k.c==c) e=k.n; T(i.enumStr&&i.infoStr&&*i.infoStr&&!strcmp(i.enumStr,e),"retcode:name","status code %d is described as '%s', expected '%s'",c,i.enumStr?i.enumStr:"(null)",e); if(i.enumStr&&i.infoStr){ const char*w= (c>=5000&&c<=5999)?"Unexpected Internal Error - Contact TA-Lib.org":!strcmp(e,"TA_UNKNOWN_ERR")?"Unknown Error":c<4?INFO[c]:"No Info"; T(!strcmp(i.infoStr,w),"retcode:info","status code %d is explained as '%s', expected '%s'",c,i.infoStr,w); } x.cov.states++; } x.cov.traces++; }
void gen(std::vector<Job>&J,int tier){ J.push_back({"all/groups",[](Ctx&x){groups(x);}}); J.push_back({"all/names",[](Ctx&x){names(x);}}); J.push_back({"all/codes",[](Ctx&x){codes(x);}}); J.push_back({"all/version",[](Ctx&x){version(x);}}); for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; J.push_back({fmt("%s/info",f.name),[&f](Ctx&x){func(f,x);}}); } }
Reg r({"C17","model_checking","states = groups, functions, wrong names and status codes visited (the whole finite introspection space); transitions = facts compared with the frozen call table or observed on the real function; traces = complete walks",gen,
 {"the frozen description harness/table.inc was generated once from the pinned ta_func.h and ta_func_api.xml; TA_FunctionDescriptionXML's text is not compared"},
 "complete: all groups, all 165 functions with all parameters, every one-edit neighbour of every name, all status codes -3..0x1000f, out-of-range indexes"});
}
