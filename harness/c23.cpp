// C23: the shipped API description (ta_func_api.xml, the text TA_FunctionDescriptionXML returns, and ta_func_list.txt)
// walked completely, element by element, against the introspection tables, the frozen call table and the real functions.
#include "abs.h"
#include <memory>
#ifndef API_DIR
#define API_DIR "/repo/ta-lib-rt"
#endif
namespace {
struct N { std::string tag,text; std::vector<std::unique_ptr<N>> ch; N*up=0;
  const N*get(const char*t)const{ for(auto&c:ch) if(c->tag==t) return c.get(); return 0; }
  std::string s(const char*t)const{ const N*n=get(t); return n?n->text:"<absent>"; }
  std::vector<const N*> all(const char*list,const char*t)const{ std::vector<const N*> v; if(const N*l=get(list)) for(auto&c:l->ch) if(c->tag==t) v.push_back(c.get()); return v; } };
std::string unesc(std::string s){ const char*E[][2]={{"&lt;","<"},{"&gt;",">"},{"&quot;","\""},{"&apos;","'"},{"&amp;","&"}}; for(auto&e:E) for(size_t p;(p=s.find(e[0]))!=std::string::npos;) s.replace(p,strlen(e[0]),e[1]); return s; }
bool parse(const std::string&x,N&root,std::string&err){ N*cur=&root; size_t i=0,n=x.size(); while(i<n){ if(x[i]!='<'){ size_t e=x.find('<',i); if(e==std::string::npos) e=n; std::string t=x.substr(i,e-i); size_t a=t.find_first_not_of(" \t\r\n"),b=t.find_last_not_of(" \t\r\n"); if(a!=std::string::npos) cur->text+=unesc(t.substr(a,b-a+1)); i=e; continue; }
    if(!x.compare(i,4,"<!--")){ size_t e=x.find("-->",i); if(e==std::string::npos){ err="open comment"; return false; } i=e+3; continue; }
    size_t e=x.find('>',i); if(e==std::string::npos){ err="open tag"; return false; } std::string t=x.substr(i+1,e-i-1); i=e+1; if(t[0]=='?') continue;
    if(t[0]=='/'){ if(cur==&root||cur->tag!=t.substr(1)){ err="</"+t.substr(1)+"> closes <"+cur->tag+">"; return false; } cur=cur->up; continue; }
    bool self=t.back()=='/'; if(self) t.pop_back(); t=t.substr(0,t.find_first_of(" \t\r\n")); cur->ch.emplace_back(new N); N*c=cur->ch.back().get(); c->tag=t; c->up=cur; if(!self) cur=c; }
  if(cur!=&root){ err="<"+cur->tag+"> is never closed"; return false; } return true; }
std::string trim(std::string s){ while(s.size()&&s.back()==' ') s.pop_back(); return s; }
bool slurp(const char*f,std::string&s){ std::string p=std::string(API_DIR)+"/"+f; FILE*g=fopen(p.c_str(),"rb"); if(!g) return false; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,g))) s.append(b,k); fclose(g); return true; }
struct Doc { N root; const N*top=0; std::string err; std::map<std::string,const N*> by; std::vector<std::string> order; };
Doc&doc(){ static Doc*d=0; if(!d){ d=new Doc; std::string s; if(!slurp("ta_func_api.xml",s)) d->err="ta_func_api.xml cannot be read"; else if(parse(s,d->root,d->err)){ d->top=d->root.get("FinancialFunctionGroups"); if(!d->top) d->err="no FinancialFunctionGroups element"; else for(auto&c:d->top->ch) if(c->tag=="FinancialFunctionGroup"){ std::string a=c->s("Abbreviation"); d->order.push_back(a); d->by[a]=c.get(); } } } return *d; }
#define T(c,k,...) do{ x.cov.transitions++; if(!(c)) x.viol(k,fmt(__VA_ARGS__)); }while(0)
void whole(Ctx&x){ Doc&d=doc(); T(d.top,"xml:form","ta_func_api.xml is not usable: %s",d.err.c_str()); if(!d.top) return;
  T(d.order.size()==(size_t)NF&&d.by.size()==(size_t)NF,"xml:count","%zu functions described, %zu distinct, the library has %d",d.order.size(),d.by.size(),NF);
  for(int i=0;i<NF;i++) T(d.by.count(FTAB[i].name),fmt("%s:missing",FTAB[i].name),"TA_%s is not described",FTAB[i].name);
  for(auto&c:d.top->ch){ x.cov.states++; T(c->tag=="FinancialFunctionGroup","xml:element","unexpected element <%s>",c->tag.c_str()); T([&]{ for(int i=0;i<NF;i++) if(c->s("Abbreviation")==FTAB[i].name) return true; return false; }(),"xml:unknown","describes '%s', which does not exist",c->s("Abbreviation").c_str()); }
  std::string s; T(slurp("ta_func_list.txt",s),"list:read","ta_func_list.txt cannot be read"); std::map<std::string,std::string> L; size_t p=0; while(p<s.size()){ size_t e=s.find('\n',p); if(e==std::string::npos) e=s.size(); std::string l=s.substr(p,e-p); p=e+1; while(l.size()&&strchr(" \r\t",l.back())) l.pop_back(); if(l.empty()) continue; size_t a=l.find(' '); std::string n=l.substr(0,a),h=a==std::string::npos?"":l.substr(l.find_first_not_of(' ',a)); T(!L.count(n),"list:twice","%s is listed twice",n.c_str()); L[n]=h; }
  T(L.size()==(size_t)NF,"list:count","ta_func_list.txt lists %zu functions, the library has %d",L.size(),NF);
  for(int i=0;i<NF;i++){ const TA_FuncHandle*h=0; const TA_FuncInfo*fi=0; TA_GetFuncHandle(FTAB[i].name,&h); TA_GetFuncInfo(h,&fi); if(fi) T(L.count(FTAB[i].name)&&L[FTAB[i].name]==trim(fi->hint),fmt("%s:list",FTAB[i].name),"ta_func_list.txt says '%s', introspection '%s'",L[FTAB[i].name].c_str(),fi->hint); }
  x.cov.traces++; x.sample("the whole document: well formed, every function once, nothing else; ta_func_list.txt against the hints"); }
const char*INN[]={"inOpen","inHigh","inLow","inClose","inVolume","inOpenInterest"};
std::set<std::string> flags(const N&n){ std::set<std::string> s; for(auto*f:n.all("Flags","Flag")) s.insert(f->text); return s; }
std::string join(const std::set<std::string>&s){ std::string r; for(auto&k:s) r+=(r.size()?", ":"")+k; return r; }
void opts(const FD&f,const N&fn,const TA_FuncHandle*h,Ctx&x,const std::string&P,const char*kind){ auto O=fn.all("OptionalInputArguments","OptionalInputArgument"); T((int)O.size()==f.nopt,P+"nopt","%s: %zu options described, the function has %d",kind,O.size(),f.nopt);
  for(size_t i=0;i<O.size()&&(int)i<f.nopt;i++){ const OptD&o=f.opt[i]; const N&n=*O[i]; const TA_OptInputParameterInfo*q=0; TA_GetOptInputParameterInfo(h,i,&q); x.cov.states++; if(!q){ x.viol(P+"opt",fmt("option %zu has no description",i)); continue; }
    T(n.s("Name")==q->displayName,P+"optname","%s option %zu is called '%s', introspection says '%s'",kind,i,n.s("Name").c_str(),q->displayName); T(n.s("ShortDescription")==trim(q->hint),P+"opthint","%s option %zu: '%s', introspection says '%s'",kind,i,n.s("ShortDescription").c_str(),q->hint);
    const char*ty[]={"Integer","Double","MA Type"}; T(n.s("Type")==ty[o.type],P+"opttype","%s option %zu has type %s",kind,i,n.s("Type").c_str()); double df=atof(n.s("DefaultValue").c_str()); T(fabs(df-o.df)<=1e-6*std::max(1e-3,fabs(o.df)),P+"optdefault","%s option %zu defaults to %s, the function uses %g",kind,i,n.s("DefaultValue").c_str(),o.df);
    const N*r=n.get("Range"); if(o.type==2){ T(!r,P+"optrange","average type with a range"); continue; } if(!r){ x.viol(P+"optrange",fmt("%s option %zu has no range",kind,i)); continue; } double a=atof(r->s("Minimum").c_str()),b=atof(r->s("Maximum").c_str()); auto c=[](double u,double v){ return fabs(u-v)<=1e-6*std::max(1e-3,fabs(v)); };
    T(c(a,o.mn)&&c(b,o.mx),P+"optrange","%s option %zu ranges %s..%s, the function accepts %g..%g",kind,i,r->s("Minimum").c_str(),r->s("Maximum").c_str(),o.mn,o.mx);
    // the described bounds and default on the real function
    double v[8]; for(int k=0;k<f.nopt;k++) v[k]=f.opt[k].df; if(o.type==0){ v[i]=a; T(f.lookback(v)>=0,P+"bound","described minimum %g of option %zu is refused",a,i); v[i]=b; T(f.lookback(v)>=0,P+"bound","described maximum %g of option %zu is refused",b,i); v[i]=a-1; T(f.lookback(v)<0,P+"bound","%g is accepted, below the described minimum of option %zu",a-1,i); v[i]=b+1; T(f.lookback(v)<0,P+"bound","%g is accepted, above the described maximum of option %zu",b+1,i); v[i]=INT_MIN; int l0=f.lookback(v); v[i]=df; T(f.lookback(v)==l0,P+"default","option %zu: the described default gives lookback %d, the function's %d",i,f.lookback(v),l0); } } }
void one(const FD&f,Ctx&x){ Doc&d=doc(); std::string P=std::string(f.name)+":"; auto it=d.by.find(f.name); const TA_FuncHandle*h=0; const TA_FuncInfo*fi=0; TA_GetFuncHandle(f.name,&h); if(!h||TA_GetFuncInfo(h,&fi)||!fi||it==d.by.end()){ x.viol(P+"missing",fmt("TA_%s: no description",f.name)); return; } const N&g=*it->second; if(x.trace) x.step(f.name);
  T(g.s("CamelCaseName")==f.camel,P+"camel","camel-case name '%s'",g.s("CamelCaseName").c_str()); T(g.s("ShortDescription")==trim(fi->hint),P+"hint","'%s', introspection says '%s'",g.s("ShortDescription").c_str(),fi->hint); T(g.s("GroupId")==f.group,P+"group","group '%s', the function is in '%s'",g.s("GroupId").c_str(),f.group);
  std::set<std::string> F; if(f.flags&F_OVERLAP) F.insert("Overlap"); if(f.flags&F_UNST) F.insert("Unstable Period"); if(f.flags&F_CANDLE) F.insert("Candlestick"); if(f.flags&F_VOLUME) F.insert("Volume"); auto G=flags(g); G.erase("Volume"); F.erase("Volume"); T(G==F,P+"flags","flags '%s', the function has '%s'",join(G).c_str(),join(F).c_str());
  // the eight entry points with their arguments
  const char*K[][3]={{"Lookback","_Lookback","o"},{"Regular","","xrow"},{"StateInit","_StateInit","o"},{"State","_State","ru"},{"BatchState","_BatchState","xrw"},{"StateFree","_StateFree",""},{"StateLoad","_StateLoad",""},{"StateSave","_StateSave",""}}; auto fs=g.all("Functions","Function"); T(fs.size()==8,P+"entries","%zu entry points described",fs.size());
  for(auto&k:K){ const N*fn=0; for(auto*q:fs) if(q->s("Type")==k[0]){ T(!fn,P+"entry","%s described twice",k[0]); fn=q; } if(!fn){ x.viol(P+"entry",fmt("no %s entry point",k[0])); continue; } x.cov.states++; std::string nm=std::string("TA_")+f.name+k[1]; T(fn->s("Name")==nm,P+"entryname","%s is called %s",k[0],fn->s("Name").c_str()); T(fn->s("ReturnValue")==(k[0]==std::string("Lookback")?"Integer":"TA_Result"),P+"entryret","%s returns %s",k[0],fn->s("ReturnValue").c_str());
    std::string w=k[2]; auto has=[&](char c){ return w.find(c)!=std::string::npos; }; bool single=has('u');
    if(has('o')) opts(f,*fn,h,x,P,k[0]);
    auto R=fn->all("RequiredInputArguments","RequiredInputArgument"); size_t q=0; if(has('x')){ T(R.size()>=2&&R[0]->s("Name")=="startIdx"&&R[1]->s("Name")=="endIdx",P+"range","%s does not begin with startIdx, endIdx",k[0]); q=2; }
    if(has('r')){ T((int)(R.size()-q)==f.nin,P+"nin","%s: %zu inputs described, the function has %d",k[0],R.size()-q,f.nin); auto A=ainputs(f); int ai=0; for(int i=0;i<f.nin&&q+i<R.size();i++){ std::string n=R[q+i]->s("Name"),ty=R[q+i]->s("Type"); std::string want; if(f.ik[i]<6) want=INN[f.ik[i]]+2; else { for(size_t z=0;z<A.size();z++) for(int kk:A[z].k) if(kk==i) ai=z; const TA_InputParameterInfo*ip=0; TA_GetInputParameterInfo(h,ai,&ip); want=ip?ip->paramName:"?"; } T(n==want,P+"input","%s input %d is called %s instead of %s",k[0],i,n.c_str(),want.c_str()); T(ty==(single||f.ik[i]<6?"Double":"Double Array"),P+"inputtype","%s input %d is a %s",k[0],i,ty.c_str()); } } else T(R.empty(),P+"nin","%s has required inputs",k[0]);
    auto O=fn->all("OutputArguments","OutputArgument"); q=0; if(has('w')){ T(O.size()>=2&&O[0]->s("Name")=="outBegIdx"&&O[1]->s("Name")=="outNBElement",P+"outrange","%s does not return outBegIdx, outNBElement",k[0]); q=2; }
    if(has('r')){ T((int)(O.size()-q)==f.nout,P+"nout","%s: %zu outputs described, the function has %d",k[0],O.size()-q,f.nout); for(int i=0;i<f.nout&&q+i<O.size();i++){ const N&n=*O[q+i]; const TA_OutputParameterInfo*op=0; TA_GetOutputParameterInfo(h,i,&op); T(n.s("Name")==f.out[i].name&&op&&n.s("Name")==op->paramName,P+"output","%s output %d is called %s instead of %s",k[0],i,n.s("Name").c_str(),f.out[i].name); T(n.s("Type")==std::string(f.out[i].isint?"Integer":"Double")+(single?"":" Array"),P+"outtype","%s output %d is a %s",k[0],i,n.s("Type").c_str());
        std::set<std::string> w; if(op){ if(op->flags&TA_OUT_LINE) w.insert("Line"); if(op->flags&TA_OUT_DASH_LINE) w.insert("Dashed Line"); if(op->flags&TA_OUT_HISTO) w.insert("Histogram"); if(op->flags&TA_OUT_UPPER_LIMIT) w.insert("Upper Limit"); if(op->flags&TA_OUT_LOWER_LIMIT) w.insert("Lower Limit"); } auto z=flags(n); T(z==w,P+"outflags","%s output %d has display flags '%s', introspection says '%s'",k[0],i,join(z).c_str(),join(w).c_str()); } } else T(O.empty(),P+"nout","%s has outputs",k[0]); }
  x.cov.traces++; x.sample(fmt("TA_%s: eight entry points, %d inputs, %d options, %d outputs",f.name,f.nin,f.nopt,f.nout)); }
void gen(std::vector<Job>&J,int tier){ J.push_back({"all/document",[](Ctx&x){whole(x);}}); for(int i=0;i<NF;i++){ const FD&f=FTAB[i]; J.push_back({fmt("%s/xml",f.name),[&f](Ctx&x){one(f,x);}}); } }
Reg r({"C23","model_checking","states = elements of the description visited (functions, entry points, options); transitions = facts compared with the introspection tables, the frozen call table or the real function; traces = complete walks",gen,
 {"the text is read from ta_func_api.xml, from which ta_func_api.c (TA_FunctionDescriptionXML) is generated at build time; the generator itself is not checked","suggested ranges of options, the listed internal state fields and the option lists of StateLoad/StateSave are not compared"},
 "complete: every element of ta_func_api.xml and ta_func_list.txt for all 165 functions and their eight entry points"});
}
