#include "ir.hpp"
#include <fstream>
Module M;
namespace {
struct Tok { char k; std::string_view s; }; // k: w word, l local, g global, n number, s string, c cstring, p punct, m metadata
typedef std::vector<Tok> Toks;
bool idch(char c) { return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-'; }
void lex(std::string_view s, Toks& o) {
  size_t i=0,n=s.size();
  while (i<n) { char c=s[i];
    if (c==' '||c=='\t'||c=='\n') { i++; continue; }
    if (c==';') break;
    if (c=='%'||c=='@') { size_t j=i+1; if (j<n&&s[j]=='"') { j++; while (s[j]!='"') j++; j++; o.push_back({c=='%'?'l':'g', s.substr(i+2,j-i-3)}); } else { while (j<n&&idch(s[j])) j++; o.push_back({c=='%'?'l':'g', s.substr(i+1,j-i-1)}); } i=j; continue; }
    if (c=='!') { size_t j=i+1; while (j<n&&idch(s[j])) j++; o.push_back({'m', s.substr(i,j-i)}); i=j; continue; }
    if (c=='#') { size_t j=i+1; while (j<n&&idch(s[j])) j++; o.push_back({'a', s.substr(i,j-i)}); i=j; continue; }
    if (c=='"') { size_t j=i+1; while (s[j]!='"') j++; o.push_back({'s', s.substr(i+1,j-i-1)}); i=j+1; continue; }
    if (c=='c'&&i+1<n&&s[i+1]=='"') { size_t j=i+2; while (s[j]!='"') j++; o.push_back({'c', s.substr(i+2,j-i-2)}); i=j+1; continue; }
    if (isdigit((unsigned char)c)||(c=='-'&&i+1<n&&isdigit((unsigned char)s[i+1]))) { size_t j=i+1; while (j<n&&(idch(s[j])||s[j]=='+')) j++; o.push_back({'n', s.substr(i,j-i)}); i=j; continue; }
    if (isalpha((unsigned char)c)||c=='_'||c=='$') { size_t j=i+1; while (j<n&&idch(s[j])) j++; o.push_back({'w', s.substr(i,j-i)}); i=j; continue; }
    o.push_back({'p', s.substr(i,1)}); i++;
  }
}
std::unordered_map<std::string,Type*> tcache;
Type* tget(const std::string& key, std::function<void(Type&)> mk) { auto it=tcache.find(key); if (it!=tcache.end()) return it->second; Type* t=new Type; t->str=key; mk(*t); tcache[key]=t; return t; }
Type* tint(u32 w) { return tget("i"+std::to_string(w), [&](Type& t){ t.k=Type::Int; t.w=w; u64 b=(w+7)/8; t.align=1; while (t.align<b&&t.align<16) t.align*=2; t.size=(b+t.align-1)/t.align*t.align; if (b>16) t.size=(b+15)/16*16; t.slots=1; t.leafW={w}; t.leafOff={0}; }); }
Type* tptr() { return tget("ptr", [](Type& t){ t.k=Type::Ptr; t.w=64; t.size=t.align=8; t.slots=1; t.leafW={64}; t.leafOff={0}; }); }
Type* tvoid() { return tget("void", [](Type&){}); }
void fill(Type& t) {
  if (t.k==Type::Arr||t.k==Type::Vec) { Type* e=t.f[0]; t.align=t.k==Type::Vec? 16: e->align; u64 es=e->size; if (t.k==Type::Vec) { if (e->w%8) { t.size=(t.n*e->w+7)/8; } else { es=e->w/8; t.size=es*t.n; } u64 a=1; while(a<t.size) a*=2; t.size=a; t.align=a; } else t.size=es*t.n;
    if (e->slots*t.n<=256) { t.slots=e->slots*t.n; for (u64 i=0;i<t.n;i++) for (u32 j=0;j<e->slots;j++) { t.leafW.push_back(e->leafW[j]); t.leafOff.push_back(i*es+e->leafOff[j]); } } else t.slots=1000000; }
  else { u64 o=0; t.align=1; t.slots=0; for (Type* e: t.f) { if (!t.packed) { o=(o+e->align-1)/e->align*e->align; if (e->align>t.align) t.align=e->align; } t.offs.push_back(o);
      if (t.slots+e->slots<=256) { for (u32 j=0;j<e->slots;j++) { t.leafW.push_back(e->leafW[j]); t.leafOff.push_back(o+e->leafOff[j]); } t.slots+=e->slots; } else t.slots=1000000;
      o+=e->size; } t.size=(o+t.align-1)/t.align*t.align; }
}
struct P { const Toks& t; size_t i=0; 
  P(const Toks& t_, size_t i_=0):t(t_),i(i_){}
  bool end() const { return i>=t.size(); }
  bool isP(char c) const { return i<t.size()&&t[i].k=='p'&&t[i].s[0]==c; }
  bool isW(const char* w) const { return i<t.size()&&t[i].k=='w'&&t[i].s==w; }
  bool accP(char c) { if (isP(c)) { i++; return true; } return false; }
  bool accW(const char* w) { if (isW(w)) { i++; return true; } return false; }
  void expP(char c) { if (!accP(c)) { std::string ctx; for (size_t j=i>5?i-5:0;j<t.size()&&j<i+8;j++) ctx+=std::string(t[j].s)+" "; die(std::string("IR parse: expected ")+c+" near: "+ctx); } }
  void skipParens() { int d=0; do { if (isP('(')) d++; else if (isP(')')) d--; i++; } while (d>0&&i<t.size()); }
  bool typeStart() const { if (end()) return false; const Tok& k=t[i]; if (k.k=='p') return k.s=="{"||k.s=="["||k.s=="<"; if (k.k=='l') return M.types.count(std::string(k.s)); if (k.k!='w') return false; 
    if (k.s=="ptr"||k.s=="void"||k.s=="float"||k.s=="double"||k.s=="half"||k.s=="metadata"||k.s=="label"||k.s=="token"||k.s=="fp128"||k.s=="bfloat"||k.s=="x86_fp80") return true;
    if (k.s.size()>1&&k.s[0]=='i') { for (size_t j=1;j<k.s.size();j++) if (!isdigit((unsigned char)k.s[j])) return false; return true; } return false; }
  Type* type() {
    Type* r=nullptr; const Tok k=t[i];
    if (k.k=='l') { i++; r=M.types.at(std::string(k.s)); }
    else if (k.k=='w') { i++; if (k.s=="ptr") { r=tptr(); if (isW("addrspace")) { i++; skipParens(); } } else if (k.s=="void") r=tvoid(); else if (k.s=="double") r=tint(64); else if (k.s=="float") r=tint(32); else if (k.s=="half"||k.s=="bfloat") r=tint(16); else if (k.s=="fp128") r=tint(128); else if (k.s=="metadata"||k.s=="label"||k.s=="token") r=tget(std::string(k.s),[](Type& t){t.k=Type::Other;}); 
      else r=tint(atoi(std::string(k.s.substr(1)).c_str())); }
    else if (k.s=="[") { i++; u64 n=strtoull(std::string(t[i].s).c_str(),0,10); i++; if (!accW("x")) die("array type"); Type* e=type(); expP(']'); r=tget("["+std::to_string(n)+" x "+e->str+"]",[&](Type& t){t.k=Type::Arr;t.n=n;t.f={e};fill(t);}); }
    else if (k.s=="<"&&!(i+1<t.size()&&t[i+1].k=='p'&&t[i+1].s=="{")) { i++; u64 n=strtoull(std::string(t[i].s).c_str(),0,10); i++; if (!accW("x")) die("vector type"); Type* e=type(); expP('>'); r=tget("<"+std::to_string(n)+" x "+e->str+">",[&](Type& t){t.k=Type::Vec;t.n=n;t.f={e};fill(t);}); }
    else if (k.s=="{"||k.s=="<") { bool pk=k.s=="<"; i++; if (pk) i++; std::vector<Type*> f; if (!isP('}')) do f.push_back(type()); while (accP(',')); expP('}'); if (pk) expP('>'); std::string key=pk?"<{":"{"; for (Type* x:f) key+=x->str+","; key+=pk?"}>":"}"; r=tget(key,[&](Type& t){t.k=Type::Struct;t.packed=pk;t.f=f;fill(t);}); }
    else die("type? "+std::string(k.s));
    return r; }
  void attrs() { // parameter / return attributes up to the next value or type
    while (!end()) { const Tok& k=t[i]; if (k.k=='s') { i++; if (accP('=')) i++; continue; } if (k.k!='w'||typeStart()) return;
      static const std::set<std::string_view> stop={"true","false","null","undef","poison","zeroinitializer","none","getelementptr","ptrtoint","inttoptr","bitcast","trunc","zext","sext","add","sub","mul","xor","and","or","shl","lshr","ashr","splat","asm","blockaddress","select","icmp","ptrtoaddr","dso_local_equivalent","no_cfi"};
      if (stop.count(k.s)) return; bool al=k.s=="align"||k.s=="cc"; i++; if (isP('(')) skipParens(); else if (al&&!end()&&t[i].k=='n') i++; } }
};
int hexv(char c) { return c<='9'?c-'0':(c|32)-'a'+10; }
std::string cstr(std::string_view s) { std::string o; for (size_t i=0;i<s.size();i++) if (s[i]=='\\') { if (s[i+1]=='\\') { o+='\\'; i++; } else { o+=(char)(hexv(s[i+1])*16+hexv(s[i+2])); i+=2; } } else o+=s[i]; return o; }
Val mkv(u32 w, u128 c) { if (w<=64) return Val{(u64)(c&maskw(w)),nullptr}; return Val{0,mkc(w,c)}; }
u128 vconst(Val v) { return v.e? v.e->c : v.c; }
u128 bigint(std::string_view s) { bool neg=s[0]=='-'; u128 v=0; for (size_t i=neg;i<s.size();i++) v=v*10+(s[i]-'0'); return neg? (u128)0-v : v; }
u64 globalAddr(const std::string& n) { std::string x=n; auto a=M.aliases.find(x); if (a!=M.aliases.end()) x=a->second; auto f=M.fnByName.find(x); if (f!=M.fnByName.end()) return fnAddr(f->second); auto g=M.glByName.find(x); if (g!=M.glByName.end()) return objAddr(M.globals[g->second]->obj); die("unknown global @"+n); }
void constant(P& p, Type* ty, std::vector<Val>& out);
Val constScalar(P& p, Type* ty) { std::vector<Val> v; constant(p,ty,v); if (v.size()!=1) die("scalar constant"); return v[0]; }
i128 sx(Val v, u32 w) { return sextw(vconst(v),w); }
void constant(P& p, Type* ty, std::vector<Val>& out) {
  const Tok k=p.t[p.i];
  if (k.k=='n') { p.i++; if (k.s.size()>2&&k.s[0]=='0'&&k.s[1]=='x') { out.push_back(mkv(ty->w,strtoull(std::string(k.s.substr(2)).c_str(),0,16))); return; } if (k.s.find('.')!=k.s.npos) { double d=atof(std::string(k.s).c_str()); u64 b; if (ty->w==64) memcpy(&b,&d,8); else { float f=d; u32 q; memcpy(&q,&f,4); b=q; } out.push_back(mkv(ty->w,b)); return; } out.push_back(mkv(ty->w,bigint(k.s))); return; }
  if (k.k=='g') { p.i++; out.push_back(Val{globalAddr(std::string(k.s)),nullptr}); return; }
  if (k.k=='c') { p.i++; std::string s=cstr(k.s); for (char c: s) out.push_back(Val{(u8)c,nullptr}); return; }
  if (k.k=='p') {
    if (k.s=="<"||k.s=="{"||k.s=="[") { char close=k.s=="["?']':k.s=="{"?'}':'>'; p.i++; bool pk=false; if (k.s=="<"&&p.isP('{')) { p.i++; pk=true; close='}'; } if (!p.isP(close)) do { Type* et=p.type(); p.attrs(); constant(p,et,out); } while (p.accP(',')); p.expP(close); if (pk) p.expP('>'); return; }
    die("constant punct "+std::string(k.s)); }
  if (k.k!='w') die("constant? "+std::string(k.s));
  std::string w(k.s); p.i++;
  if (w=="true") { out.push_back(mkv(1,1)); return; } if (w=="false") { out.push_back(mkv(1,0)); return; }
  if (w=="null"||w=="undef"||w=="poison"||w=="zeroinitializer"||w=="none") { if (ty->slots>=1000000) die("huge aggregate constant"); for (u32 i=0;i<ty->slots;i++) out.push_back(mkv(ty->leafW[i],0)); return; }
  if (w=="splat") { p.expP('('); Type* et=p.type(); Val v=constScalar(p,et); p.expP(')'); for (u64 i=0;i<ty->n;i++) out.push_back(v); return; }
  if (w=="getelementptr") { while (!p.isP('(')) { p.i++; if (p.isP('(')&&p.t[p.i-1].s=="inrange") p.skipParens(); } p.expP('('); Type* bt=p.type(); p.expP(','); Type* pt=p.type(); Val b=constScalar(p,pt); u64 a=b.c; bool first=true; Type* cur=bt; while (p.accP(',')) { Type* it=p.type(); i128 ix=sx(constScalar(p,it),it->w); if (first) { a+=(u64)ix*bt->size; first=false; } else if (cur->k==Type::Struct) { a+=cur->offs[(u64)ix]; cur=cur->f[(u64)ix]; } else { cur=cur->f[0]; a+=(u64)ix*cur->size; } } p.expP(')'); out.push_back(Val{a,nullptr}); return; }
  if (w=="ptrtoint"||w=="inttoptr"||w=="bitcast"||w=="trunc"||w=="zext"||w=="sext"||w=="ptrtoaddr") { while (!p.isP('(')) p.i++; p.expP('('); Type* st=p.type(); Val v=constScalar(p,st); if (!p.accW("to")) die("const cast"); Type* dt=p.type(); p.expP(')'); u128 c=vconst(v); if (w=="sext") c=(u128)sextw(c,st->w); out.push_back(mkv(dt->w,c)); return; }
  static const std::map<std::string,Op> bo={{"add",ADD},{"sub",SUB},{"mul",MUL},{"xor",XOR},{"and",AND},{"or",OR},{"shl",SHL},{"lshr",LSHR},{"ashr",ASHR}};
  auto it=bo.find(w); if (it!=bo.end()) { while (!p.isP('(')) p.i++; p.expP('('); Type* t1=p.type(); Val a=constScalar(p,t1); p.expP(','); Type* t2=p.type(); Val b=constScalar(p,t2); p.expP(')'); u128 r; evalbin(it->second,t1->w,vconst(a),vconst(b),r); out.push_back(mkv(t1->w,r)); return; }
  die("unsupported constant "+w);
}
} // namespace

void initBytes(u8* base, const std::string& s, Type* ty);
static void initInto(P& p, Type* ty, u8* d) {
  if (p.isW("zeroinitializer")||p.isW("undef")||p.isW("poison")||p.isW("null")) { p.i++; return; }
  if (p.t[p.i].k=='c') { std::string s=cstr(p.t[p.i].s); p.i++; memcpy(d,s.data(),s.size()); return; }
  if (ty->k==Type::Struct) { p.accP('<'); p.expP('{'); for (size_t j=0;j<ty->f.size();j++) { if (j) p.expP(','); Type* et=p.type(); initInto(p,et,d+ty->offs[j]); } p.expP('}'); p.accP('>'); return; }
  if (ty->k==Type::Arr) { p.expP('['); for (u64 j=0;j<ty->n;j++) { if (j) p.expP(','); Type* et=p.type(); initInto(p,et,d+j*et->size); } p.expP(']'); return; }
  if (ty->k==Type::Vec) { p.expP('<'); for (u64 j=0;j<ty->n;j++) { if (j) p.expP(','); Type* et=p.type(); initInto(p,et,d+j*(et->w/8)); } p.expP('>'); return; }
  Val v=constScalar(p,ty); u128 c=v.e?v.e->c:v.c; memcpy(d,&c,std::min<u64>(16,(ty->w+7)/8));
}
void initBytes(u8* base, const std::string& s, Type* ty) { Toks t; lex(s,t); P p(t); initInto(p,ty,base); }

void Module::load(const std::string& path) {
  { std::ifstream in(path); if (!in) die("cannot read "+path); std::string l; while (std::getline(in,l)) lines.push_back(l); }
  for (auto& l: lines) if (!l.empty()&&l[0]=='%') { Toks t; lex(l,t); if (t.size()>3&&t[2].s=="type") { P p(t,3); if (p.isW("opaque")) continue; types[std::string(t[0].s)]=p.type(); } }
  for (size_t i=0;i<lines.size();i++) { const std::string& l=lines[i]; if (l.empty()) continue;
    if (l[0]=='@') { Toks t; lex(l,t); P p(t,2); bool ext=false,tls=false,cst=false,alias=false;
      while (!p.typeStart()) { if (p.isW("external")||p.isW("extern_weak")) ext=true; if (p.isW("thread_local")) tls=true; if (p.isW("constant")) cst=true; if (p.isW("alias")) alias=true; p.i++; if (p.isP('(')) p.skipParens(); if (p.end()) die("global: "+l); if ((cst||t[p.i-1].s=="global"||alias)&&p.typeStart()) break; }
      if (alias) { p.type(); p.expP(','); p.type(); aliases[std::string(t[0].s)]=std::string(t[p.i].s); continue; }
      Type* ty=p.type(); Global* g=new Global; g->name=std::string(t[0].s); g->ty=ty; g->constant=cst; g->tls=tls; g->external=ext||p.end()||p.isP(',');
      if (!g->external) { size_t off=t[p.i].s.data()-l.data(); if (t[p.i].k=='c') off-=2; else if (t[p.i].k=='g'||t[p.i].k=='l') off-=1; g->init=l.substr(off); }
      glByName[g->name]=globals.size(); globals.push_back(g); }
    else if (l.compare(0,7,"define ")==0||l.compare(0,8,"declare ")==0) { bool def=l[1]=='e'&&l[2]=='f'; Toks t; lex(l,t); P p(t,1); Func* f=new Func; f->decl=!def;
      while (!p.typeStart()) { p.i++; if (p.isP('(')) p.skipParens(); } f->ret=p.type(); if (p.t[p.i].k!='g') { p.attrs(); } if (p.t[p.i].k!='g') die("function header: "+l);
      f->name=std::string(t[p.i].s); p.i++; p.expP('('); u32 anon=0;
      while (!p.isP(')')) { if (p.isP('.')) { while (p.isP('.')) p.i++; break; } Type* ty=p.type(); if (ty->k==Type::Other&&false) {} p.attrs(); std::string nm; if (!p.end()&&t[p.i].k=='l') { nm=std::string(t[p.i].s); p.i++; } else nm=std::to_string(anon); anon++; f->ptys.push_back(ty); f->pnames.push_back(nm); if (!p.accP(',')) break; }
      f->idx=fns.size(); if (def) { f->l0=i+1; size_t j=i+1; while (lines[j]!="}") j++; f->l1=j; i=j; }
      fnByName[f->name]=f->idx; fns.push_back(f); }
  }
}
Type* Module::type(const std::string& s) { Toks t; lex(s,t); P p(t); return p.type(); }

void Module::parseBody(Func* f) {
  f->parsed=true;
  // join continuation lines
  std::vector<std::pair<std::string,u32>> L;
  for (size_t i=f->l0;i<f->l1;i++) { const std::string& l=lines[i]; if (l.empty()) continue;
    if (l.size()>4&&l[0]==' '&&(l.compare(0,4,"    ")==0||l.compare(0,3,"  ]")==0)) { L.back().first+=" "+l; continue; }
    if (l.compare(0,3,"  ]")==0) { L.back().first+=" ]"; continue; }
    L.push_back({l,(u32)i}); }
  std::vector<Toks> TK(L.size()); std::vector<char> isLabel(L.size(),0);
  std::unordered_map<std::string,std::pair<int32_t,Type*>> loc; // name -> slot,type
  std::unordered_map<std::string,u32> blk; std::vector<std::string> blkName; std::vector<u32> blkStartLine;
  auto addLocal=[&](const std::string& n, Type* t){ loc[n]={(int32_t)f->nslots,t}; if (t->slots>=1000000) die("huge first-class value in "+f->name); f->nslots+=t->slots; for (u32 w: t->leafW) f->slotW.push_back(w); f->slotW.resize(f->nslots,64); };
  for (size_t i=0;i<f->ptys.size();i++) { f->pslot.push_back(f->nslots); addLocal(f->pnames[i],f->ptys[i]); }
  u32 anon=f->ptys.size(); (void)anon;
  auto cutMeta=[](Toks& t){ int d=0; for (size_t i=0;i<t.size();i++) { if (t[i].k=='p'&&t[i].s=="(") d++; if (t[i].k=='p'&&t[i].s==")") d--; if (d==0&&t[i].k=='m'&&i>0&&t[i-1].s==",") { t.resize(i-1); return; } } };
  auto skipCallHead=[&](P& p){ static const std::set<std::string_view> cc={"tail","musttail","notail","call","invoke","fastcc","coldcc","ccc","nnan","ninf","nsz","arcp","contract","afn","reassoc","fast","preserve_mostcc","preserve_allcc"}; while (!p.end()&&p.t[p.i].k=='w'&&cc.count(p.t[p.i].s)) p.i++; p.attrs(); };
  auto arith=[](std::string_view s)->int{ static const std::map<std::string_view,int> m={{"add",ADD},{"sub",SUB},{"mul",MUL},{"udiv",UDIV},{"sdiv",SDIV},{"urem",UREM},{"srem",SREM},{"and",AND},{"or",OR},{"xor",XOR},{"shl",SHL},{"lshr",LSHR},{"ashr",ASHR}}; auto it=m.find(s); return it==m.end()?-1:it->second; };
  static const std::set<std::string_view> casts={"zext","sext","trunc","ptrtoint","inttoptr","bitcast","ptrtoaddr","addrspacecast","fptoui","fptosi","uitofp","sitofp","fpext","fptrunc"};
  auto skipFlags=[](P& p){ static const std::set<std::string_view> fl={"nuw","nsw","exact","disjoint","nneg","samesign","inbounds","nusw","volatile","atomic","weak","inrange"}; while (!p.end()&&p.t[p.i].k=='w'&&fl.count(p.t[p.i].s)) { p.i++; if (p.t[p.i-1].s=="inrange"&&p.isP('(')) p.skipParens(); } };
  // pass A: labels and result types
  for (size_t i=0;i<L.size();i++) { const std::string& l=L[i].first;
    if (l[0]!=' ') { size_t e; std::string n; if (l[0]=='"') { e=l.find('"',1); n=l.substr(1,e-1); } else { e=l.find(':'); n=l.substr(0,e); } isLabel[i]=1; blk[n]=blkName.size(); blkName.push_back(n); blkStartLine.push_back(i); continue; }
    lex(l,TK[i]); cutMeta(TK[i]);
    if (blkName.empty()) { // implicit entry label
      std::string n=std::to_string(f->ptys.size()); blk[n]=0; blkName.push_back(n); blkStartLine.push_back(i); }
    Toks& t=TK[i]; if (t.size()<3||t[0].k!='l'||t[1].s!="=") continue;
    P p(t,2); std::string_view op=t[2].s; Type* rt=nullptr; 
    if (op=="load") { p.i++; skipFlags(p); rt=p.type(); }
    else if (op=="alloca"||op=="getelementptr") { rt=tptr(); if (op=="getelementptr") { /* vector geps unsupported */ } }
    else if (op=="call"||op=="tail"||op=="musttail"||op=="notail"||op=="invoke") { skipCallHead(p); rt=p.type(); }
    else if (op=="icmp"||op=="fcmp") { p.i++; while (!p.typeStart()) p.i++; Type* x=p.type(); rt=x->k==Type::Vec? M.type("<"+std::to_string(x->n)+" x i1>"):tint(1); }
    else if (op=="phi"||op=="freeze"||op=="landingpad"||op=="va_arg") { p.i++; rt=p.type(); }
    else if (op=="select") { p.i++; while (!p.typeStart()) p.i++; p.type(); int d=0; while (!(d==0&&p.isP(','))) { if (p.isP('(')||p.isP('<')) d++; if (p.isP(')')||p.isP('>')) d--; p.i++; } p.i++; rt=p.type(); }
    else if (arith(op)>=0||op=="fadd"||op=="fsub"||op=="fmul"||op=="fdiv"||op=="frem"||op=="fneg") { p.i++; while (!p.typeStart()) p.i++; rt=p.type(); }
    else if (casts.count(op)) { size_t j=t.size(); int k=-1; for (size_t q=3;q<j;q++) if (t[q].k=='w'&&t[q].s=="to") k=q; P q(t,k+1); rt=q.type(); }
    else if (op=="extractvalue") { p.i++; Type* x=p.type(); size_t q=p.i; int d=0; while (!(d==0&&t[q].s==","&&t[q].k=='p')) { if (t[q].s=="{"||t[q].s=="(") d++; if (t[q].s=="}"||t[q].s==")") d--; q++; } while (q<t.size()&&t[q].s==",") { u64 ix=strtoull(std::string(t[q+1].s).c_str(),0,10); x= x->k==Type::Struct? x->f[ix]:x->f[0]; q+=2; } rt=x; }
    else if (op=="insertvalue"||op=="insertelement") { p.i++; rt=p.type(); }
    else if (op=="extractelement") { p.i++; rt=p.type()->f[0]; }
    else if (op=="shufflevector") { // <n x T> a, <n x T> b, <m x i32> mask
      p.i++; Type* x=p.type(); size_t q=t.size(); int d=0; size_t comma=0; for (size_t z=p.i;z<q;z++) { if (t[z].k=='p'&&(t[z].s=="<"||t[z].s=="(")) d++; if (t[z].k=='p'&&(t[z].s==">"||t[z].s==")")) d--; if (d==0&&t[z].k=='p'&&t[z].s==",") comma=z; } P z(t,comma+1); Type* mt=z.type(); rt=M.type("<"+std::to_string(mt->n)+" x "+x->f[0]->str+">"); }
    else if (op=="cmpxchg") { p.i++; skipFlags(p); p.type(); p.i++; p.expP(','); Type* x=p.type(); rt=M.type("{ "+x->str+", i1 }"); }
    else if (op=="atomicrmw") { p.i++; skipFlags(p); p.i++; p.type(); int d=0; while (!(d==0&&p.isP(','))) { if (p.isP('(')) d++; if (p.isP(')')) d--; p.i++; } p.i++; rt=p.type(); }
    else die("IR: cannot type: "+l);
    addLocal(std::string(t[0].s),rt);
  }
  std::map<std::pair<u64,E>,int32_t> cpool;
  auto konst=[&](const std::vector<Val>& v)->int32_t { if (v.size()==1) { auto key=std::make_pair(v[0].c,v[0].e); auto it=cpool.find(key); if (it!=cpool.end()) return it->second; int32_t r=~(int32_t)f->consts.size(); f->consts.push_back(v[0]); cpool[key]=r; return r; } int32_t r=~(int32_t)f->consts.size(); for (auto& x: v) f->consts.push_back(x); if (v.empty()) f->consts.push_back(Val{0,nullptr}); return r; };
  // lanes of multi-slot constants are laid out as ~(base+j): operand j is op-j for constants and op+j for slots
  auto operand=[&](P& p, Type* ty)->int32_t { p.attrs(); const Tok& k=p.t[p.i]; if (k.k=='l') { auto it=loc.find(std::string(k.s)); if (it==loc.end()) die("undefined local %"+std::string(k.s)+" in "+f->name); p.i++; return it->second.first; } std::vector<Val> v; constant(p,ty,v); return konst(v); };
  auto emit=[&](IOp op, u32 line)->Ins& { Ins x; memset(&x,0,sizeof x); x.op=op; x.dst=-1; x.line=line; x.lanes=1; f->code.push_back(x); return f->code.back(); };
  // block start indices (phis emit nothing)
  std::vector<u32> blkIns(blkName.size(),0); std::vector<std::pair<size_t,std::pair<u32,u32>>> edgePatch; // edge idx -> (from block,to block)
  std::vector<std::vector<size_t>> blkPhis(blkName.size());
  u32 curB=0; 
  auto mkEdge=[&](std::string_view to)->u32 { u32 b=blk.at(std::string(to)); f->edges.push_back(Edge{}); edgePatch.push_back({f->edges.size()-1,{curB,b}}); return f->edges.size()-1; };
  auto label=[&](P& p)->u32 { if (!p.accW("label")) die("label expected in "+f->name); std::string_view n=p.t[p.i].s; p.i++; return mkEdge(n); };
  bool implicit = !L.empty()&&!isLabel[0];
  for (size_t i=0;i<L.size();i++) {
    if (isLabel[i]) { curB=0; for (u32 b=0;b<blkStartLine.size();b++) if (blkStartLine[b]==i) curB=b; blkIns[curB]=f->code.size(); continue; }
    if (i==0&&implicit) { curB=0; blkIns[0]=0; }
    Toks& t=TK[i]; if (t.empty()) continue; P p(t); int32_t dst=-1; if (t[0].k=='l'&&t.size()>2&&t[1].s=="=") { dst=loc.at(std::string(t[0].s)).first; p.i=2; }
    std::string_view op=p.t[p.i].s; u32 line=L[i].second; int ao;
    if (op=="phi") { blkPhis[curB].push_back(i); continue; }
    if ((ao=arith(op))>=0) { p.i++; skipFlags(p); Type* ty=p.type(); int32_t a=operand(p,ty); p.expP(','); int32_t b=operand(p,ty); Ins& x=emit(I_BIN,line); x.sub=ao; x.w=ty->leafW[0]; x.lanes=ty->slots; x.a=a; x.b=b; x.dst=dst; continue; }
    if (op=="icmp") { p.i++; skipFlags(p); std::string_view cc=t[p.i].s; p.i++; Type* ty=p.type(); int32_t a=operand(p,ty); p.expP(','); int32_t b=operand(p,ty); Ins& x=emit(I_ICMP,line); static const std::map<std::string_view,int> m={{"eq",0},{"ne",1},{"ult",2},{"ule",3},{"ugt",4},{"uge",5},{"slt",6},{"sle",7},{"sgt",8},{"sge",9}}; x.sub=m.at(cc); x.w=ty->leafW[0]; x.lanes=ty->slots; x.a=a; x.b=b; x.dst=dst; continue; }
    if (op=="load") { p.i++; skipFlags(p); Type* ty=p.type(); p.expP(','); Type* pt=p.type(); int32_t a=operand(p,pt); Ins& x=emit(I_LOAD,line); x.ty=ty; x.w=ty->slots?ty->leafW[0]:0; x.lanes=ty->slots; x.a=a; x.dst=dst; continue; }
    if (op=="store") { p.i++; skipFlags(p); Type* ty=p.type(); int32_t v=operand(p,ty); p.expP(','); Type* pt=p.type(); int32_t a=operand(p,pt); Ins& x=emit(I_STORE,line); x.ty=ty; x.w=ty->slots?ty->leafW[0]:0; x.lanes=ty->slots; x.a=a; x.b=v; continue; }
    if (op=="alloca") { p.i++; skipFlags(p); Type* ty=p.type(); int32_t n=konst({Val{1,nullptr}}); u32 nw=64; while (p.accP(',')) { if (p.isW("align")) { p.i+=2; } else { Type* it=p.type(); n=operand(p,it); nw=it->w; } } Ins& x=emit(I_ALLOCA,line); x.imm=ty->size; x.a=n; x.w=nw; x.dst=dst; continue; }
    if (op=="getelementptr") { p.i++; skipFlags(p); Type* bt=p.type(); p.expP(','); Type* pt=p.type(); int32_t b=operand(p,pt); u64 off=0; bool first=true; Type* cur=bt; std::vector<GepIdx> gi;
      while (p.accP(',')) { Type* it=p.type(); int32_t o=operand(p,it); u64 sc; if (first) { sc=bt->size; first=false; } else if (cur->k==Type::Struct) { Val v=f->consts[~o]; off+=cur->offs[v.c]; cur=cur->f[v.c]; continue; } else { cur=cur->f[0]; sc=cur->size; }
        if (o<0) { Val v=f->consts[~o]; off+=(u64)sextw(v.c,it->w)*sc; } else gi.push_back({o,sc,it->w}); }
      Ins& x=emit(I_GEP,line); x.a=b; x.imm=off; x.dst=dst; x.x=gi.size(); x.c=f->geps.size(); f->geps.push_back(gi); continue; }
    if (op=="select") { p.i++; skipFlags(p); Type* ct=p.type(); int32_t c=operand(p,ct); p.expP(','); Type* ty=p.type(); int32_t a=operand(p,ty); p.expP(','); p.type(); int32_t b=operand(p,ty); Ins& x=emit(I_SELECT,line); x.c=c; x.a=a; x.b=b; x.ty=ty; x.lanes=ty->slots; x.x=ct->slots; x.dst=dst; continue; }
    if (op=="br") { p.i++; if (p.isW("label")) { u32 e=label(p); Ins& x=emit(I_BR,line); x.x=e; } else { Type* ct=p.type(); int32_t c=operand(p,ct); p.expP(','); u32 e1=label(p); p.expP(','); u32 e2=label(p); Ins& x=emit(I_CBR,line); x.a=c; x.x=e1; x.imm=e2; } continue; }
    if (op=="switch") { p.i++; Type* ty=p.type(); int32_t v=operand(p,ty); p.expP(','); SwitchInfo si; si.def=label(p); p.expP('['); while (!p.isP(']')) { Type* ct=p.type(); Val cv=constScalar(p,ct); p.expP(','); u32 e=label(p); si.cases.push_back({cv.c,e}); } Ins& x=emit(I_SWITCH,line); x.a=v; x.w=ty->w; x.x=f->sws.size(); f->sws.push_back(si); continue; }
    if (op=="ret") { p.i++; Type* ty=p.type(); int32_t v=0; if (ty->k!=Type::Void) v=operand(p,ty); Ins& x=emit(I_RET,line); x.a=v; x.lanes=ty->slots; continue; }
    if (op=="unreachable") { emit(I_UNREACH,line); continue; }
    if (op=="fence") { continue; }
    if (casts.count(op)) { p.i++; skipFlags(p); Type* st=p.type(); int32_t a=operand(p,st); if (!p.accW("to")) die("cast: "+L[i].first); Type* dt=p.type();
      if (op=="zext"||op=="sext"||op=="trunc") { Ins& x=emit(I_CAST,line); x.cast= op=="zext"?0: op=="sext"?1:2; x.a=a; x.w=dt->leafW[0]; x.x=st->leafW[0]; x.lanes=dt->slots; x.dst=dst; }
      else if (op=="ptrtoint"||op=="inttoptr"||op=="ptrtoaddr") { Ins& x=emit(I_CAST,line); x.w=dt->leafW[0]; x.x=st->leafW[0]; x.cast = x.w>x.x?0:2; x.a=a; x.lanes=dt->slots; x.dst=dst; }
      else if (op=="bitcast") { Ins& x=emit(I_BITCAST,line); x.a=a; x.w=dt->leafW[0]; x.x=st->leafW[0]; x.lanes=dt->slots; x.imm=st->slots; x.dst=dst; }
      else { f->msgs.push_back("floating point conversion"); Ins& x=emit(I_UNSUP,line); x.x=f->msgs.size()-1; }
      continue; }
    if (op=="extractvalue") { p.i++; Type* x0=p.type(); int32_t a=operand(p,x0); u32 off=0; Type* cur=x0; while (p.accP(',')) { u64 ix=strtoull(std::string(t[p.i].s).c_str(),0,10); p.i++; if (cur->k==Type::Struct) { for (u64 j=0;j<ix;j++) off+=cur->f[j]->slots; cur=cur->f[ix]; } else { cur=cur->f[0]; off+=ix*cur->slots; } } Ins& x=emit(I_COPY,line); x.a= a>=0? a+(int)off : a-(int)off; x.lanes=cur->slots; x.dst=dst; continue; }
    if (op=="insertvalue") { p.i++; Type* x0=p.type(); int32_t a=operand(p,x0); p.expP(','); Type* vt=p.type(); int32_t v=operand(p,vt); u32 off=0; Type* cur=x0; while (p.accP(',')) { u64 ix=strtoull(std::string(t[p.i].s).c_str(),0,10); p.i++; if (cur->k==Type::Struct) { for (u64 j=0;j<ix;j++) off+=cur->f[j]->slots; cur=cur->f[ix]; } else { cur=cur->f[0]; off+=ix*cur->slots; } } Ins& x=emit(I_COPY,line); x.a=a; x.lanes=x0->slots; x.dst=dst; Ins& y=emit(I_COPY,line); y.a=v; y.lanes=vt->slots; y.dst=dst+off; continue; }
    if (op=="freeze") { p.i++; Type* ty=p.type(); int32_t a=operand(p,ty); Ins& x=emit(I_COPY,line); x.a=a; x.lanes=ty->slots; x.dst=dst; continue; }
    if (op=="extractelement") { p.i++; Type* ty=p.type(); int32_t a=operand(p,ty); p.expP(','); Type* it=p.type(); int32_t ix=operand(p,it); Ins& x=emit(I_EXTE,line); x.a=a; x.b=ix; x.lanes=ty->slots; x.w=ty->leafW[0]; x.x=it->w; x.dst=dst; continue; }
    if (op=="insertelement") { p.i++; Type* ty=p.type(); int32_t a=operand(p,ty); p.expP(','); Type* vt=p.type(); int32_t v=operand(p,vt); p.expP(','); Type* it=p.type(); int32_t ix=operand(p,it); Ins& x=emit(I_INSE,line); x.a=a; x.b=v; x.c=ix; x.lanes=ty->slots; x.w=ty->leafW[0]; x.x=it->w; x.dst=dst; continue; }
    if (op=="shufflevector") { p.i++; Type* ty=p.type(); int32_t a=operand(p,ty); p.expP(','); p.type(); int32_t b=operand(p,ty); p.expP(','); Type* mt=p.type(); std::vector<Val> mv; constant(p,mt,mv); std::vector<int> m; for (auto& v: mv) m.push_back((int)v.c); Ins& x=emit(I_SHUF,line); x.a=a; x.b=b; x.lanes=m.size(); x.imm=ty->slots; x.x=f->masks.size(); f->masks.push_back(m); x.dst=dst; continue; }
    if (op=="atomicrmw") { p.i++; skipFlags(p); std::string_view o=t[p.i].s; p.i++; Type* pt=p.type(); int32_t a=operand(p,pt); p.expP(','); Type* ty=p.type(); int32_t v=operand(p,ty); Ins& x=emit(I_RMW,line); static const std::map<std::string_view,int> m={{"xchg",0},{"add",1},{"sub",2},{"and",3},{"or",4},{"xor",5},{"umax",6},{"umin",7},{"nand",8},{"max",9},{"min",10}}; x.sub=m.at(o); x.a=a; x.b=v; x.w=ty->w; x.ty=ty; x.dst=dst; continue; }
    if (op=="cmpxchg") { p.i++; skipFlags(p); Type* pt=p.type(); int32_t a=operand(p,pt); p.expP(','); Type* ty=p.type(); int32_t o=operand(p,ty); p.expP(','); p.type(); int32_t n=operand(p,ty); Ins& x=emit(I_CMPX,line); x.a=a; x.b=o; x.c=n; x.w=ty->w; x.ty=ty; x.dst=dst; continue; }
    if (op=="landingpad"||op=="resume"||op=="fcmp"||op[0]=='f'||op=="va_arg"||op=="indirectbr"||op=="callbr") { f->msgs.push_back("instruction "+std::string(op)); Ins& x=emit(I_UNSUP,line); x.x=f->msgs.size()-1; continue; }
    if (op=="call"||op=="tail"||op=="musttail"||op=="notail"||op=="invoke") { bool inv=op=="invoke"; skipCallHead(p); CallInfo ci; ci.ret=p.type(); if (p.isP('(')) p.skipParens();
      const Tok& cal=t[p.i]; bool drop=false;
      if (cal.k=='g') { ci.name=std::string(cal.s); auto al=aliases.find(ci.name); if (al!=aliases.end()) ci.name=al->second; p.i++; auto it=fnByName.find(ci.name); if (it==fnByName.end()) die("call of unknown "+ci.name); ci.fn=it->second; }
      else if (cal.k=='l') { ci.calleeOp=loc.at(std::string(cal.s)).first; p.i++; }
      else if (cal.k=='w'&&cal.s=="asm") { f->msgs.push_back("inline asm"); Ins& x=emit(I_UNSUP,line); x.x=f->msgs.size()-1; continue; }
      else { ci.calleeOp=operand(p,tptr()); }
      if (ci.name.compare(0,5,"llvm.")==0) { const std::string& n=ci.name; auto st=[&](const char* s){ return n.compare(5,strlen(s),s)==0; };
        if (st("experimental.noalias")||st("lifetime")||st("dbg.")||st("assume")||st("prefetch")||st("x86.sse2.pause")||st("donothing")||st("invariant.")||st("pseudoprobe")||st("sideeffect")||st("fake.use")) drop=true;
        else if (st("memcpy")) ci.intr=N_MEMCPY; else if (st("memmove")) ci.intr=N_MEMMOVE; else if (st("memset")) ci.intr=N_MEMSET;
        else if (st("fshl")) ci.intr=N_FSHL; else if (st("fshr")) ci.intr=N_FSHR; else if (st("umax")) ci.intr=N_UMAX; else if (st("umin")) ci.intr=N_UMIN; else if (st("smax")) ci.intr=N_SMAX; else if (st("smin")) ci.intr=N_SMIN;
        else if (st("usub.sat")) ci.intr=N_USUBSAT; else if (st("uadd.sat")) ci.intr=N_UADDSAT; else if (st("ssub.sat")) ci.intr=N_SSUBSAT; else if (st("sadd.sat")) ci.intr=N_SADDSAT;
        else if (st("uadd.with")) ci.intr=N_UADDO; else if (st("usub.with")) ci.intr=N_USUBO; else if (st("umul.with")) ci.intr=N_UMULO; else if (st("sadd.with")) ci.intr=N_SADDO; else if (st("ssub.with")) ci.intr=N_SSUBO; else if (st("smul.with")) ci.intr=N_SMULO;
        else if (st("ctlz")) ci.intr=N_CTLZ; else if (st("cttz")) ci.intr=N_CTTZ; else if (st("ctpop")) ci.intr=N_CTPOP; else if (st("bswap")) ci.intr=N_BSWAP; else if (st("bitreverse")) ci.intr=N_BITREV; else if (st("abs.")) ci.intr=N_ABS; else if (st("ucmp")) ci.intr=N_UCMP; else if (st("scmp")) ci.intr=N_SCMP;
        else if (st("threadlocal.address")||st("launder")||st("strip")||st("expect")||st("ssa.copy")) ci.intr=N_ID; else if (st("trap")||st("debugtrap")||st("ubsantrap")) ci.intr=N_TRAP;
        else if (st("vector.reduce.or")) ci.intr=N_VREDUCE_OR; else if (st("vector.reduce.and")) ci.intr=N_VREDUCE_AND; else if (st("vector.reduce.add")) ci.intr=N_VREDUCE_ADD; else if (st("vector.reduce.xor")) ci.intr=N_VREDUCE_XOR; else if (st("vector.reduce.umax")) ci.intr=N_VREDUCE_UMAX; else if (st("vector.reduce.umin")) ci.intr=N_VREDUCE_UMIN;
        else ci.intr=N_UNSUP; }
      if (drop) continue;
      p.expP('('); while (!p.isP(')')) { Type* ty=p.type(); if (ty->k==Type::Other) { int d=0; while (!(d==0&&(p.isP(',')||p.isP(')')))) { if (p.isP('(')) d++; if (p.isP(')')) d--; p.i++; } p.accP(','); continue; } int32_t o=operand(p,ty); ci.args.push_back(o); ci.argN.push_back(ty->slots); ci.argW.push_back(ty->slots?ty->leafW[0]:0); if (!p.accP(',')) break; }
      p.expP(')');
      if (inv) { while (!p.isW("to")) p.i++; p.i++; ci.normal=label(p); }
      Ins& x=emit(I_CALL,line); x.x=f->calls.size(); x.dst=dst; f->calls.push_back(ci); continue; }
    die("IR: cannot decode: "+L[i].first);
  }
  f->blkStart=blkIns;
  for (auto& ep: edgePatch) { Edge& e=f->edges[ep.first]; u32 from=ep.second.first,to=ep.second.second; e.to=blkIns[to];
    for (size_t li: blkPhis[to]) { Toks& t=TK[li]; P p(t,3); Type* ty=p.type(); int32_t d=loc.at(std::string(t[0].s)).first; bool done=false;
      do { p.expP('['); int32_t v=operand(p,ty); p.expP(','); std::string lb(t[p.i].s); p.i++; p.expP(']'); if (!done&&blk.at(lb)==from) { done=true; for (u32 j=0;j<ty->slots;j++) { int32_t s= v>=0? v+(int)j : v-(int)j; e.mv.push_back({d+(int)j,s}); } } } while (p.accP(','));
      if (!done) die("phi without edge in "+f->name); } }
}
