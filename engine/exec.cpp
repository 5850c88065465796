// lsym: symbolic executor for LLVM IR text. Depth-first, forking, with trail-based undo of memory.
#include "ir.hpp"
#include "solver.hpp"
#include <chrono>
#include <array>
#include <fstream>
#include <signal.h>
void initBytes(u8* base, const std::string& s, Type* ty);

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ---------------------------------------------------------------- memory
struct SymB { E e; u64 idx; };
enum : u8 { K_GLOBAL, K_CONST, K_HEAP, K_STACK };
struct Obj { u8* data; SymB* sym; u64 size; u8 alive; u8 kind; };
static std::vector<Obj> objs;
struct Arena { struct Ch { u8* p; size_t cap; }; std::vector<Ch> ch; size_t cur=0, off=0;
  void* alloc(size_t n) { n=(n+15)&~(size_t)15; while (cur<ch.size()&&off+n>ch[cur].cap) { cur++; off=0; } if (cur>=ch.size()) { size_t c=std::max<size_t>(n,1<<20); ch.push_back({(u8*)malloc(c),c}); cur=ch.size()-1; off=0; } void* r=ch[cur].p+off; off+=n; memset(r,0,n); return r; } };
static Arena arena;
static u32 newObj(u64 size, u8 kind) { if (objs.size()>(1u<<27)) die("too many objects"); Obj o; o.size=size; o.data=(u8*)arena.alloc(size?size:1); o.sym=nullptr; o.alive=1; o.kind=kind; objs.push_back(o); return objs.size()-1; }

struct Dom { u64 b[4]; bool mixed; };
static std::vector<Dom> doms;
static std::unordered_map<E,u128> known;

// ---------------------------------------------------------------- frames
struct Frame { int ref; Func* f; u32 pc; int32_t dst; u8 marker; std::vector<u32> so; Val* regs() { return (Val*)(this+1); } };
static std::vector<std::vector<Frame*>> ffree(4096);
static u32 fcls(u32 n) { return (n+15)/16; }
static Frame* fnew(Func* f) { u32 c=fcls(f->nslots); Frame* r; if (c<ffree.size()&&!ffree[c].empty()) { r=ffree[c].back(); ffree[c].pop_back(); } else { r=(Frame*)malloc(sizeof(Frame)+(size_t)c*16*sizeof(Val)); new (&r->so) std::vector<u32>(); } r->ref=1; r->f=f; r->pc=0; r->dst=-1; r->marker=0; r->so.clear(); return r; }
static void funref(Frame* f) { if (--f->ref==0) { u32 c=fcls(f->f->nslots); if (c<ffree.size()) ffree[c].push_back(f); else { f->so.~vector(); free(f); } } }
static Frame* fclone(Frame* o) { Frame* n=fnew(o->f); n->pc=o->pc; n->dst=o->dst; n->marker=o->marker; n->so=o->so; memcpy(n->regs(),o->regs(),o->f->nslots*sizeof(Val)); return n; }
static std::vector<Frame*> stack_;
static Frame* top; static Val* R; static const Val* C;
static void setTop() { if (stack_.empty()) { top=nullptr; return; } Frame* t=stack_.back(); if (t->ref>1) { Frame* n=fclone(t); funref(t); stack_.back()=n; t=n; } top=t; R=t->regs(); C=t->f->consts.data(); }

// ---------------------------------------------------------------- path condition
static std::vector<E> pc; static ModelPtr model=std::make_shared<Model>();
struct SymIn { std::string name; u32 ord; u32 n; }; static std::vector<SymIn> ins_; static u32 symOrd=0; static std::vector<E> symVars;
struct Obs { std::string tag; Val v; u32 w; }; static std::vector<Obs> obs; static u64 nLost=0, nMerges=0, nMergeFail=0; // nLost: times inputs were dropped from a path
struct Choice { std::vector<Frame*> frames; size_t trail; size_t acur,aoff; u32 nobj; size_t npc; ModelPtr model; E add; size_t nin; u32 ord; size_t nobs; bool lost; };
static std::vector<Choice> choices; static u32 logFloor=0; 
static std::vector<u8> tr;
struct TH { u8 kind; u32 obj; u32 off; u32 len; };
template<class T> static void tpush(const T& v) { size_t n=tr.size(); tr.resize(n+sizeof(T)); memcpy(&tr[n],&v,sizeof(T)); }
static void tpushb(const void* p, size_t l) { size_t n=tr.size(); tr.resize(n+l); memcpy(&tr[n],p,l); }
static void logMem(u32 o, u64 off, u64 len) { Obj& x=objs[o]; if (o>=logFloor) return; tpushb(x.data+off,len); if (x.sym) tpushb(x.sym+off,len*sizeof(SymB)); tpush(TH{(u8)(x.sym?2:1),o,(u32)off,(u32)len}); }
static void undoTo(size_t mark) {
  while (tr.size()>mark) { TH h; memcpy(&h,&tr[tr.size()-sizeof(TH)],sizeof(TH)); size_t e=tr.size()-sizeof(TH);
    switch (h.kind) {
      case 1: e-=h.len; memcpy(objs[h.obj].data+h.off,&tr[e],h.len); if (objs[h.obj].sym) memset(objs[h.obj].sym+h.off,0,h.len*sizeof(SymB)); break;
      case 2: e-=h.len*sizeof(SymB); memcpy(objs[h.obj].sym+h.off,&tr[e],h.len*sizeof(SymB)); e-=h.len; memcpy(objs[h.obj].data+h.off,&tr[e],h.len); break;
      case 3: objs[h.obj].alive=1; break;
      case 4: objs[h.obj].sym=nullptr; break;
      case 5: e-=sizeof(Dom); memcpy(&doms[h.obj],&tr[e],sizeof(Dom)); break;
      case 6: { E k; e-=sizeof(E); memcpy(&k,&tr[e],sizeof(E)); known.erase(k); break; }
      default: die("trail"); }
    tr.resize(e); } }
static void killObj(u32 o) { Obj& x=objs[o]; if (!x.alive) return; x.alive=0; if (o<logFloor) tpush(TH{3,o,0,0}); }

// ---------------------------------------------------------------- reporting
struct Viol { std::string kind, what; std::vector<std::pair<std::string,std::vector<u8>>> in; };
static std::vector<Viol> viols; static std::set<std::string> violKeys; static std::map<std::string,u64> covers; static std::set<std::string> unsup;
static u64 nPaths=0,nForks=0,nInstr=0,nChecks=0,nCheckConst=0,nChecksZ3=0,nCaught=0,nAssumeCut=0; static bool inconclusive=false; static std::string incWhy;
static u64 maxViol=8; static double tStart, tBudget=600; static u64 pathInstr=0, maxPathInstr=40000000ull; static size_t maxDepth=0;
static std::vector<u64> params; static bool stopAll=false;
static void inconc(const std::string& w) { if (!inconclusive) incWhy=w; inconclusive=true; }
static std::string btrace() { std::string s; for (size_t i=stack_.size();i>0&&i+6>stack_.size();i--) { if (!s.empty()) s+=" < "; s+=stack_[i-1]->f->name; } return s; }
static void report(const std::string& kind, const std::string& what, const Model& m) {
  std::string key=kind+"|"+what; if (violKeys.count(key)) return; violKeys.insert(key); Viol v; v.kind=kind; v.what=what; 
  for (auto& s: ins_) { std::vector<u8> b; for (u32 i=0;i<s.n;i++) { u32 vi=(u32)symVars[s.ord+i]->c; b.push_back(vi<m.size()?(u8)m[vi]:0); } v.in.push_back({s.name,b}); }
  viols.push_back(v); fprintf(stderr,"lsym: violation [%s] %s\n",kind.c_str(),what.c_str()); if (getenv("LSYM_BT")) fprintf(stderr,"  at %s\n",btrace().c_str()); if (viols.size()>=maxViol) stopAll=true; }

// ---------------------------------------------------------------- feasibility
static std::vector<int> soleMemo; // 0 unknown, 1 none, 2 many, 3+v sole 8-bit variable v
static int sole(E e) { if (soleMemo.size()<pool.next) soleMemo.resize(pool.next+4096,0); int& r=soleMemo[e->id]; if (r) return r; int s=1; if (e->op==VAR) s= pool.vars[(u32)e->c].w==8 ? 3+(int)e->c : 2; else for (int i=0;i<3;i++) if (e->k[i]) { int t=sole(e->k[i]); if (t==1) continue; if (s==1) s=t; else if (s!=t) s=2; if (s==2) break; } return soleMemo[e->id]=s; }
struct TT { u64 b[4]; };
static std::unordered_map<E,TT> ttab;
static const TT& table(E e, u32 v) { auto it=ttab.find(e); if (it!=ttab.end()) return it->second; TT t; memset(&t,0,sizeof t); static Model m; if (m.size()<=v) m.resize(v+1); for (int x=0;x<256;x++) { m[v]=x; if (evalE(e,m)) t.b[x>>6]|=1ull<<(x&63); } m[v]=0; return ttab[e]=t; }
static void varsOfE(E e, std::vector<u32>& out) { static std::vector<u32> seen; static u32 ep=0; ep++; if (seen.size()<pool.next) seen.resize(pool.next+4096,0); std::vector<E> st{e}; while (!st.empty()) { E x=st.back(); st.pop_back(); if (seen[x->id]==ep) continue; seen[x->id]=ep; if (x->op==VAR) out.push_back((u32)x->c); for (int i=0;i<3;i++) if (x->k[i]) st.push_back(x->k[i]); } }
static Dom& dom(u32 v) { if (doms.size()<=v) { Dom d; memset(&d,0xff,sizeof d); d.mixed=false; doms.resize(v+1,d); } return doms[v]; }
struct VH { size_t operator()(const std::vector<E>& v) const { u64 h=1469598103934665603ull; for (E e: v) { h^=e->id; h*=1099511628211ull; } return h; } };
struct CacheR { Res r; std::vector<std::pair<u32,u128>> m; };
static std::unordered_map<std::vector<E>,CacheR,VH> qcache;
static std::vector<E> varE;
static E memberOf(u32 v) { // the values still allowed for byte variable v
  static std::map<std::pair<u32,std::array<u64,4>>,E> memo; Dom& d=dom(v); std::array<u64,4> k={d.b[0],d.b[1],d.b[2],d.b[3]}; auto it=memo.find({v,k}); if (it!=memo.end()) return it->second;
  E x=varE[v], r=F(); for (int i=0;i<256;) { auto on=[&](int q){ return d.b[q>>6]>>(q&63)&1; }; if (!on(i)) { i++; continue; } int j=i; while (j<255&&on(j+1)) j++; E t= i==j? mkeq(x,mkc(8,i)) : mkand(mkcmp(ULE,mkc(8,i),x),mkcmp(ULE,x,mkc(8,j))); r=mkor(r,t); i=j+1; } return memo[{v,k}]=r; }
static bool overBudget=false;
static Res query(E cond, ModelPtr* out, bool forceZ3=false) { // is PC && cond satisfiable?
  if (isc(cond)) { if (cond->c) { if (out) *out=model; return SAT; } return UNSAT; }
  if (evalE(cond,*model)) { SS.modelHits++; if (out) *out=model; return SAT; }
  int s=sole(cond);
  if (s>=3 && !forceZ3) { u32 v=s-3; Dom& d=dom(v); const TT& t=table(cond,v); bool any=false; int val=0; for (int i=0;i<4&&!any;i++) { u64 x=d.b[i]&t.b[i]; if (x) { any=true; val=i*64+__builtin_ctzll(x); } }
    if (!any) { SS.domainHits++; return UNSAT; }
    if (!d.mixed) { SS.domainHits++; if (out) { auto m=std::make_shared<Model>(*model); if (m->size()<=v) m->resize(v+1,0); (*m)[v]=val; *out=m; } return SAT; } }
  // slice
  std::vector<E> sl; Bloom bl=cond->vars; std::vector<char> in(pc.size(),0); bool ch=true; while (ch) { ch=false; for (size_t i=0;i<pc.size();i++) if (!in[i]&&sole(pc[i])<3&&pc[i]->vars.inter(bl)) { in[i]=1; Bloom o=bl; bl.add(pc[i]->vars); if (memcmp(&o,&bl,sizeof o)) ch=true; } }
  for (size_t i=0;i<pc.size();i++) if (in[i]) sl.push_back(pc[i]);
  { std::vector<u32> vs; std::set<u32> all; varsOfE(cond,vs); for (E e: sl) varsOfE(e,vs); all.insert(vs.begin(),vs.end()); for (u32 v: all) { Dom& d=dom(v); if ((d.b[0]&d.b[1]&d.b[2]&d.b[3])!=~0ull) sl.push_back(memberOf(v)); } }
  sl.push_back(cond); std::vector<E> key=sl; std::sort(key.begin(),key.end(),[](E a,E b){return a->id<b->id;}); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=qcache.find(key); CacheR* cr; if (it!=qcache.end()) { SS.cacheHits++; cr=&it->second; } else { CacheR n; n.r=z3check(key,&n.m); cr=&(qcache[key]=n); }
  if (cr->r==SAT&&out) { auto m=std::make_shared<Model>(*model); for (auto& p: cr->m) { if (m->size()<=p.first) m->resize(p.first+1,0); (*m)[p.first]=p.second; } for (E e: sl) if (!evalE(e,*m)) die("internal: solver model does not satisfy the query"); *out=m; }
  if (cr->r==UNKNOWN) inconc("solver gave no verdict");
  if (now()-tStart>tBudget) overBudget=true; // noticed at the next instruction boundary
  return cr->r; }
static void setKnown(E k, u128 v) { if (isc(k)) return; if (known.emplace(k,v).second && !choices.empty()) { tpush(k); tpush(TH{6,0,0,0}); } }
static void addC(E c) {
  if (isc(c)) { if (!c->c) die("internal: adding false"); return; }
  if (c->op==AND) { addC(c->k[0]); addC(c->k[1]); return; }
  auto it=known.find(c); if (it!=known.end()&&it->second==1) return;
  setKnown(c,1); setKnown(mknot(c),0); if (c->op==EQ&&isc(c->k[1])) setKnown(c->k[0],c->k[1]->c);
  pc.push_back(c); int s=sole(c);
  if (s>=3) { u32 v=s-3; Dom& d=dom(v); const TT& t=table(c,v); if (!choices.empty()) { tpush(d); tpush(TH{5,v,0,0}); } for (int i=0;i<4;i++) d.b[i]&=t.b[i]; }
  else { std::vector<u32> vs; varsOfE(c,vs); for (u32 v: vs) { Dom& d=dom(v); if (!d.mixed) { if (!choices.empty()) { tpush(d); tpush(TH{5,v,0,0}); } dom(v).mixed=true; } } } }
static void pushChoice(E add, ModelPtr m) { Choice c; c.frames=stack_; for (Frame* f: stack_) f->ref++; c.trail=tr.size(); c.acur=arena.cur; c.aoff=arena.off; c.nobj=objs.size(); c.npc=pc.size(); c.model=m; c.add=add; c.nin=ins_.size(); c.ord=symOrd; c.nobs=obs.size(); c.lost=false; choices.push_back(std::move(c)); logFloor=objs.size(); nForks++; if (choices.size()>maxDepth) maxDepth=choices.size(); setTop(); }
// Instructions call decide/concretize before any side effect, because the other side re-executes the instruction.
static bool decide(E c) {
  if (isc(c)) return c->c; auto it=known.find(c); if (it!=known.end()) return it->second!=0;
  bool v=evalE(c,*model)!=0; E cur= v?c:mknot(c), oth= v?mknot(c):c; ModelPtr m2; if (query(oth,&m2)==SAT) pushChoice(oth,m2); addC(cur); return v; }
static u128 concretize(E e) { if (isc(e)) return e->c; auto it=known.find(e); if (it!=known.end()) return it->second; u128 v=evalE(e,*model); E q=mkeq(e,mkc(e->w,v)); ModelPtr m2; if (query(mknot(q),&m2)==SAT) pushChoice(mknot(q),m2); addC(q); setKnown(e,v); return v; }

// ---------------------------------------------------------------- values
static inline Val get(int32_t o) { return o>=0? R[o] : C[~o]; }
static inline int32_t ln(int32_t o, int j) { return o>=0? o+j : o-j; }
static inline E toE(Val v, u32 w) { return v.e? v.e : mkc(w,v.c); }
static inline Val fromE(E e) { if (isc(e)&&e->w<=64) return Val{(u64)e->c,nullptr}; return Val{0,e}; }
static inline u64 m64(u32 w) { return w>=64? ~0ull : ((1ull<<w)-1); }
static inline int64_t sx64(u64 v, u32 w) { return w>=64? (int64_t)v : (int64_t)(v<<(64-w))>>(64-w); }
struct PathEnd {}; // current path is finished
static u64 conc(Val v) { return v.e? (u64)concretize(v.e) : v.c; }
static std::string where() { return top->f->name; }
[[noreturn]] static void violate(const std::string& k, const std::string& w) { report(k,w,*model); throw PathEnd(); }
[[noreturn]] static void unsupported(const std::string& w) { unsup.insert(w); if (getenv("LSYM_BT")) fprintf(stderr,"unsupported %s at %s\n",w.c_str(),btrace().c_str()); inconc("unsupported: "+w); throw PathEnd(); }
static Obj& objAt(u64 a, u64 n, bool wr, u32& id, u64& off, const char* what) {
  id=(u32)(a>>32); off=a&0xffffffffull; if (a>>60||id==0||id>=objs.size()) violate("memory",std::string(what)+" through invalid pointer in "+where());
  Obj& o=objs[id]; if (!o.alive) violate("memory",std::string(what)+(o.kind==K_HEAP?" after free in ":" of dead stack slot in ")+where()); if (off+n>o.size) violate("memory",std::string(what)+" out of bounds in "+where()); if (wr&&o.kind==K_CONST) violate("memory",std::string("write to constant in ")+where()); return o; }
static E loadSymBytes(Obj& o, u64 off, u64 nb) { // nb<=16
  E acc=nullptr; for (u64 i=0;i<nb;) { SymB& s=o.sym[off+i]; E part; if (!s.e) { u64 j=i; u128 v=0; while (j<nb&&!o.sym[off+j].e) { v|=(u128)o.data[off+j]<<(8*(j-i)); j++; } part=mkc(8*(j-i),v); i=j; } else { u64 j=i+1; while (j<nb&&o.sym[off+j].e==s.e&&o.sym[off+j].idx==s.idx+(j-i)) j++; part=mkext(s.e,8*s.idx,8*(j-i)); i=j; } acc= acc? mkcat(part,acc):part; } return acc; }
static Val loadAt(Obj& o, u64 off, u32 w) { u64 nb=(w+7)/8; bool sy=false; if (o.sym) for (u64 i=0;i<nb;i++) if (o.sym[off+i].e) { sy=true; break; }
  if (!sy) { if (w<=64) { u64 v=0; memcpy(&v,o.data+off,nb); return Val{v&m64(w),nullptr}; } u128 v=0; memcpy(&v,o.data+off,nb); return Val{0,mkc(w,v)}; }
  E e=loadSymBytes(o,off,nb); if (e->w!=w) e=mkext(e,0,w); return fromE(e); }
static void ensureSym(u32 id) { Obj& o=objs[id]; if (o.sym) return; o.sym=(SymB*)arena.alloc(o.size*sizeof(SymB)); if (id<logFloor) tpush(TH{4,id,0,0}); }
static void storeAt(u32 id, u64 off, u32 w, Val v) { u64 nb=(w+7)/8; Obj& o=objs[id];
  if (v.e&&isc(v.e)) { logMem(id,off,nb); u128 c=v.e->c; memcpy(o.data+off,&c,nb); if (o.sym) memset(o.sym+off,0,nb*sizeof(SymB)); return; }
  if (!v.e) { logMem(id,off,nb); memcpy(o.data+off,&v.c,nb); if (o.sym) memset(o.sym+off,0,nb*sizeof(SymB)); return; }
  ensureSym(id); logMem(id,off,nb); E e=v.e; if (e->w<8*nb) e=mkzext(e,8*nb); for (u64 i=0;i<nb;i++) { E b=e; u64 ix=i; if (e->op==CONCAT||e->op==ZEXT||e->op==CONST) { b=mkext(e,8*i,8); ix=0; } if (isc(b)) { o.data[off+i]=(u8)b->c; objs[id].sym[off+i]=SymB{nullptr,0}; } else objs[id].sym[off+i]=SymB{b,ix}; } }
static u32 tz(E e) { switch (e->op) { case CONST: return e->c? (u32)( (u64)e->c? __builtin_ctzll((u64)e->c):64 ) : 64; case CONCAT: { u32 l=tz(e->k[1]); return l>=e->k[1]->w? e->k[1]->w+ (tz(e->k[0])>=64?0:tz(e->k[0])) : l; } case ADD: case SUB: case OR: case XOR: return std::min(tz(e->k[0]),tz(e->k[1])); case MUL: return std::min<u32>(63,tz(e->k[0])+tz(e->k[1])); case ZEXT: case SEXT: return tz(e->k[0]); case ITE: return std::min(tz(e->k[1]),tz(e->k[2])); case EXTRACT: { u32 t=tz(e->k[0]); return e->lo==0? t : 0; } default: return 0; } }
static bool constIte(E e, int& b) { if (--b<0) return false; if (isc(e)) return true; return e->op==ITE&&constIte(e->k[1],b)&&constIte(e->k[2],b); }
// Returns true when the address is concrete in `a`; otherwise the in-bounds object/feasible offsets are returned.
struct SymAddr { bool conc; u64 a; u32 id; E off; std::vector<u64> offs; };
static SymAddr resolve(Val p, u64 n, bool wr) {
  SymAddr r; if (!p.e) { r.conc=true; r.a=p.c; return r; } E e=p.e; auto it=known.find(e); if (it!=known.end()) { r.conc=true; r.a=(u64)it->second; return r; }
  int b=64; if (constIte(e,b)) { r.conc=true; r.a=(u64)concretize(e); return r; }
  u64 mv=(u64)evalE(e,*model); u32 id; u64 off; Obj& o=objAt(mv,n,wr,id,off,wr?"write":"read"); u64 base=objAddr(id); E oe=mkbin(SUB,e,mkc(64,base)); if (o.size<n) violate("memory","out of bounds in "+where());
  if (!decide(mkcmp(ULE,oe,mkc(64,o.size-n)))) violate("memory",std::string(wr?"write":"read")+" out of bounds in "+where());
  u64 st=1ull<<std::min<u32>(tz(oe),12); if (o.size/st>1100) { r.conc=true; r.a=(u64)concretize(e); return r; }
  r.conc=false; r.id=id; r.off=oe; int s=sole(oe);
  if (s>=3) { u32 v=s-3; Dom& d=dom(v); std::set<u64> S; Model m=*model; if (m.size()<=v) m.resize(v+1); for (int x=0;x<256;x++) if (d.b[x>>6]>>(x&63)&1) { m[v]=x; u64 k=(u64)evalE(oe,m); if (k+n<=o.size) S.insert(k); } r.offs.assign(S.begin(),S.end()); }
  else for (u64 k=0;k+n<=o.size;k+=st) if (!isc(mkeq(oe,mkc(64,k)),0)) r.offs.push_back(k);
  if (r.offs.size()==1) { r.conc=true; r.a=base+r.offs[0]; } return r; }
static Val loadV(Val p, u32 w) { u64 nb=(w+7)/8; SymAddr s=resolve(p,nb,false); u32 id; u64 off; if (s.conc) { Obj& o=objAt(s.a,nb,false,id,off,"read"); return loadAt(o,off,w); }
  Obj& o=objs[s.id]; E acc=nullptr; for (size_t i=s.offs.size();i-->0;) { E v=toE(loadAt(o,s.offs[i],w),w); acc= acc? mkite(mkeq(s.off,mkc(64,s.offs[i])),v,acc) : v; } return fromE(acc); }
static void storeV(Val p, u32 w, Val v) { u64 nb=(w+7)/8; SymAddr s=resolve(p,nb,true); u32 id; u64 off; if (s.conc) { objAt(s.a,nb,true,id,off,"write"); storeAt(id,off,w,v); return; }
  E ve=toE(v,w); for (u64 k: s.offs) { E old=toE(loadAt(objs[s.id],k,w),w); storeAt(s.id,k,w,fromE(mkite(mkeq(s.off,mkc(64,k)),ve,old))); } }
static void copyMem(u64 d, u64 s, u64 n) { if (!n) return; u32 di,si; u64 dof,sof; objAt(d,n,true,di,dof,"copy"); Obj& so=objAt(s,n,false,si,sof,"copy"); if (so.sym) { bool any=false; for (u64 i=0;i<n;i++) if (so.sym[sof+i].e) { any=true; break; } if (any) ensureSym(di); }
  logMem(di,dof,n); Obj& D=objs[di]; Obj& S=objs[si]; memmove(D.data+dof,S.data+sof,n); if (D.sym) { if (S.sym) memmove(D.sym+dof,S.sym+sof,n*sizeof(SymB)); else memset(D.sym+dof,0,n*sizeof(SymB)); } }
static E byteE(u64 a) { u32 id; u64 off; Obj& o=objAt(a,1,false,id,off,"read"); if (o.sym&&o.sym[off].e) return mkext(o.sym[off].e,8*o.sym[off].idx,8); return mkc(8,o.data[off]); }
static std::string rdstr(u64 p, u64 n) { std::string s; for (u64 i=0;i<n;i++) { E b=byteE(p+i); s+= isc(b)? (char)b->c : '?'; } return s; }

static bool splitShifts=false; // one path per value of a symbolic shift amount
static Val binop(u8 op, u32 w, Val a, Val b) {
  if (splitShifts&&b.e&&w<=64&&(op==SHL||op==LSHR)) b=Val{(u64)concretize(b.e),nullptr};
  if (!a.e&&!b.e) { u64 x=a.c,y=b.c,m=m64(w); switch (op) { case ADD: return {(x+y)&m,0}; case SUB: return {(x-y)&m,0}; case MUL: return {(x*y)&m,0}; case AND: return {x&y,0}; case OR: return {x|y,0}; case XOR: return {x^y,0}; case SHL: return {y>=w?0:(x<<y)&m,0}; case LSHR: return {y>=w?0:x>>y,0};
      case UDIV: if (y) return {x/y,0}; break; case UREM: if (y) return {x%y,0}; break; default: { u128 r; if (evalbin((Op)op,w,x,y,r)) return {(u64)r,0}; } }
    violate("arithmetic","division by zero in "+where()); }
  E B=toE(b,w); if (op==UDIV||op==UREM||op==SDIV||op==SREM) { if (decide(mkeq(B,mkc(w,0)))) violate("arithmetic","division by zero in "+where()); }
  return fromE(mkbin((Op)op,toE(a,w),B)); }
static Val icmp(u8 p, u32 w, Val a, Val b) {
  if (!a.e&&!b.e) { u64 x=a.c,y=b.c; int64_t s=sx64(x,w),t=sx64(y,w); bool r; switch (p) { case 0: r=x==y; break; case 1: r=x!=y; break; case 2: r=x<y; break; case 3: r=x<=y; break; case 4: r=x>y; break; case 5: r=x>=y; break; case 6: r=s<t; break; case 7: r=s<=t; break; case 8: r=s>t; break; default: r=s>=t; } return {r,0}; }
  E x=toE(a,w),y=toE(b,w),r; switch (p) { case 0: r=mkeq(x,y); break; case 1: r=mknot(mkeq(x,y)); break; case 2: r=mkcmp(ULT,x,y); break; case 3: r=mkcmp(ULE,x,y); break; case 4: r=mkcmp(ULT,y,x); break; case 5: r=mkcmp(ULE,y,x); break; case 6: r=mkcmp(SLT,x,y); break; case 7: r=mkcmp(SLE,x,y); break; case 8: r=mkcmp(SLT,y,x); break; default: r=mkcmp(SLE,y,x); } return fromE(r); }
static Val ite(Val c, Val a, Val b, u32 w) { if (!c.e) return c.c? a:b; if (!a.e&&!b.e&&a.c==b.c) return a; return fromE(mkite(c.e,toE(a,w),toE(b,w))); }

// ---------------------------------------------------------------- calls
static void popFrame() { Frame* f=stack_.back(); for (u32 o: f->so) killObj(o); stack_.pop_back(); funref(f); setTop(); }
static void takeEdge(u32 ei) { Edge& e=top->f->edges[ei]; if (e.mv.size()==1) { R[e.mv[0].first]=get(e.mv[0].second); } else if (!e.mv.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& m: e.mv) tmp.push_back(get(m.second)); for (size_t i=0;i<e.mv.size();i++) R[e.mv[i].first]=tmp[i]; } top->pc=e.to; }
static void finishCall(Ins& x, CallInfo& ci) { if (ci.normal>=0) takeEdge(ci.normal); else top->pc++; }
static void enter(Func* f, const Val* args, u32 n, int32_t dst, u8 marker) { if (!f->parsed) M.parseBody(f); if (stack_.size()>3000) violate("overflow","call depth limit"); f->nexec++; Frame* nf=fnew(f); nf->dst=dst; nf->marker=marker; memset(nf->regs(),0,sizeof(Val)*f->nslots); u32 k=0; for (size_t i=0;i<f->ptys.size();i++) for (u32 j=0;j<f->ptys[i]->slots;j++) { if (k<n) nf->regs()[f->pslot[i]+j]=args[k]; k++; } stack_.push_back(nf); setTop(); }
// Unwind to the innermost vh_catch; drops on the way are not run.
static void doPanic(const std::string& what) { for (size_t i=stack_.size();i-->0;) if (stack_[i]->marker) { nCaught++; covers["caught "+what]++; while (stack_.size()>i) popFrame(); Ins& x=top->f->code[top->pc]; CallInfo& ci=top->f->calls[x.x]; if (x.dst>=0) R[x.dst]=Val{1,0}; finishCall(x,ci); return; } violate("panic",what); }
enum Hd { H_NONE, H_SYM, H_ASSUME, H_CHECK, H_COVER, H_PARAM, H_CATCH, H_CONC, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_PMEMALIGN, H_MEMCMP, H_BCMP, H_STRLEN, H_MEMCPY, H_MEMMOVE, H_MEMSET, H_GETRANDOM, H_ABORT, H_WRITE, H_ZERO, H_PANICFMT, H_PANICNU, H_HASH, H_ALLOCERR, H_OBS };
static bool has(const std::string& s, const char* t) { return s.find(t)!=s.npos; }
static bool ends(const std::string& s, const char* t) { size_t n=strlen(t); return s.size()>=n&&s.compare(s.size()-n,n,t)==0; }
static int handlerOf(const std::string& n) {
  static const std::map<std::string,int> m={{"vh_sym",H_SYM},{"vh_assume",H_ASSUME},{"vh_check",H_CHECK},{"vh_cover",H_COVER},{"vh_observe",H_OBS},{"vh_param",H_PARAM},{"vh_catch",H_CATCH},{"vh_concretize",H_CONC},{"malloc",H_MALLOC},{"calloc",H_CALLOC},{"realloc",H_REALLOC},{"free",H_FREE},{"posix_memalign",H_PMEMALIGN},{"memcmp",H_MEMCMP},{"bcmp",H_BCMP},{"strlen",H_STRLEN},{"memcpy",H_MEMCPY},{"memmove",H_MEMMOVE},{"memset",H_MEMSET},{"getrandom",H_GETRANDOM},{"abort",H_ABORT},{"write",H_WRITE},{"__cxa_thread_atexit_impl",H_ZERO}};
  auto it=m.find(n); if (it!=m.end()) return it->second;
  if (has(n,"9panicking9panic_fmt")||has(n,"3std9panicking11begin_panic")) return H_PANICFMT; if (has(n,"9panicking")&&has(n,"panic_nounwind")) return H_PANICNU; if (has(n,"panic_cannot_unwind")||has(n,"panic_in_cleanup")) return H_PANICNU;
  if (has(n,"BuildHasher8hash_one")) return H_HASH; if (ends(n,"hashmap_random_keys")) return H_ZERO; if (ends(n,"18handle_alloc_error")||has(n,"26___rust_alloc_error_handler")) return H_ALLOCERR; return H_NONE; }

static E cmpBytes(u64 a, u64 b, u64 n, bool order) { // memcmp result as i32
  if (!order) { E eq=T(); for (u64 i=0;i<n;i++) { eq=mkand(eq,mkeq(byteE(a+i),byteE(b+i))); if (isc(eq,0)) break; } return mkite(eq,mkc(32,0),mkc(32,1)); }
  E r=mkc(32,0); for (u64 i=n;i-->0;) { E x=byteE(a+i),y=byteE(b+i); r=mkite(mkeq(x,y),r,mkite(mkcmp(ULT,x,y),mkc(32,0xffffffff),mkc(32,1))); } return r; }

static void intrinsic(Ins& x, CallInfo& ci) {
  const auto& A=ci.args; u32 w=ci.argW.empty()?0:ci.argW[0]; u32 L=ci.ret->slots; auto each=[&](auto fn){ for (u32 j=0;j<L;j++) { Val a=get(ln(A[0],j)), b=A.size()>1? get(ln(A[1],j)):Val{0,0}; R[x.dst+j]=fn(a,b); } };
  switch (ci.intr) {
    case N_MEMCPY: case N_MEMMOVE: { u64 n=conc(get(A[2])); u64 d=conc(get(A[0])), s=conc(get(A[1])); copyMem(d,s,n); break; }
    case N_MEMSET: { u64 n=conc(get(A[2])); u64 d=conc(get(A[0])); Val v=get(A[1]); if (n) { u32 id; u64 off; objAt(d,n,true,id,off,"memset"); if (v.e) { for (u64 i=0;i<n;i++) storeAt(id,off+i,8,v); } else { logMem(id,off,n); memset(objs[id].data+off,(int)v.c,n); if (objs[id].sym) memset(objs[id].sym+off,0,n*sizeof(SymB)); } } break; }
    case N_FSHL: case N_FSHR: for (u32 j=0;j<L;j++) { Val a=get(ln(A[0],j)),b=get(ln(A[1],j)),c=get(ln(A[2],j)); Val s=binop(UREM,w,c,Val{w,0}); Val inv=binop(SUB,w,Val{w,0},s); bool l=ci.intr==N_FSHL; E ws=toE(s,w); 
        E hi,lo; if (l) { hi=mkbin(SHL,toE(a,w),ws); lo=mkbin(LSHR,toE(b,w),toE(inv,w)); } else { hi=mkbin(SHL,toE(a,w),toE(inv,w)); lo=mkbin(LSHR,toE(b,w),ws); } R[x.dst+j]=fromE(mkbin(OR,hi,lo)); } break;
    case N_UMAX: each([&](Val a,Val b){ return ite(icmp(4,w,a,b),a,b,w); }); break; case N_UMIN: each([&](Val a,Val b){ return ite(icmp(2,w,a,b),a,b,w); }); break;
    case N_SMAX: each([&](Val a,Val b){ return ite(icmp(8,w,a,b),a,b,w); }); break; case N_SMIN: each([&](Val a,Val b){ return ite(icmp(6,w,a,b),a,b,w); }); break;
    case N_USUBSAT: each([&](Val a,Val b){ return ite(icmp(2,w,a,b),Val{0,w>64?mkc(w,0):nullptr},binop(SUB,w,a,b),w); }); break;
    case N_UADDSAT: each([&](Val a,Val b){ Val s=binop(ADD,w,a,b); return ite(icmp(2,w,s,a),fromE(mkc(w,~(u128)0)),s,w); }); break;
    case N_UADDO: { Val a=get(A[0]),b=get(A[1]); Val s=binop(ADD,w,a,b); R[x.dst]=s; R[x.dst+1]=icmp(2,w,s,a); break; }
    case N_USUBO: { Val a=get(A[0]),b=get(A[1]); Val s=binop(SUB,w,a,b); R[x.dst]=s; R[x.dst+1]=icmp(2,w,a,b); break; }
    case N_SADDO: case N_SSUBO: { if (w>64) unsupported("wide signed overflow"); E a=toE(get(A[0]),w),b=toE(get(A[1]),w); E s=mkbin(ci.intr==N_SADDO?ADD:SUB,mksext(a,w+1),mksext(b,w+1)); E r=mkext(s,0,w); R[x.dst]=fromE(r); R[x.dst+1]=fromE(mknot(mkeq(mkext(s,w,1),mkext(s,w-1,1)))); break; }
    case N_UMULO: { if (w>64) unsupported("wide multiplication overflow"); Val a=get(A[0]),b=get(A[1]); if (!a.e&&!b.e) { u128 p=(u128)a.c*b.c; R[x.dst]=Val{(u64)(p&maskw(w)),0}; R[x.dst+1]=Val{(u64)((p>>w)!=0),0}; } else { E p=mkbin(MUL,mkzext(toE(a,w),2*w),mkzext(toE(b,w),2*w)); R[x.dst]=fromE(mkbin(MUL,toE(a,w),toE(b,w))); R[x.dst+1]=fromE(mknot(mkeq(mkext(p,w,w),mkc(w,0)))); } break; }
    case N_SMULO: { if (w>64) unsupported("wide multiplication overflow"); E p=mkbin(MUL,mksext(toE(get(A[0]),w),2*w),mksext(toE(get(A[1]),w),2*w)); E r=mkext(p,0,w); R[x.dst]=fromE(r); R[x.dst+1]=fromE(mknot(mkeq(p,mksext(r,2*w)))); break; }
    case N_CTLZ: case N_CTTZ: each([&](Val a,Val){ E e=toE(a,w); E r= ci.intr==N_CTLZ? mkctlz(e):mkcttz(e); return fromE(r); }); break;
    case N_CTPOP: each([&](Val a,Val){ if (!a.e&&w<=64) return Val{(u64)__builtin_popcountll(a.c),0}; return fromE(mkctpop(toE(a,w),w)); }); break;
    case N_BSWAP: each([&](Val a,Val){ E e=toE(a,w),r=nullptr; for (u32 i=0;i<w;i+=8) { E b=mkext(e,i,8); r= r? mkcat(r,b):b; } return fromE(r); }); break;
    case N_BITREV: each([&](Val a,Val){ E e=toE(a,w),r=nullptr; for (u32 i=0;i<w;i++) { E b=mkext(e,i,1); r= r? mkcat(r,b):b; } return fromE(r); }); break;
    case N_ABS: each([&](Val a,Val){ return ite(icmp(6,w,a,fromE(mkc(w,0))),binop(SUB,w,fromE(mkc(w,0)),a),a,w); }); break;
    case N_UCMP: case N_SCMP: { u32 rw=ci.ret->leafW[0]; bool u=ci.intr==N_UCMP; each([&](Val a,Val b){ return ite(icmp(u?2:6,w,a,b),fromE(mkc(rw,~(u128)0)),ite(icmp(0,w,a,b),fromE(mkc(rw,0)),fromE(mkc(rw,1)),rw),rw); }); break; }
    case N_ID: for (u32 j=0;j<L;j++) R[x.dst+j]=get(ln(A[0],j)); break;
    case N_TRAP: violate("panic","trap in "+where());
    case N_VREDUCE_OR: case N_VREDUCE_AND: case N_VREDUCE_XOR: case N_VREDUCE_ADD: case N_VREDUCE_UMAX: case N_VREDUCE_UMIN: { Val a=get(A[0]); for (u32 j=1;j<ci.argN[0];j++) { Val b=get(ln(A[0],j)); switch (ci.intr) { case N_VREDUCE_OR: a=binop(OR,w,a,b); break; case N_VREDUCE_AND: a=binop(AND,w,a,b); break; case N_VREDUCE_XOR: a=binop(XOR,w,a,b); break; case N_VREDUCE_ADD: a=binop(ADD,w,a,b); break; case N_VREDUCE_UMAX: a=ite(icmp(4,w,a,b),a,b,w); break; default: a=ite(icmp(2,w,a,b),a,b,w); } } R[x.dst]=a; break; }
    default: unsupported("intrinsic "+ci.name); }
  finishCall(x,ci); }
static u64 heapAlloc(u64 n) { if (n>(1ull<<31)) { inconc("allocation larger than 2 GiB"); throw PathEnd(); } return objAddr(newObj(n,K_HEAP)); }
static void heapFree(u64 a) { if (!a) return; u32 id=a>>32; if (id==0||id>=objs.size()||(a&0xffffffff)||objs[id].kind!=K_HEAP) violate("memory","free of invalid pointer in "+where()); if (!objs[id].alive) violate("memory","double free in "+where()); killObj(id); }
static void call(Ins& x) {
  CallInfo& ci=top->f->calls[x.x]; if (ci.intr) { intrinsic(x,ci); return; }
  Func* f; if (ci.fn>=0) f=M.fns[ci.fn]; else { u64 a=conc(get(ci.calleeOp)); if (!isFnAddr(a)||((a&0xfffffffffffffffull)>>4)>=M.fns.size()) violate("memory","call through invalid function pointer in "+where()); f=M.fns[(a&0xfffffffffffffffull)>>4]; }
  if (!f->handler) { if (f->decl) unsupported("external function "+f->name); static std::vector<Val> av; av.clear(); for (size_t i=0;i<ci.args.size();i++) for (u32 j=0;j<ci.argN[i];j++) av.push_back(get(ln(ci.args[i],j))); enter(f,av.data(),av.size(),x.dst,0); return; }
  auto arg=[&](u32 i){ return get(ci.args[i]); }; auto ret=[&](Val v){ if (x.dst>=0) R[x.dst]=v; finishCall(x,ci); };
  switch (f->handler) {
    case H_SYM: { u64 p=conc(arg(0)), n=conc(arg(1)); u64 np=conc(arg(2)), nl=conc(arg(3)); std::string nm=rdstr(np,nl); u32 ord=symOrd; for (u64 i=0;i<n;i++) { if (symVars.size()<=symOrd) { symVars.push_back(mkvar("s"+std::to_string(symOrd),8)); varE.resize(pool.vars.size(),nullptr); varE[(u32)symVars.back()->c]=symVars.back(); } u32 id; u64 off; objAt(p+i,1,true,id,off,"vh_sym"); storeAt(id,off,8,Val{0,symVars[symOrd]}); symOrd++; } ins_.push_back({nm,ord,(u32)n}); ret({0,0}); break; }
    case H_ASSUME: { Val v=arg(0); if (!v.e) { if (!(v.c&1)) { nAssumeCut++; throw PathEnd(); } } else { E c=mkext(v.e,0,1); ModelPtr m; if (isc(c)) { if (!c->c) { nAssumeCut++; throw PathEnd(); } } else if (query(c,&m)!=SAT) { nAssumeCut++; throw PathEnd(); } else { model=m; nLost++; addC(c); } } ret({0,0}); break; }
    case H_CHECK: { Val v=arg(0); std::string msg=rdstr(conc(arg(1)),conc(arg(2))); nChecks++; E c= v.e? mkext(v.e,0,1) : mkc(1,v.c&1); 
        if (isc(c)) { nCheckConst++; if (!c->c) violate("check",msg); } else { nChecksZ3++; ModelPtr m; Res r=query(mknot(c),&m,true); if (r==SAT) { report("check",msg,*m); ModelPtr m2; nLost++; if (stopAll||query(c,&m2)!=SAT) throw PathEnd(); model=m2; } addC(c); }
        ret({0,0}); break; }
    case H_COVER: { covers[rdstr(conc(arg(0)),conc(arg(1)))]++; ret({0,0}); break; }
    case H_OBS: { obs.push_back({rdstr(conc(arg(1)),conc(arg(2))),arg(0),64}); ret({0,0}); break; }
    case H_PARAM: { u64 i=conc(arg(0)); ret({i<params.size()?params[i]:0,0}); break; }
    case H_CONC: { u64 v=conc(arg(0)); ret({v,0}); break; }
    case H_CATCH: { u64 a=conc(arg(0)); if (!isFnAddr(a)) violate("memory","vh_catch"); Func* g=M.fns[(a&0xfffffffffffffffull)>>4]; Val av=arg(1); enter(g,&av,1,-1,1); break; }
    case H_MALLOC: { u64 n=conc(arg(0)); ret({heapAlloc(n),0}); break; }
    case H_CALLOC: { u64 n=conc(arg(0)), k=conc(arg(1)); ret({heapAlloc(n*k),0}); break; }
    case H_REALLOC: { u64 p=conc(arg(0)), n=conc(arg(1)); if (p) { u32 id=p>>32; if ((p&0xffffffff)||id>=objs.size()||objs[id].kind!=K_HEAP||!objs[id].alive) violate("memory","realloc of invalid pointer in "+where()); } u64 q=heapAlloc(n); if (p) { copyMem(q,p,std::min(n,objs[p>>32].size)); heapFree(p); } ret({q,0}); break; }
    case H_FREE: heapFree(conc(arg(0))); ret({0,0}); break;
    case H_PMEMALIGN: { Val p=arg(0); u64 n=conc(arg(2)); u64 q=heapAlloc(n); storeV(p,64,{q,0}); ret({0,0}); break; }
    case H_BCMP: case H_MEMCMP: { u64 n=conc(arg(2)); u64 a=n?conc(arg(0)):0, b=n?conc(arg(1)):0; ret(fromE(cmpBytes(a,b,n,f->handler==H_MEMCMP))); break; }
    case H_STRLEN: { u64 p=conc(arg(0)); u64 n=0; while (true) { E b=byteE(p+n); if (!isc(b)) unsupported("strlen of symbolic data"); if (!b->c) break; n++; } ret({n,0}); break; }
    case H_MEMCPY: case H_MEMMOVE: { u64 n=conc(arg(2)), d=conc(arg(0)), s=conc(arg(1)); copyMem(d,s,n); ret({d,0}); break; }
    case H_MEMSET: { u64 n=conc(arg(2)), d=conc(arg(0)); u64 v=conc(arg(1)); u32 id; u64 off; if (n) { objAt(d,n,true,id,off,"memset"); for (u64 i=0;i<n;i++) storeAt(id,off+i,8,{v&255,0}); } ret({d,0}); break; }
    case H_GETRANDOM: { u64 n=conc(arg(1)), d=conc(arg(0)); for (u64 i=0;i<n;i++) storeV({d+i,0},8,{0,0}); ret({n,0}); break; }
    case H_WRITE: ret({conc(arg(2)),0}); break;
    case H_ZERO: if (x.dst>=0) for (u32 j=0;j<ci.ret->slots;j++) R[x.dst+j]=Val{0,0}; finishCall(x,ci); break;
    case H_HASH: ret({0,0}); break;
    case H_ABORT: violate("panic","abort in "+where());
    case H_ALLOCERR: inconc("allocation failure path"); throw PathEnd();
    case H_PANICNU: violate("panic","non-unwinding panic in "+where());
    case H_PANICFMT: { u64 l=conc(arg(ci.args.size()-1)); std::string loc="?"; if (objs.size()>(l>>32)) { u64 fp=(u64)loadV({l,0},64).c, fl=(u64)loadV({l+8,0},64).c, line=loadV({l+16,0},32).c, col=loadV({l+20,0},32).c; loc=rdstr(fp,fl)+":"+std::to_string(line)+":"+std::to_string(col); } doPanic("panicked at "+loc); break; }
    default: die("handler"); } }

static void doReturn(const Val* t, u32 n) { int32_t dst=top->dst; u8 mk=top->marker; popFrame(); if (!top) throw PathEnd(); Ins& y=top->f->code[top->pc]; CallInfo& ci=top->f->calls[y.x]; if (mk) { if (y.dst>=0) R[y.dst]=Val{0,0}; } else if (dst>=0) for (u32 j=0;j<n;j++) R[dst+j]=t[j]; finishCall(y,ci); }

// ---------------------------------------------------------------- state merging
// At a branch both of whose sides are feasible, every path up to the branch's post-dominator is run and the arriving
// states are joined into one by if-then-else over what differs. Gives up (plain fork) when the heap shape differs.
static void step(); static bool backtrack(); static void tick();
struct Site { u32 ok=0, bad=0; }; static std::unordered_map<u64,Site> sites; static bool mergeOn=true; static u64 mergeLimit=400000; static size_t mergeMax=48;
struct MB { u8 d; SymB s; };
struct Arr { E cond; ModelPtr model; std::vector<Val> regs; std::unordered_map<u64,MB> mem; };
static void dropChoice() { for (Frame* f: choices.back().frames) funref(f); choices.pop_back(); }
static void restoreTop() { // back to the state of the innermost choice, consuming it
  while (!stack_.empty()) { funref(stack_.back()); stack_.pop_back(); }
  Choice c=std::move(choices.back()); choices.pop_back(); undoTo(c.trail); objs.resize(c.nobj); arena.cur=c.acur; arena.off=c.aoff; pc.resize(c.npc); ins_.resize(c.nin); obs.resize(c.nobs,Obs{}); symOrd=c.ord; model=c.model; stack_=std::move(c.frames); logFloor= choices.empty()?0:choices.back().nobj; setTop(); if (c.add) addC(c.add); }
static bool addrLike(u64 v) { if (isFnAddr(v)) return ((v&0xfffffffffffffffull)>>4)<M.fns.size(); u64 o=v>>32; return !(v>>60)&&o>0&&o<objs.size(); }
static E conjFrom(size_t n) { E c=T(); for (size_t i=n;i<pc.size();i++) c=mkand(c,pc[i]); return c; }
static E baseByte(u32 o, u32 off, u8& d) { Obj& x=objs[o]; d=x.data[off]; if (x.sym&&x.sym[off].e) return mkext(x.sym[off].e,8*x.sym[off].idx,8); return nullptr; }
static bool mergeable(Val a, Val b, u32 w, bool mem) { if (w<64) return true; if (!a.e&&!b.e) { if (a.c==b.c) return true; if (addrLike(a.c)||addrLike(b.c)) return false; return !(mem&&a.c<65536&&b.c<65536); } if (!a.e) return !addrLike(a.c); if (!b.e) return !addrLike(b.c); return true; }
static bool tryMerge(E cur, E oth, ModelPtr m2, u32 edge) {
  Func* f=top->f; u32 bpc=top->pc; Cfg& g=cfgOf(f); u32 b=blockOf(f,bpc); if (g.ipdom[b]==-1) return false; for (u32 s: g.succ[b]) if (!g.canRet[s]) return false;
  u64 key=(u64)f->idx<<32|bpc; { Site& s=sites[key]; if (s.bad>=4&&s.bad>2*s.ok) return false; }
  if (f->cfg->ipdom[b]==-2&&stack_.size()==1) return false;
  u32 J= g.ipdom[b]==-2? ~0u : f->blkStart[g.ipdom[b]]; size_t d=stack_.size();
  pushChoice(nullptr,model); nForks--; size_t floor=choices.size(), in0=ins_.size(), ob0=obs.size(), npc0=pc.size(), tr0=tr.size(), so0=top->so.size(); u32 ord0=symOrd, nobj0=objs.size(); u64 lost0=nLost, i0=nInstr, pi0=pathInstr;
  pushChoice(oth,m2); addC(cur); takeEdge(edge);
  std::vector<Arr> arrs; std::vector<std::pair<E,ModelPtr>> esc; bool fail=false; std::map<u32,std::set<u32>> cuts; std::map<u32,std::set<u32>> touched;
  while (true) {
    int r=0; try { while (true) { if (stack_.size()<d) { r=2; break; } if (stack_.size()==d) { if (J!=~0u? top->pc==J : top->f->code[top->pc].op==I_RET) { r=1; break; } } step(); tick(); if (nInstr-i0>mergeLimit) { r=3; break; } } } catch (PathEnd&) { if (stopAll) throw; nPaths++; nLost++; }
    if (r==3) fail=true;
    if (r==2) { nLost++; esc.push_back({conjFrom(npc0),model}); if (esc.size()>mergeMax) fail=true; }
    if (r==1) {
      if (arrs.size()>=mergeMax||ins_.size()!=in0||obs.size()!=ob0||symOrd!=ord0||top->so.size()!=so0) fail=true;
      for (u32 o=nobj0;!fail&&o<objs.size();o++) if (objs[o].alive&&objs[o].kind==K_HEAP) fail=true;
      if (!fail) { arrs.emplace_back(); Arr& A=arrs.back(); A.cond=conjFrom(npc0); A.model=model;
        if (J==~0u) { Ins& x=top->f->code[top->pc]; for (u32 j=0;j<x.lanes;j++) A.regs.push_back(get(ln(x.a,j))); } else for (u32 s: g.live[g.ipdom[b]]) A.regs.push_back(R[s]);
        size_t q=tr.size(), bytes=0; while (q>tr0&&!fail) { TH h; memcpy(&h,&tr[q-sizeof(TH)],sizeof(TH)); q-=sizeof(TH);
          switch (h.kind) { case 1: case 2: q-=h.len; if (h.kind==2) q-=h.len*sizeof(SymB); if (h.obj>=nobj0) break; bytes+=h.len; if (bytes>1<<16) { fail=true; break; } { Obj& x=objs[h.obj]; auto& c=cuts[h.obj]; auto& t=touched[h.obj]; c.insert(h.off); c.insert(h.off+h.len); if (h.len>8) for (u32 k=(h.off+7)&~7u;k<h.off+h.len;k+=8) c.insert(k); for (u32 k=0;k<h.len;k++) { t.insert(h.off+k); A.mem[(u64)h.obj<<32|(h.off+k)]=MB{x.data[h.off+k], x.sym? x.sym[h.off+k] : SymB{nullptr,0}}; } } break;
            case 3: if (h.obj<nobj0) fail=true; break; case 4: break; case 5: q-=sizeof(Dom); break; case 6: q-=sizeof(E); break; default: die("trail"); } } } }
    if (fail) break;
    if (choices.size()>floor) { restoreTop(); pathInstr=pi0; } else break; }
  pathInstr=pi0;
  while (choices.size()>floor) dropChoice();
  restoreTop(); // the state before the branch
  struct Put { u32 o, off, n; Val v; }; std::vector<Put> puts; std::vector<Val> regs;
  if (!fail&&!arrs.empty()) {
    for (auto& t: touched) { auto& cs=cuts[t.first]; for (auto it=t.second.begin();it!=t.second.end()&&!fail;) { u32 o0=*it, n=1; ++it; while (n<8&&it!=t.second.end()&&*it==o0+n&&!cs.count(o0+n)) { n++; ++it; }
        Val acc{0,0}; for (size_t a=arrs.size();a-->0;) { Arr& A=arrs[a]; u64 c=0; E e=nullptr; bool sy=false; std::vector<E> be(n); std::vector<u8> bd(n);
          for (u32 k=0;k<n;k++) { auto m=A.mem.find((u64)t.first<<32|(o0+k)); if (m==A.mem.end()) be[k]=baseByte(t.first,o0+k,bd[k]); else { be[k]= m->second.s.e? mkext(m->second.s.e,8*m->second.s.idx,8):nullptr; bd[k]=m->second.d; } if (be[k]) sy=true; c|=(u64)bd[k]<<(8*k); }
          Val v{c,nullptr}; if (sy) { for (u32 k=n;k-->0;) { E x=be[k]?be[k]:mkc(8,bd[k]); e=e?mkcat(e,x):x; } v=fromE(e); }
          if (a+1==arrs.size()) acc=v; else { if (!mergeable(v,acc,8*n,true)) { fail=true; break; } acc=ite(fromE(A.cond),v,acc,8*n); } }
        if (!fail) puts.push_back({t.first,o0,n,acc}); }
      if (fail) break; }
    size_t nr=arrs[0].regs.size(); for (auto& A: arrs) if (A.regs.size()!=nr) fail=true;
    for (size_t i=0;i<nr&&!fail;i++) { u32 w= J==~0u? f->ret->leafW[i] : f->slotW[g.live[g.ipdom[b]][i]]; Val acc=arrs.back().regs[i]; for (size_t a=arrs.size()-1;a-->0;) { Val v=arrs[a].regs[i]; if (!mergeable(v,acc,w,false)) { fail=true; break; } acc=ite(fromE(arrs[a].cond),v,acc,w); } regs.push_back(acc); } }
  if (fail) { sites[key].bad++; nMergeFail++; nLost=lost0; return false; }
  sites[key].ok++; nMerges++; bool lost=nLost!=lost0; for (auto& e: esc) pushChoice(e.first,e.second);
  if (arrs.empty()) throw PathEnd();
  for (auto& p: puts) storeAt(p.o,p.off,8*p.n,p.v);
  if (lost) { E any=F(); for (auto& A: arrs) any=mkor(any,A.cond); model=arrs[0].model; addC(any); }
  if (J==~0u) doReturn(regs.data(),regs.size()); else { for (size_t i=0;i<regs.size();i++) R[g.live[g.ipdom[b]][i]]=regs[i]; top->pc=J; }
  return true; }

// ---------------------------------------------------------------- main loop
static void tick() { if (overBudget||(nInstr&0xfff)==0) { if (pathInstr>maxPathInstr) violate("hang","a path runs longer than the instruction limit"); if (now()-tStart>tBudget) { inconc("time budget"); stopAll=true; throw PathEnd(); } } }
static void step() {
  Ins& x=top->f->code[top->pc]; nInstr++; pathInstr++;
  switch (x.op) {
    case I_BIN: for (u32 j=0;j<x.lanes;j++) { Val v=binop(x.sub,x.w,get(ln(x.a,j)),get(ln(x.b,j))); R[x.dst+j]=v; } /* binop may fork, which moves R: the call must come first */ top->pc++; break;
    case I_ICMP: for (u32 j=0;j<x.lanes;j++) R[x.dst+j]=icmp(x.sub,x.w,get(ln(x.a,j)),get(ln(x.b,j))); top->pc++; break;
    case I_CAST: for (u32 j=0;j<x.lanes;j++) { Val v=get(ln(x.a,j)); u32 sw=x.x,dw=x.w; Val r; if (!v.e&&sw<=64&&dw<=64) { if (x.cast==1) r={(u64)sx64(v.c,sw)&m64(dw),0}; else r={v.c&m64(dw),0}; } else { E e=toE(v,sw); r=fromE(x.cast==0? mkzext(e,dw): x.cast==1? mksext(e,dw): mkext(e,0,dw)); } R[x.dst+j]=r; } top->pc++; break;
    case I_GEP: { Val b=get(x.a); bool sy=b.e; u64 off=x.imm; if (x.x) { auto& gi=top->f->geps[x.c]; for (auto& g: gi) { Val v=get(g.op); if (v.e) sy=true; else off+=(u64)sx64(v.c,g.w)*g.scale; } if (!sy) { R[x.dst]={b.c+off,0}; top->pc++; break; } E e=toE(b,64); for (auto& g: gi) { Val v=get(g.op); if (v.e) e=mkbin(ADD,e,mkbin(MUL,mksext(v.e,64),mkc(64,g.scale))); } R[x.dst]=fromE(mkbin(ADD,e,mkc(64,off))); } else R[x.dst]= sy? fromE(mkbin(ADD,b.e,mkc(64,off))) : Val{b.c+off,0}; top->pc++; break; }
    case I_LOAD: { Val p=get(x.a); if (x.lanes==1) { Val v=loadV(p,x.w); R[x.dst]=v; } else { Type* t=x.ty; u64 a=conc(p); for (u32 j=0;j<x.lanes;j++) R[x.dst+j]=loadV({a+t->leafOff[j],0},t->leafW[j]); } top->pc++; break; }
    case I_STORE: { Val p=get(x.a); if (x.lanes==1) storeV(p,x.w,get(x.b)); else { Type* t=x.ty; u64 a=conc(p); if (t->k==Type::Vec&&t->leafW[0]%8) { // bit vectors are packed
            E e=nullptr; for (u32 j=0;j<x.lanes;j++) { E b=toE(get(ln(x.b,j)),t->leafW[j]); e=e?mkcat(b,e):b; } storeV({a,0},e->w,fromE(e)); } else for (u32 j=0;j<x.lanes;j++) storeV({a+t->leafOff[j],0},t->leafW[j],get(ln(x.b,j))); } top->pc++; break; }
    case I_BR: takeEdge(x.x); break;
    case I_CBR: { Val c=get(x.a); if (c.e&&mergeOn&&!known.count(c.e)) { bool v=evalE(c.e,*model)!=0; E cu= v?c.e:mknot(c.e), ot= v?mknot(c.e):c.e; ModelPtr m2; if (query(ot,&m2)==SAT&&tryMerge(cu,ot,m2,v? x.x : (u32)x.imm)) break; c=get(x.a); }
        bool t= c.e? decide(c.e) : (c.c&1); takeEdge(t? x.x : (u32)x.imm); break; }
    case I_SWITCH: { SwitchInfo& si=top->f->sws[x.x]; Val v=get(x.a); if (v.e) { auto it=known.find(v.e); if (it!=known.end()) v=Val{(u64)it->second,0}; }
        if (!v.e) { u32 e=si.def; for (auto& c: si.cases) if (c.first==v.c) { e=c.second; break; } takeEdge(e); break; }
        // group the cases by target block; all edges from here to one block carry the same phi moves
        std::map<u32,std::pair<u32,E>> g; E any=F(); for (auto& c: si.cases) { E q=mkeq(v.e,mkc(x.w,c.first)); any=mkor(any,q); u32 to=top->f->edges[c.second].to; auto it=g.find(to); if (it==g.end()) g[to]={c.second,q}; else it->second.second=mkor(it->second.second,q); }
        { u32 to=top->f->edges[si.def].to; E q=mknot(any); auto it=g.find(to); if (it==g.end()) g[to]={si.def,q}; else it->second.second=mkor(it->second.second,q); }
        bool done=false; for (auto& k: g) if (evalE(k.second.second,*model)) { E q=k.second.second; if (!isc(q)) { ModelPtr m2; if (query(mknot(q),&m2)==SAT) { if (mergeOn&&tryMerge(q,mknot(q),m2,k.second.first)) { done=true; break; } pushChoice(mknot(q),m2); } addC(q); } takeEdge(k.second.first); done=true; break; }
        if (!done) die("switch"); break; }
    case I_RET: { Val tmp[8]; std::vector<Val> big; Val* t=tmp; u32 n=x.lanes; if (n>8) { big.resize(n); t=big.data(); } for (u32 j=0;j<n;j++) t[j]=get(ln(x.a,j)); doReturn(t,n); break; }
    case I_SELECT: if (x.x==1) { Val c=get(x.c); for (u32 j=0;j<x.lanes;j++) R[x.dst+j]=ite(c,get(ln(x.a,j)),get(ln(x.b,j)),x.ty->leafW[j]); } else for (u32 j=0;j<x.lanes;j++) R[x.dst+j]=ite(get(ln(x.c,j)),get(ln(x.a,j)),get(ln(x.b,j)),x.ty->leafW[j]); top->pc++; break;
    case I_COPY: for (u32 j=0;j<x.lanes;j++) R[x.dst+j]=get(ln(x.a,j)); top->pc++; break;
    case I_ALLOCA: { u64 n=conc(get(x.a)); u32 id=newObj(x.imm*n,K_STACK); top->so.push_back(id); R[x.dst]={objAddr(id),0}; top->pc++; break; }
    case I_CALL: call(x); break;
    case I_UNREACH: violate("unreachable","reached code marked unreachable in "+where());
    case I_EXTE: { u64 i=conc(get(x.b)); R[x.dst]=get(ln(x.a,i)); top->pc++; break; }
    case I_INSE: { u64 i=conc(get(x.c)); for (u32 j=0;j<x.lanes;j++) R[x.dst+j]=get(ln(x.a,j)); R[x.dst+i]=get(x.b); top->pc++; break; }
    case I_SHUF: { auto& m=top->f->masks[x.x]; for (u32 j=0;j<x.lanes;j++) { int k=m[j]; if (k<0) k=0; R[x.dst+j]= k<(int)x.imm? get(ln(x.a,k)) : get(ln(x.b,k-(int)x.imm)); } top->pc++; break; }
    case I_BITCAST: { u32 n=x.imm,sw=x.x,m=x.lanes,dw=x.w; if (n==m) { for (u32 j=0;j<n;j++) R[x.dst+j]=get(ln(x.a,j)); } else { bool sy=false; for (u32 j=0;j<n;j++) if (get(ln(x.a,j)).e) sy=true; if (n*sw>128) unsupported("bitcast wider than 128 bits"); if (!sy) { u128 v=0; for (u32 j=0;j<n;j++) v|=(u128)get(ln(x.a,j)).c<<(j*sw); for (u32 j=0;j<m;j++) R[x.dst+j]=fromE(mkc(dw,v>>(j*dw))); } else { E e=nullptr; for (u32 j=0;j<n;j++) { E b=toE(get(ln(x.a,j)),sw); e=e?mkcat(b,e):b; } for (u32 j=0;j<m;j++) R[x.dst+j]=fromE(mkext(e,j*dw,dw)); } } top->pc++; break; }
    case I_RMW: { Val p=get(x.a); u64 a=conc(p); Val old=loadV({a,0},x.w), v=get(x.b), n; switch (x.sub) { case 0: n=v; break; case 1: n=binop(ADD,x.w,old,v); break; case 2: n=binop(SUB,x.w,old,v); break; case 3: n=binop(AND,x.w,old,v); break; case 4: n=binop(OR,x.w,old,v); break; case 5: n=binop(XOR,x.w,old,v); break; default: unsupported("atomicrmw"); } storeV({a,0},x.w,n); R[x.dst]=old; top->pc++; break; }
    case I_CMPX: { u64 a=conc(get(x.a)); Val old=loadV({a,0},x.w); Val eq=icmp(0,x.w,old,get(x.b)); bool t= eq.e? decide(eq.e) : eq.c; if (t) storeV({a,0},x.w,get(x.c)); R[x.dst]=old; R[x.dst+1]={t,0}; top->pc++; break; }
    case I_UNSUP: unsupported(top->f->msgs[x.x]+" in "+where());
    default: die("step"); } }
static bool backtrack() { if (choices.empty()) { while (!stack_.empty()) { funref(stack_.back()); stack_.pop_back(); } return false; } restoreTop(); return true; }
static std::string jstr(const std::string& s) { std::string o="\""; for (unsigned char c: s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }

struct Sample { std::vector<std::pair<std::string,std::vector<u8>>> in; std::vector<std::pair<std::string,u64>> obs; }; static std::vector<Sample> samples; static size_t maxSamples=24; static u64 nSeen=0, rngS=88172645463325252ull;
static void sample() { // reservoir of completed paths with a model and the values observed on it
  nSeen++; rngS^=rngS<<13; rngS^=rngS>>7; rngS^=rngS<<17; size_t at= samples.size()<maxSamples? samples.size() : rngS%nSeen; if (at>=maxSamples) return; Sample s;
  for (auto& i: ins_) { std::vector<u8> b; for (u32 k=0;k<i.n;k++) { u32 vi=(u32)symVars[i.ord+k]->c; b.push_back(vi<model->size()?(u8)(*model)[vi]:0); } s.in.push_back({i.name,b}); }
  for (auto& o: obs) s.obs.push_back({o.tag, o.v.e? (u64)evalE(o.v.e,*model) : o.v.c}); if (at==samples.size()) samples.push_back(s); else samples[at]=s; }
int main(int argc, char** argv) {
  std::string ll, entry, out; bool mergeLog=false;
  for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ if (++i>=argc) die("missing argument"); return std::string(argv[i]); };
    if (a=="--entry") entry=nx(); else if (a=="--out") out=nx(); else if (a=="--param") params.push_back(strtoull(nx().c_str(),0,0)); else if (a=="--budget") tBudget=atof(nx().c_str()); else if (a=="--qtimeout") queryTimeoutMs=atoi(nx().c_str()); else if (a=="--max-viol") maxViol=atoi(nx().c_str()); else if (a=="--dump") dumpDir=nx(); else if (a=="--no-merge") mergeOn=false; else if (a=="--split-shifts") splitShifts=true; else if (a=="--samples") maxSamples=atoi(nx().c_str()); else if (a=="--seed") rngS^=strtoull(nx().c_str(),0,0)*0x9E3779B97F4A7C15ull; else if (a=="--merge-log") mergeLog=true; else ll=a; }
  tStart=now(); objs.push_back(Obj{nullptr,nullptr,0,0,0});
  M.load(ll); for (Func* f: M.fns) { f->handler=handlerOf(f->name); f->isRepo=has(f->name,"6rescan"); }
  for (Global* g: M.globals) { g->obj=newObj(std::max<u64>(g->ty->size,1),g->constant&&!g->external?K_CONST:K_GLOBAL); }
  for (Global* g: M.globals) if (!g->external) initBytes(objs[g->obj].data,g->init,g->ty);
  double tLoad=now()-tStart; auto it=M.fnByName.find(entry); if (it==M.fnByName.end()||M.fns[it->second]->decl) die("no entry "+entry);
  tStart=now(); logFloor=0; enter(M.fns[it->second],nullptr,0,-1,0); u64 completed=0; 
  while (true) {
    try { while (true) { step(); tick(); } }
    catch (PathEnd&) { nPaths++; if (stack_.empty()) { completed++; sample(); } pathInstr=0; }
    if (stopAll||!backtrack()) break; }
  double dt=now()-tStart; std::string j="{";
  auto kv=[&](const char* k, const std::string& v){ if (j.size()>1) j+=","; j+=std::string("\n \"")+k+"\": "+v; }; auto num=[&](const char* k, double v){ char b[64]; snprintf(b,64,v==(double)(long long)v?"%.0f":"%.4f",v); kv(k,b); };
  kv("entry",jstr(entry)); { std::string s="["; for (u64 p: params) { if (s.size()>1) s+=","; s+=std::to_string(p); } kv("params",s+"]"); }
  num("paths",nPaths); num("completed",completed); num("forks",nForks); num("instructions",nInstr); num("checks",nChecks); num("checks_folded",nCheckConst); num("checks_symbolic",nChecksZ3); num("caught_panics",nCaught); num("assume_cut",nAssumeCut);
  num("solver_queries",SS.queries); num("solver_sat",SS.sat); num("solver_unsat",SS.unsat); num("solver_unknown",SS.unknown); num("solver_time_s",SS.time); num("solver_max_s",SS.maxTime); num("cache_hits",SS.cacheHits); num("byte_domain_decisions",SS.domainHits); num("model_reuse",SS.modelHits);
  num("time_s",dt); num("load_s",tLoad); num("merges",nMerges); num("merges_refused",nMergeFail); num("sym_inputs",symVars.size()); num("expressions",pool.next); kv("stopped_early",stopAll?"true":"false"); kv("inconclusive",inconclusive?"true":"false"); kv("why",jstr(incWhy));
  { std::string s="["; for (auto& u: unsup) { if (s.size()>1) s+=","; s+=jstr(u); } kv("unsupported",s+"]"); }
  { std::string s="{"; for (auto& c: covers) { if (s.size()>1) s+=","; s+=jstr(c.first)+": "+std::to_string(c.second); } kv("covers",s+"}"); }
  { std::string s="["; for (Func* f: M.fns) if (f->nexec) { if (s.size()>1) s+=","; s+=jstr(f->name); } kv("functions",s+"]"); }
  { std::string s="["; for (auto& v: viols) { if (s.size()>1) s+=","; s+="{\"kind\":"+jstr(v.kind)+",\"what\":"+jstr(v.what)+",\"inputs\":["; bool first=true; for (auto& p: v.in) { if (!first) s+=","; first=false; s+="{\"name\":"+jstr(p.first)+",\"hex\":\""; for (u8 b: p.second) { char h[4]; snprintf(h,4,"%02x",b); s+=h; } s+="\"}"; } s+="]}"; } kv("violations",s+"]"); }
  { std::string s="["; for (auto& v: samples) { if (s.size()>1) s+=","; s+="{\"inputs\":["; bool first=true; for (auto& p: v.in) { if (!first) s+=","; first=false; s+="\""; for (u8 b: p.second) { char h[4]; snprintf(h,4,"%02x",b); s+=h; } s+="\""; } s+="],\"observed\":["; first=true; for (auto& o: v.obs) { if (!first) s+=","; first=false; s+=jstr(o.first+"="+std::to_string(o.second)); } s+="]}"; } kv("samples",s+"]"); }
  if (mergeLog) for (auto& s: sites) fprintf(stderr,"merge site %s pc %u block %u: %u ok %u refused\n",M.fns[s.first>>32]->name.c_str(),(u32)s.first,blockOf(M.fns[s.first>>32],(u32)s.first),s.second.ok,s.second.bad);
  j+="\n}\n"; if (out.empty()) fputs(j.c_str(),stdout); else { std::ofstream o(out); o<<j; }
  return viols.empty()? (inconclusive?2:0) : 1; }
