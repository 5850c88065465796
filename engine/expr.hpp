// Hash-consed bit-vector expressions with a simplifying constructor layer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <cassert>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

[[noreturn]] inline void die(const std::string& m) { fprintf(stderr, "lsym: fatal: %s\n", m.c_str()); fflush(stdout); exit(3); }

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, NOT, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Bloom { u64 w[4]; 
  bool inter(const Bloom& o) const { return (w[0]&o.w[0])|(w[1]&o.w[1])|(w[2]&o.w[2])|(w[3]&o.w[3]); }
  void add(const Bloom& o) { for (int i=0;i<4;i++) w[i]|=o.w[i]; } };

struct Expr { Op op; u32 w; u32 lo; u32 id; const Expr* k[3]; u128 c; Bloom vars; u32 size; u128 kz, ko; }; // kz/ko: bits known to be zero/one
typedef const Expr* E;

inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, u32 w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w-1); v &= maskw(w); return (i128)((v ^ s) - s); }

struct VarInfo { std::string name; u32 w; };
struct Pool {
  struct H { size_t operator()(E e) const { u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w; h = (h ^ e->lo) * 0xff51afd7ed558ccdull; 
      for (int i=0;i<3;i++) { h ^= (u64)e->k[i]; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; } h ^= (u64)e->c * 0x9E3779B97F4A7C15ull; h ^= (u64)(e->c>>64); h *= 0xff51afd7ed558ccdull; return h ^ (h>>32); } };
  struct Q { bool operator()(E a, E b) const { return a->op==b->op&&a->w==b->w&&a->lo==b->lo&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]&&a->c==b->c; } };
  std::unordered_set<E,H,Q> tab; std::vector<Expr*> chunk; size_t used = 0; u32 next = 0; std::vector<E> all;
  std::vector<VarInfo> vars;
  E intern(const Expr& t) {
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    if (chunk.empty() || used == 4096) { chunk.push_back((Expr*)malloc(sizeof(Expr)*4096)); used = 0; }
    Expr* e = chunk.back() + used++; *e = t; e->id = next++; 
    if (t.op != VAR) { memset(&e->vars,0,sizeof(Bloom)); u32 s = 1; for (int i=0;i<3;i++) if (e->k[i]) { e->vars.add(e->k[i]->vars); s += e->k[i]->size; if (s > 1000000000u) s = 1000000000u; } e->size = s; }
    tab.insert(e); all.push_back(e); return e; }
};
extern Pool pool;
void knownBits(Expr& t);

inline E mkraw(Op op, u32 w, E a=nullptr, E b=nullptr, E c=nullptr, u32 lo=0, u128 cv=0) { Expr t; memset(&t,0,sizeof t); t.op=op;t.w=w;t.lo=lo;t.k[0]=a;t.k[1]=b;t.k[2]=c;t.c=cv; t.size=1; knownBits(t); if (op!=CONST&&(t.kz|t.ko)==maskw(w)) { u128 v=t.ko; memset(&t,0,sizeof t); t.op=CONST; t.w=w; t.c=v; t.size=1; knownBits(t); } return pool.intern(t); }
inline E mkc(u32 w, u128 v) { return mkraw(CONST,w,nullptr,nullptr,nullptr,0,v & maskw(w)); }
inline E mkvar(const std::string& n, u32 w) { u32 i = pool.vars.size(); pool.vars.push_back({n,w}); Expr t; memset(&t,0,sizeof t); t.op=VAR;t.w=w;t.c=i; t.size=1; t.vars.w[(i>>6)&3] |= 1ull << (i&63); return pool.intern(t); }
inline bool isc(E e) { return e->op==CONST; }
inline bool isc(E e, u128 v) { return e->op==CONST && e->c==(v & maskw(e->w)); }
inline E T() { return mkc(1,1); }
inline E F() { return mkc(1,0); }
E mkbin(Op op, E a, E b);
E mknot(E a);
E mkeq(E a, E b);
E mkcmp(Op op, E a, E b);
E mkite(E c, E a, E b);
E mkext(E a, u32 lo, u32 w);
E mkcat(E hi, E lo);
E mkzext(E a, u32 w);
E mksext(E a, u32 w);
bool evalbin(Op op, u32 w, u128 a, u128 b, u128& r); // false on division by zero
inline E mkand(E a, E b) { return mkbin(AND,a,b); }
inline E mkor(E a, E b) { return mkbin(OR,a,b); }
E mkctpop(E a, u32 rw);
E mkcttz(E a);
E mkctlz(E a);
std::string show(E e, int depth=6);

typedef std::vector<u128> Model; // by variable id; missing = 0
u128 evalE(E e, const Model& m);
