#include "expr.hpp"
Pool pool;
bool evalbin(Op op, u32 w, u128 a, u128 b, u128& r) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: r = a+b; break; case SUB: r = a-b; break; case MUL: r = a*b; break;
    case UDIV: if (!b) return false; r = a/b; break;
    case UREM: if (!b) return false; r = a%b; break;
    case SDIV: { if (!b) return false; i128 x=sextw(a,w), y=sextw(b,w); r = (y==-1) ? (u128)0-(u128)x : (u128)(x/y); break; }
    case SREM: { if (!b) return false; i128 x=sextw(a,w), y=sextw(b,w); r = (y==-1) ? 0 : (u128)(x%y); break; }
    case AND: r=a&b; break; case OR: r=a|b; break; case XOR: r=a^b; break;
    case SHL: r = b>=w ? 0 : a<<(u32)b; break;
    case LSHR: r = b>=w ? 0 : (a&m)>>(u32)b; break;
    case ASHR: r = (u128)(sextw(a,w) >> (b>=w ? w-1 : (u32)b)); break;
    default: die("evalbin");
  }
  r &= m; return true;
}
static u128 upto(u128 v) { u32 n=0; while (v) { n++; v>>=1; } return maskw(n); } // all-ones of the bit length of v
static void addCarry(u128 az, u128 ao, u128 bz, u128 bo, u32 cin, u128 m, u128& kz, u128& ko) {
  u128 hi=((~az&m)+(~bz&m)+cin)&m, lo=(ao+bo+cin)&m; u128 ck=~(hi^az^bz)|(lo^ao^bo); u128 k=(az|ao)&(bz|bo)&ck&m; kz=~hi&k; ko=lo&k; }
void knownBits(Expr& t) {
  u32 w=t.w; u128 m=maskw(w), z=0, o=0; E a=t.k[0], b=t.k[1]; auto mx=[](E e){ return ~e->kz&maskw(e->w); };
  switch (t.op) {
    case CONST: o=t.c; z=~t.c&m; break; case VAR: break;
    case ADD: addCarry(a->kz,a->ko,b->kz,b->ko,0,m,z,o); break;
    case SUB: addCarry(a->kz,a->ko,b->ko,b->kz,1,m,z,o); break;
    case MUL: if (w<=64) { u128 p=mx(a)*mx(b); if (p<=m) z=~upto(p)&m; } { u128 q=0; while (q<w&&(a->kz>>(u32)q&1)) q++; u32 n=(u32)q; q=0; while (q<w&&(b->kz>>(u32)q&1)) q++; n+=(u32)q; if (n) z|=maskw(std::min(n,w)); z&=m; } break;
    case UDIV: if (b->ko) z=~upto(mx(a)/b->ko)&m; break;
    case UREM: if (b->ko) z=~upto(std::min(mx(a),mx(b)-1))&m; else z=0; break;
    case SDIV: case SREM: break;
    case AND: o=a->ko&b->ko; z=a->kz|b->kz; break; case OR: o=a->ko|b->ko; z=a->kz&b->kz; break;
    case XOR: o=(a->ko&b->kz)|(a->kz&b->ko); z=(a->kz&b->kz)|(a->ko&b->ko); break;
    case SHL: if (isc(b)&&b->c<w) { z=(a->kz<<(u32)b->c|maskw((u32)b->c))&m; o=a->ko<<(u32)b->c&m; if (b->c==0) { z=a->kz; o=a->ko; } } else if (!isc(b)) { u32 n=0; while (n<w&&(a->kz>>n&1)) n++; n= b->ko>=w? w : std::min<u32>(w,n+(u32)b->ko); if (n) z=maskw(n); } break;
    case LSHR: if (isc(b)&&b->c<w) { u32 s=(u32)b->c; z=a->kz>>s|(m&~(m>>s)); o=a->ko>>s; } else if (!isc(b)) { u128 h=mx(a); if (b->ko>=w) h=0; else h>>=(u32)b->ko; z=~upto(h)&m; } break;
    case ASHR: break;
    case NOT: z=a->ko; o=a->kz; break;
    case EQ: if ((a->ko&b->kz)|(a->kz&b->ko)) z=1; break;
    case ULT: if (mx(a)<b->ko) o=1; else if (a->ko>=mx(b)) z=1; break;
    case ULE: if (mx(a)<=b->ko) o=1; else if (a->ko>mx(b)) z=1; break;
    case SLT: case SLE: { u128 s=(u128)1<<(a->w-1); if ((a->kz&s)&&(b->kz&s)) { if (t.op==SLT) { if (mx(a)<b->ko) o=1; else if (a->ko>=mx(b)) z=1; } else { if (mx(a)<=b->ko) o=1; else if (a->ko>mx(b)) z=1; } } else if ((a->ko&s)&&(b->kz&s)) o=1; else if ((a->kz&s)&&(b->ko&s)) z=1; break; }
    case ITE: o=b->ko&t.k[2]->ko; z=b->kz&t.k[2]->kz; break;
    case CONCAT: z=a->kz<<b->w|b->kz; o=a->ko<<b->w|b->ko; break;
    case EXTRACT: z=(a->kz>>t.lo)&m; o=(a->ko>>t.lo)&m; break;
    case ZEXT: z=a->kz|(m&~maskw(a->w)); o=a->ko; break;
    case SEXT: z=a->kz; o=a->ko; { u128 h=m&~maskw(a->w), s=(u128)1<<(a->w-1); if (z&s) z|=h; if (o&s) o|=h; } break;
  }
  t.kz=z; t.ko=o; if (z&o) die("internal: contradictory known bits"); }
static bool constLeaves(E e, int& budget) { if (--budget<0) return false; if (isc(e)) return true; if (e->op==ITE) return constLeaves(e->k[1],budget)&&constLeaves(e->k[2],budget); return false; }
static bool smallIte(E e) { if (e->op!=ITE) return false; int b=24; return constLeaves(e,b); }
template<class Fn> static E liftIte(E e, Fn f) { if (e->op==ITE) return mkite(e->k[0], liftIte(e->k[1],f), liftIte(e->k[2],f)); return f(e); }

static bool contigLow(u128 v, u32& n) { n=0; while (v&1) { n++; v>>=1; } return v==0; }

E mkbin(Op op, E a, E b) {
  u32 w = a->w; if (w != b->w) die("mkbin width mismatch");
  u128 m = maskw(w), r;
  if (isc(a)&&isc(b)) { if (evalbin(op,w,a->c,b->c,r)) return mkc(w,r); return mkraw(op,w,a,b); }
  bool comm = op==ADD||op==MUL||op==AND||op==OR||op==XOR;
  if (comm && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a,b);
  if (isc(b) && smallIte(a)) return liftIte(a,[&](E x){ return mkbin(op,x,b); });
  if (isc(a) && smallIte(b)) return liftIte(b,[&](E x){ return mkbin(op,a,x); });
  switch (op) {
    case ADD:
      if (isc(b,0)) return a;
      if (w==1) return mkbin(XOR,a,b);
      if (isc(b)&&a->op==ADD&&isc(a->k[1])) return mkbin(ADD,a->k[0],mkc(w,a->k[1]->c+b->c));
      if (a->op==SUB && a->k[1]==b) return a->k[0];
      if (b->op==SUB && b->k[1]==a) return b->k[0];
      if (isc(b)&&a->op==SUB&&isc(a->k[0])) return mkbin(SUB,mkc(w,a->k[0]->c+b->c),a->k[1]);
      break;
    case SUB:
      if (a==b) return mkc(w,0);
      if (isc(b)) return mkbin(ADD,a,mkc(w,(u128)0-b->c));
      if (w==1) return mkbin(XOR,a,b);
      if (a->op==ADD && a->k[0]==b) return a->k[1];
      if (a->op==ADD && a->k[1]==b) return a->k[0];
      break;
    case MUL:
      if (isc(b,0)) return b; if (isc(b,1)) return a;
      if (w==1) return mkbin(AND,a,b);
      if (isc(b) && (b->c & (b->c-1))==0) { u32 s=0; u128 v=b->c; while(!(v&1)){v>>=1;s++;} return mkbin(SHL,a,mkc(w,s)); }
      break;
    case UDIV: if (isc(b,1)) return a;
      if (isc(b) && b->c && (b->c&(b->c-1))==0) { u32 s=0; u128 v=b->c; while(!(v&1)){v>>=1;s++;} return mkbin(LSHR,a,mkc(w,s)); } break;
    case UREM: if (isc(b,1)) return mkc(w,0);
      if (isc(b) && b->c && (b->c&(b->c-1))==0) return mkbin(AND,a,mkc(w,b->c-1)); break;
    case AND: {
      if (a==b) return a; if (isc(b,0)) return b; if (isc(b,m)) return a;
      if (w==1) { if (a->op==NOT&&a->k[0]==b) return F(); if (b->op==NOT&&b->k[0]==a) return F();
        if (a->op==AND && (a->k[0]==b||a->k[1]==b)) return a; if (b->op==AND && (b->k[0]==a||b->k[1]==a)) return b; }
      if (isc(b) && a->op==AND && isc(a->k[1])) return mkbin(AND,a->k[0],mkc(w,a->k[1]->c&b->c));
      u32 n; if (isc(b)&&contigLow(b->c,n)) return mkzext(mkext(a,0,n),w);
      if (isc(b) && w>1) { // contiguous field mask
        u32 s=0; u128 v=b->c; while(!(v&1)){v>>=1;s++;} u32 n2; if (contigLow(v,n2)) { E mid = mkext(a,s,n2); E x = s? mkcat(mid,mkc(s,0)) : mid; return mkzext(x,w); }
        if (a->op==OR||a->op==XOR) if (isc(a->k[1])&&a->op==OR && (a->k[1]->c & b->c)==0) return mkbin(AND,a->k[0],b);
      }
      break; }
    case OR:
      if (a==b) return a; if (isc(b,0)) return a; if (isc(b,m)) return b;
      if (w==1) { if (a->op==NOT&&a->k[0]==b) return T(); if (b->op==NOT&&b->k[0]==a) return T();
        if (a->op==OR && (a->k[0]==b||a->k[1]==b)) return a; if (b->op==OR && (b->k[0]==a||b->k[1]==a)) return b; }
      if (isc(b) && a->op==OR && isc(a->k[1])) return mkbin(OR,a->k[0],mkc(w,a->k[1]->c|b->c));
      // zext(x) | (y << k) with disjoint bits -> concat
      if (w>1) { E x=a,y=b; for (int t=0;t<2;t++,std::swap(x,y)) {
          if (x->op==ZEXT && y->op==CONCAT && isc(y->k[1],0) && x->k[0]->w<=y->k[1]->w) { u32 zl=y->k[1]->w; return mkcat(y->k[0], mkzext(x->k[0],zl)); }
          if (x->op==ZEXT && y->op==ZEXT && y->k[0]->op==CONCAT && isc(y->k[0]->k[1],0) && x->k[0]->w<=y->k[0]->k[1]->w) { E c=y->k[0]; return mkzext(mkcat(c->k[0], mkzext(x->k[0],c->k[1]->w)), w); } } }
      break;
    case XOR:
      if (a==b) return mkc(w,0); if (isc(b,0)) return a;
      if (w==1 && isc(b,1)) return mknot(a);
      if (isc(b) && a->op==XOR && isc(a->k[1])) return mkbin(XOR,a->k[0],mkc(w,a->k[1]->c^b->c));
      break;
    case SHL:
      if (isc(b)) { if (b->c==0) return a; if (b->c>=w) return mkc(w,0); u32 s=(u32)b->c; return mkcat(mkext(a,0,w-s),mkc(s,0)); }
      if (isc(a,0)) return a; break;
    case LSHR:
      if (isc(b)) { if (b->c==0) return a; if (b->c>=w) return mkc(w,0); u32 s=(u32)b->c; return mkzext(mkext(a,s,w-s),w); }
      if (isc(a,0)) return a; break;
    case ASHR:
      if (isc(b)) { if (b->c==0) return a; u32 s = b->c>=w ? w-1 : (u32)b->c; return mksext(mkext(a,s,w-s),w); }
      break;
    default: break;
  }
  return mkraw(op,w,a,b);
}
E mknot(E a) {
  if (a->w!=1) { return mkbin(XOR,a,mkc(a->w,maskw(a->w))); }
  if (isc(a)) return mkc(1,!a->c);
  if (a->op==NOT) return a->k[0];
  if (a->op==ULT) return mkcmp(ULE,a->k[1],a->k[0]);
  if (a->op==ULE) return mkcmp(ULT,a->k[1],a->k[0]);
  if (a->op==SLT) return mkcmp(SLE,a->k[1],a->k[0]);
  if (a->op==SLE) return mkcmp(SLT,a->k[1],a->k[0]);
  if (a->op==ITE && (isc(a->k[1])||isc(a->k[2]))) return mkite(a->k[0],mknot(a->k[1]),mknot(a->k[2]));
  return mkraw(NOT,1,a);
}
E mkeq(E a, E b) {
  if (a->w!=b->w) die("mkeq width");
  if (a==b) return T();
  if (isc(a)&&isc(b)) return mkc(1,a->c==b->c);
  if (isc(a)) std::swap(a,b);
  else if (!isc(b) && a->id>b->id) std::swap(a,b);
  u32 w=a->w;
  if (w==1) { if (isc(b)) return b->c? a : mknot(a); if (a->op==NOT&&a->k[0]==b) return F(); if (b->op==NOT&&b->k[0]==a) return F(); }
  if (isc(b)) {
    switch (a->op) {
      case ITE: if (smallIte(a) || isc(a->k[1]) || isc(a->k[2])) return mkite(a->k[0],mkeq(a->k[1],b),mkeq(a->k[2],b)); break;
      case ZEXT: { u32 kw=a->k[0]->w; if (b->c>>kw) return F(); return mkeq(a->k[0],mkc(kw,b->c)); }
      case SEXT: { u32 kw=a->k[0]->w; u128 t=b->c&maskw(kw); if (((u128)sextw(t,kw)&maskw(w))!=b->c) return F(); return mkeq(a->k[0],mkc(kw,t)); }
      case CONCAT: { u32 lw=a->k[1]->w; E l=mkeq(a->k[1],mkc(lw,b->c)); if (isc(l,0)) return l; return mkand(mkeq(a->k[0],mkc(a->k[0]->w,b->c>>lw)), l); }
      case ADD: if (isc(a->k[1])) return mkeq(a->k[0],mkc(w,b->c-a->k[1]->c)); break;
      case SUB: if (isc(a->k[0])) return mkeq(a->k[1],mkc(w,a->k[0]->c-b->c)); break;
      case XOR: if (isc(a->k[1])) return mkeq(a->k[0],mkc(w,b->c^a->k[1]->c)); break;
      case AND: if (isc(a->k[1]) && (b->c & ~a->k[1]->c)) return F(); break;
      case OR: if (isc(a->k[1]) && (~b->c & a->k[1]->c)) return F(); if (b->c==0) return mkand(mkeq(a->k[0],b),mkeq(a->k[1],b)); break;
      default: break;
    }
  } else {
    if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mkeq(a->k[0],b->k[0]);
    if (a->op==CONCAT&&b->op==CONCAT&&a->k[1]->w==b->k[1]->w) return mkand(mkeq(a->k[0],b->k[0]),mkeq(a->k[1],b->k[1]));
    if (a->op==ADD&&isc(a->k[1])&&a->k[0]==b) return F();
    if (b->op==ADD&&isc(b->k[1])&&b->k[0]==a) return F();
    if (a->op==ADD&&b->op==ADD&&isc(a->k[1])&&isc(b->k[1])&&a->k[0]==b->k[0]) return mkc(1,a->k[1]->c==b->k[1]->c);
    if (a->op==ITE && (a->k[1]==b)) return mkor(a->k[0], mkeq(a->k[2],b));
    if (b->op==ITE && (b->k[1]==a)) return mkor(b->k[0], mkeq(b->k[2],a));
    if (a->op==ITE && (a->k[2]==b)) return mkor(mknot(a->k[0]), mkeq(a->k[1],b));
    if (b->op==ITE && (b->k[2]==a)) return mkor(mknot(b->k[0]), mkeq(b->k[1],a));
  }
  return mkraw(EQ,1,a,b);
}
E mkcmp(Op op, E a, E b) {
  if (op==EQ) return mkeq(a,b);
  if (a->w!=b->w) die("mkcmp width");
  u32 w=a->w; u128 m=maskw(w);
  if (isc(a)&&isc(b)) { bool r; switch(op){case ULT:r=a->c<b->c;break;case ULE:r=a->c<=b->c;break;case SLT:r=sextw(a->c,w)<sextw(b->c,w);break;case SLE:r=sextw(a->c,w)<=sextw(b->c,w);break;default:die("cmp");} return mkc(1,r); }
  if (a==b) return mkc(1,op==ULE||op==SLE);
  if (isc(b)&&smallIte(a)) return liftIte(a,[&](E x){return mkcmp(op,x,b);});
  if (isc(a)&&smallIte(b)) return liftIte(b,[&](E x){return mkcmp(op,a,x);});
  if (w==1) { // unsigned: a<b = !a&b ; signed reversed
    if (op==ULT) return mkand(mknot(a),b); if (op==ULE) return mkor(mknot(a),b);
    if (op==SLT) return mkand(a,mknot(b)); if (op==SLE) return mkor(a,mknot(b)); }
  if (op==ULT) {
    if (isc(b,0)) return F(); if (isc(b,1)) return mkeq(a,mkc(w,0)); if (isc(a,m)) return F();
    if (isc(a,0)) return mknot(mkeq(b,a));
    if (isc(b,m)) return mknot(mkeq(a,b));
  }
  if (op==ULE) { if (isc(a,0)) return T(); if (isc(b,m)) return T(); if (isc(b,0)) return mkeq(a,b); if (isc(a,m)) return mkeq(a,b);
    if (isc(a,1)) return mknot(mkeq(b,mkc(w,0)));
    if (isc(b)) return mkcmp(ULT,a,mkc(w,b->c+1)); }
  if (op==SLE && isc(b) && b->c!=(m>>1)) return mkcmp(SLT,a,mkc(w,b->c+1));
  if (a->op==ZEXT && b->op==ZEXT && a->k[0]->w==b->k[0]->w) { Op o = op==SLT?ULT: op==SLE?ULE: op; return mkcmp(o,a->k[0],b->k[0]); }
  if (a->op==ZEXT && isc(b)) { u32 kw=a->k[0]->w; bool neg = (op==SLT||op==SLE) && (b->c>>(w-1)); if (neg) return F(); if (b->c>>kw) return T(); Op o = op==SLT?ULT: op==SLE?ULE: op; return mkcmp(o,a->k[0],mkc(kw,b->c)); }
  if (b->op==ZEXT && isc(a)) { u32 kw=b->k[0]->w; bool neg = (op==SLT||op==SLE) && (a->c>>(w-1)); if (neg) return T(); if (a->c>>kw) return F(); Op o = op==SLT?ULT: op==SLE?ULE: op; return mkcmp(o,mkc(kw,a->c),b->k[0]); }
  return mkraw(op,1,a,b);
}
E mkite(E c, E a, E b) {
  if (isc(c)) return c->c? a : b;
  if (a==b) return a;
  if (c->op==NOT) return mkite(c->k[0],b,a);
  if (a->w==1) {
    if (isc(a)) return a->c ? mkor(c,b) : mkand(mknot(c),b);
    if (isc(b)) return b->c ? mkor(mknot(c),a) : mkand(c,a);
    if (a==c) return mkor(c,b); if (b==c) return mkand(c,a);
  }
  if (a->op==ITE && a->k[0]==c) a=a->k[1];
  if (b->op==ITE && b->k[0]==c) b=b->k[2];
  if (a==b) return a;
  if (b->op==ITE && b->k[1]==a) return mkite(mkor(c,b->k[0]),a,b->k[2]);
  if (a->op==ITE && a->k[1]==b) return mkite(mkand(c,mknot(a->k[0])),a->k[2],b);
  if (a->op==ITE && a->k[2]==b) return mkite(mkand(c,a->k[0]),a->k[1],b);
  return mkraw(ITE,a->w,c,a,b);
}
E mkext(E a, u32 lo, u32 w) {
  if (lo==0&&w==a->w) return a;
  if (w==0||lo+w>a->w) die("mkext range");
  switch (a->op) {
    case CONST: return mkc(w,a->c>>lo);
    case EXTRACT: return mkext(a->k[0],a->lo+lo,w);
    case CONCAT: { u32 lw=a->k[1]->w; if (lo+w<=lw) return mkext(a->k[1],lo,w); if (lo>=lw) return mkext(a->k[0],lo-lw,w); return mkcat(mkext(a->k[0],0,lo+w-lw),mkext(a->k[1],lo,lw-lo)); }
    case ZEXT: { u32 kw=a->k[0]->w; if (lo+w<=kw) return mkext(a->k[0],lo,w); if (lo>=kw) return mkc(w,0); return mkzext(mkext(a->k[0],lo,kw-lo),w); }
    case SEXT: { u32 kw=a->k[0]->w; if (lo+w<=kw) return mkext(a->k[0],lo,w); if (lo<kw) return mksext(mkext(a->k[0],lo,kw-lo),w); return mksext(mkext(a->k[0],kw-1,1),w); }
    case AND: case OR: case XOR: if (isc(a->k[1]) || a->size<40) return mkbin(a->op,mkext(a->k[0],lo,w),mkext(a->k[1],lo,w)); break;
    case ADD: case SUB: case MUL: if (lo==0 && (isc(a->k[1]) || a->size<40)) return mkbin(a->op,mkext(a->k[0],0,w),mkext(a->k[1],0,w)); break;
    case ITE: if (smallIte(a) || isc(a->k[1]) || isc(a->k[2])) return mkite(a->k[0],mkext(a->k[1],lo,w),mkext(a->k[2],lo,w)); break;
    default: break;
  }
  return mkraw(EXTRACT,w,a,nullptr,nullptr,lo);
}
E mkcat(E hi, E lo) {
  u32 w=hi->w+lo->w; if (w>128) die("concat wider than 128");
  if (isc(hi)&&isc(lo)) return mkc(w,(hi->c<<lo->w)|lo->c);
  if (isc(hi,0)) return mkzext(lo,w);
  if (hi->op==EXTRACT&&lo->op==EXTRACT&&hi->k[0]==lo->k[0]&&hi->lo==lo->lo+lo->w) return mkext(hi->k[0],lo->lo,w);
  if (hi->op==EXTRACT&&hi->k[0]==lo&&hi->lo==lo->w) return mkext(lo,0,w); // impossible, kept for symmetry
  if (lo->op==CONCAT) return mkcat(mkcat(hi,lo->k[0]),lo->k[1]);
  if (hi->op==CONCAT && hi->k[1]->op==EXTRACT && lo->op==EXTRACT && hi->k[1]->k[0]==lo->k[0] && hi->k[1]->lo==lo->lo+lo->w) return mkcat(hi->k[0],mkext(lo->k[0],lo->lo,lo->w+hi->k[1]->w));
  if (hi->op==CONCAT && isc(hi->k[1]) && isc(lo)) return mkcat(hi->k[0],mkcat(hi->k[1],lo));
  if (hi->op==ZEXT) return mkzext(mkcat(hi->k[0],lo),w);
  if (hi->op==ITE && lo->op==ITE && hi->k[0]==lo->k[0]) return mkite(hi->k[0],mkcat(hi->k[1],lo->k[1]),mkcat(hi->k[2],lo->k[2]));
  return mkraw(CONCAT,w,hi,lo);
}
E mkzext(E a, u32 w) {
  if (a->w==w) return a; if (a->w>w) die("zext");
  if (isc(a)) return mkc(w,a->c);
  if (a->op==ZEXT) return mkzext(a->k[0],w);
  if (smallIte(a)) return liftIte(a,[&](E x){return mkzext(x,w);});
  return mkraw(ZEXT,w,a);
}
E mksext(E a, u32 w) {
  if (a->w==w) return a;
  if (isc(a)) return mkc(w,(u128)sextw(a->c,a->w));
  if (a->op==SEXT) return mksext(a->k[0],w);
  if (a->op==ZEXT) return mkzext(a->k[0],w);
  if (smallIte(a)) return liftIte(a,[&](E x){return mksext(x,w);});
  if (a->w==1) return mkite(a,mkc(w,~(u128)0),mkc(w,0));
  return mkraw(SEXT,w,a);
}
E mkctpop(E a, u32 rw) {
  u32 w=a->w; std::vector<E> v; for (u32 i=0;i<w;i++) v.push_back(mkext(a,i,1));
  // balanced adder tree with growing widths
  u32 cw=1;
  while (v.size()>1) { cw++; std::vector<E> n; for (size_t i=0;i+1<v.size();i+=2) n.push_back(mkbin(ADD,mkzext(v[i],cw),mkzext(v[i+1],cw))); if (v.size()&1) n.push_back(mkzext(v.back(),cw)); v=n; }
  return v[0]->w<=rw ? mkzext(v[0],rw) : mkext(v[0],0,rw);
}
E mkcttz(E a) { // value w if zero
  u32 w=a->w; std::function<E(E)> go=[&](E x)->E { // result of width 8, x->w if zero
    u32 n=x->w; if (n==1) return mkite(x,mkc(8,0),mkc(8,1)); u32 h=n/2; if (n%2) h=1; E lo=mkext(x,0,h), hi=mkext(x,h,n-h);
    return mkite(mkeq(lo,mkc(h,0)), mkbin(ADD,go(hi),mkc(8,h)), go(lo)); };
  E r=go(a); return w<=8 ? mkext(r,0,w) : mkzext(r,w);
}
E mkctlz(E a) {
  u32 w=a->w; std::function<E(E)> go=[&](E x)->E { u32 n=x->w; if (n==1) return mkite(x,mkc(8,0),mkc(8,1)); u32 h=n/2; E lo=mkext(x,0,h), hi=mkext(x,h,n-h);
    return mkite(mkeq(hi,mkc(n-h,0)), mkbin(ADD,go(lo),mkc(8,n-h)), go(hi)); };
  E r=go(a); return w<=8 ? mkext(r,0,w) : mkzext(r,w);
}
static const char* opn[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","not","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext"};
std::string show(E e, int d) {
  char b[64]; if (e->op==CONST) { snprintf(b,64,"%llu:%u",(unsigned long long)e->c,e->w); return b; }
  if (e->op==VAR) return pool.vars[(u32)e->c].name;
  if (d==0) return "..";
  std::string s="("; s+=opn[e->op]; if (e->op==EXTRACT) { snprintf(b,64," %u+%u",e->lo,e->w); s+=b; } if (e->op==ZEXT||e->op==SEXT) { snprintf(b,64," %u",e->w); s+=b; }
  for (int i=0;i<3;i++) if (e->k[i]) s+=" "+show(e->k[i],d-1); return s+")";
}
static std::vector<u128> memoV; static std::vector<u32> memoE; static u32 epoch=0;
u128 evalE(E root, const Model& m) {
  if (isc(root)) return root->c;
  epoch++; if (memoV.size()<pool.next) { memoV.resize(pool.next+1024); memoE.resize(pool.next+1024,0); }
  std::vector<E> st; st.push_back(root);
  while (!st.empty()) {
    E e=st.back(); if (memoE[e->id]==epoch) { st.pop_back(); continue; }
    if (e->op==CONST) { memoV[e->id]=e->c; memoE[e->id]=epoch; st.pop_back(); continue; }
    if (e->op==VAR) { u32 i=(u32)e->c; memoV[e->id]= i<m.size()? m[i]&maskw(e->w) : 0; memoE[e->id]=epoch; st.pop_back(); continue; }
    if (e->op==ITE) { E c=e->k[0]; if (memoE[c->id]!=epoch) { st.push_back(c); continue; } E x = memoV[c->id]? e->k[1]:e->k[2]; if (memoE[x->id]!=epoch) { st.push_back(x); continue; } memoV[e->id]=memoV[x->id]; memoE[e->id]=epoch; st.pop_back(); continue; }
    bool ready=true; for (int i=0;i<3;i++) if (e->k[i]&&memoE[e->k[i]->id]!=epoch) { st.push_back(e->k[i]); ready=false; }
    if (!ready) continue;
    u128 a=memoV[e->k[0]->id], b=e->k[1]?memoV[e->k[1]->id]:0, r=0; u32 kw=e->k[0]->w;
    switch (e->op) {
      case NOT: r=!a; break; case EQ: r=a==b; break; case ULT: r=a<b; break; case ULE: r=a<=b; break;
      case SLT: r=sextw(a,kw)<sextw(b,kw); break; case SLE: r=sextw(a,kw)<=sextw(b,kw); break;
      case CONCAT: r=(a<<e->k[1]->w)|b; break; case EXTRACT: r=(a>>e->lo)&maskw(e->w); break;
      case ZEXT: r=a; break; case SEXT: r=(u128)sextw(a,kw)&maskw(e->w); break;
      default: if (!evalbin(e->op,e->w,a,b,r)) { // SMT-LIB division by zero
          r = e->op==UDIV ? maskw(e->w) : e->op==SDIV ? (sextw(a,kw)<0 ? 1 : maskw(e->w)) : a; }
    }
    memoV[e->id]=r; memoE[e->id]=epoch; st.pop_back();
  }
  return memoV[root->id];
}
