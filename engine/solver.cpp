#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <fstream>
SolverStats SS; int queryTimeoutMs=60000; std::string dumpDir;
static Z3_context ctx; static Z3_solver solver, hard; static std::vector<Z3_ast> memo; static bool init=false;
static void errh(Z3_context c, Z3_error_code e) { die(std::string("z3: ")+Z3_get_error_msg(c,e)); }
static void setup() { if (init) return; init=true; Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,errh); 
  solver=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,solver); hard=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,hard);
  auto set=[&](Z3_solver s,int ms){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); };
  set(solver,1500); set(hard,queryTimeoutMs); }
static Z3_ast num(u32 w, u128 c) { Z3_sort s=Z3_mk_bv_sort(ctx,w); if (w<=64) return Z3_mk_unsigned_int64(ctx,(u64)c,s); std::string d; u128 v=c; if (!v) d="0"; while (v) { d.insert(d.begin(),'0'+(int)(v%10)); v/=10; } return Z3_mk_numeral(ctx,d.c_str(),s); }
// Width-1 expressions are represented as Booleans.
static Z3_ast bv(E e, Z3_ast a) { return e->w==1? Z3_mk_ite(ctx,a,num(1,1),num(1,0)) : a; }
static Z3_ast tr(E root) {
  if (memo.size()<pool.next) memo.resize(pool.next+4096,nullptr);
  std::vector<E> st; st.push_back(root);
  while (!st.empty()) { E e=st.back(); if (memo[e->id]) { st.pop_back(); continue; }
    bool ready=true; for (int i=0;i<3;i++) if (e->k[i]&&!memo[e->k[i]->id]) { st.push_back(e->k[i]); ready=false; } if (!ready) continue; st.pop_back();
    Z3_ast a=e->k[0]?memo[e->k[0]->id]:nullptr, b=e->k[1]?memo[e->k[1]->id]:nullptr, c=e->k[2]?memo[e->k[2]->id]:nullptr, r=nullptr;
    bool b1=e->k[0]&&e->k[0]->w==1; 
    switch (e->op) {
      case CONST: r= e->w==1? (e->c?Z3_mk_true(ctx):Z3_mk_false(ctx)) : num(e->w,e->c); break;
      case VAR: { const VarInfo& v=pool.vars[(u32)e->c]; std::string n="v"+std::to_string((u32)e->c)+"_"+v.name; r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()), v.w==1? Z3_mk_bool_sort(ctx):Z3_mk_bv_sort(ctx,v.w)); break; }
      case ADD: r=Z3_mk_bvadd(ctx,a,b); break; case SUB: r=Z3_mk_bvsub(ctx,a,b); break; case MUL: r=Z3_mk_bvmul(ctx,a,b); break;
      case UDIV: r=Z3_mk_bvudiv(ctx,a,b); break; case SDIV: r=Z3_mk_bvsdiv(ctx,a,b); break; case UREM: r=Z3_mk_bvurem(ctx,a,b); break; case SREM: r=Z3_mk_bvsrem(ctx,a,b); break;
      case AND: if (b1) { Z3_ast x[2]={a,b}; r=Z3_mk_and(ctx,2,x); } else r=Z3_mk_bvand(ctx,a,b); break;
      case OR: if (b1) { Z3_ast x[2]={a,b}; r=Z3_mk_or(ctx,2,x); } else r=Z3_mk_bvor(ctx,a,b); break;
      case XOR: r= b1? Z3_mk_xor(ctx,a,b) : Z3_mk_bvxor(ctx,a,b); break;
      case SHL: r=Z3_mk_bvshl(ctx,a,b); break; case LSHR: r=Z3_mk_bvlshr(ctx,a,b); break; case ASHR: r=Z3_mk_bvashr(ctx,a,b); break;
      case NOT: r=Z3_mk_not(ctx,a); break; case EQ: r=Z3_mk_eq(ctx,a,b); break;
      case ULT: r=Z3_mk_bvult(ctx,a,b); break; case ULE: r=Z3_mk_bvule(ctx,a,b); break; case SLT: r=Z3_mk_bvslt(ctx,a,b); break; case SLE: r=Z3_mk_bvsle(ctx,a,b); break;
      case ITE: r=Z3_mk_ite(ctx,a,b,c); break;
      case CONCAT: r=Z3_mk_concat(ctx,bv(e->k[0],a),bv(e->k[1],b)); break;
      case EXTRACT: r=Z3_mk_extract(ctx,e->lo+e->w-1,e->lo,a); if (e->w==1) r=Z3_mk_eq(ctx,r,num(1,1)); break;
      case ZEXT: r= b1? Z3_mk_ite(ctx,a,num(e->w,1),num(e->w,0)) : Z3_mk_zero_ext(ctx,e->w-e->k[0]->w,a); break;
      case SEXT: r= b1? Z3_mk_ite(ctx,a,num(e->w,~(u128)0),num(e->w,0)) : Z3_mk_sign_ext(ctx,e->w-e->k[0]->w,a); break;
    }
    if (e->w==1 && (e->op==ADD||e->op==SUB||e->op==MUL||e->op==UDIV||e->op==SDIV||e->op==UREM||e->op==SREM||e->op==SHL||e->op==LSHR||e->op==ASHR)) die("1-bit arithmetic reached the solver");
    Z3_inc_ref(ctx,r); memo[e->id]=r; }
  return memo[root->id];
}
static void varsOf(const std::vector<E>& cs, std::vector<E>& out) { static std::vector<u32> seen; static u32 ep=0; ep++; if (seen.size()<pool.next) seen.resize(pool.next+4096,0); std::vector<E> st(cs.begin(),cs.end()); while (!st.empty()) { E e=st.back(); st.pop_back(); if (seen[e->id]==ep) continue; seen[e->id]=ep; if (e->op==VAR) out.push_back(e); for (int i=0;i<3;i++) if (e->k[i]) st.push_back(e->k[i]); } }
Res z3check(const std::vector<E>& cs, std::vector<std::pair<u32,u128>>* out) {
  setup(); auto t0=std::chrono::steady_clock::now(); SS.queries++;
  u64 sz=0; for (E e: cs) sz+=e->size;
  Z3_lbool r=Z3_L_UNDEF; Z3_solver used=solver;
  if (sz<3000) { Z3_solver_reset(ctx,solver); for (E e: cs) Z3_solver_assert(ctx,solver,tr(e)); r=Z3_solver_check(ctx,solver); }
  if (r==Z3_L_UNDEF) { used=hard; Z3_solver_reset(ctx,hard); for (E e: cs) Z3_solver_assert(ctx,hard,tr(e)); r=Z3_solver_check(ctx,hard); }
  if (!dumpDir.empty()) { std::ofstream f(dumpDir+"/q"+std::to_string(SS.queries)+".smt2"); f<<"(set-info :status "<<(r==Z3_L_TRUE?"sat":r==Z3_L_FALSE?"unsat":"unknown")<<")\n"<<Z3_solver_to_string(ctx,used)<<"(check-sat)\n"; }
  Res res= r==Z3_L_TRUE?SAT: r==Z3_L_FALSE?UNSAT:UNKNOWN;
  if (res==SAT) { SS.sat++; if (out) { Z3_model m=Z3_solver_get_model(ctx,used); Z3_model_inc_ref(ctx,m); std::vector<E> vs; varsOf(cs,vs);
      for (E v: vs) { Z3_ast val; if (!Z3_model_eval(ctx,m,tr(v),true,&val)) die("model eval"); u128 x=0; if (v->w==1) x= Z3_get_bool_value(ctx,val)==Z3_L_TRUE; else { const char* s=Z3_get_numeral_string(ctx,val); for (;*s;s++) x=x*10+(*s-'0'); } out->push_back({(u32)v->c,x}); }
      Z3_model_dec_ref(ctx,m); } }
  else if (res==UNSAT) SS.unsat++; else SS.unknown++;
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); SS.time+=dt; if (dt>SS.maxTime) SS.maxTime=dt;
  return res;
}
