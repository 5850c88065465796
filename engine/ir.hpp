// Textual LLVM IR reader: types, globals and lazily decoded function bodies.
#pragma once
#include "expr.hpp"
#include <string_view>

struct Type { enum K { Void, Int, Ptr, Arr, Struct, Vec, Other } k = Void; u32 w = 0; u64 n = 0; std::vector<Type*> f; bool packed = false;
  u64 size = 0, align = 1; std::vector<u64> offs; u32 slots = 0; std::vector<u32> leafW; std::vector<u64> leafOff; std::string str; };

struct Val { u64 c; E e; };

enum IOp : u8 { I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET, I_SELECT, I_CAST, I_EXTV, I_INSV, I_ALLOCA, I_UNREACH, I_RMW, I_CMPX, I_COPY, I_SHUF, I_EXTE, I_INSE, I_BITCAST, I_NOP, I_UNSUP };
enum Intr : u16 { N_NONE, N_MEMCPY, N_MEMMOVE, N_MEMSET, N_ASSUME, N_NOP, N_FSHL, N_FSHR, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_USUBSAT, N_UADDSAT, N_SSUBSAT, N_SADDSAT, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO,
  N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_BITREV, N_ABS, N_UCMP, N_SCMP, N_ID, N_TRAP, N_EXPECT, N_OBJSIZE, N_VREDUCE_OR, N_VREDUCE_AND, N_VREDUCE_ADD, N_VREDUCE_XOR, N_VREDUCE_UMAX, N_VREDUCE_UMIN, N_UNSUP };

struct GepIdx { int32_t op; u64 scale; u32 w; };
struct Edge { u32 to; std::vector<std::pair<int32_t,int32_t>> mv; };
struct CallInfo { int32_t fn = -1; int32_t calleeOp = 0; Intr intr = N_NONE; std::vector<int32_t> args; std::vector<u32> argN; std::vector<u32> argW; Type* ret = nullptr; int32_t normal = -1; std::string name; std::string sig; };
struct Ins { IOp op; u8 sub; u8 cast; u32 w; u32 lanes; int32_t dst; int32_t a, b, c; u32 x; u64 imm; Type* ty; u32 line; };
struct SwitchInfo { std::vector<std::pair<u64,u32>> cases; u32 def; };

struct Func { std::string name, dem; bool decl = true; u32 idx = 0; size_t l0 = 0, l1 = 0; bool parsed = false; Type* ret = nullptr; std::vector<Type*> ptys; std::vector<std::string> pnames;
  std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> sws; std::vector<std::vector<GepIdx>> geps; std::vector<std::vector<int>> masks; std::vector<std::string> msgs;
  u32 nslots = 0; std::vector<u32> slotW, blkStart; struct Cfg* cfg = nullptr; std::vector<int32_t> pslot; int handler = 0; u64 nexec = 0; bool isRepo = false; };

struct Global { std::string name; Type* ty = nullptr; bool constant = false; bool external = false; bool tls = false; std::string init; u64 align = 1; u32 obj = 0; };

struct Module { std::vector<std::string> lines; std::unordered_map<std::string,u32> fnByName; std::vector<Func*> fns; std::unordered_map<std::string,u32> glByName; std::vector<Global*> globals;
  std::unordered_map<std::string,Type*> types; std::unordered_map<std::string,std::string> aliases;
  void load(const std::string& path); void parseBody(Func* f); Type* type(const std::string& s); };
extern Module M;

// Address layout: object id in the upper half, offset in the lower 32 bits; functions have their own range.
inline u64 fnAddr(u32 idx) { return (1ull << 60) | ((u64)idx << 4); }
inline bool isFnAddr(u64 a) { return (a >> 60) == 1; }
inline u64 objAddr(u32 id) { return (u64)id << 32; }

// Control-flow facts used for state merging: immediate post-dominators (over blocks that can return) and live-in slots.
struct Cfg { std::vector<std::vector<u32>> succ; std::vector<char> canRet; std::vector<int> ipdom; /* -1 none, -2 the return */ std::vector<std::vector<u32>> live; };
Cfg& cfgOf(Func* f);
u32 blockOf(Func* f, u32 pc);
