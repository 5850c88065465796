// Control-flow facts of a decoded function: successors, post-dominators, liveness.
#include "ir.hpp"
u32 blockOf(Func* f, u32 pc) { auto it=std::upper_bound(f->blkStart.begin(),f->blkStart.end(),pc); return (u32)(it-f->blkStart.begin())-1; }
Cfg& cfgOf(Func* f) {
  if (f->cfg) return *f->cfg;
  Cfg& g=*(f->cfg=new Cfg); u32 n=f->blkStart.size(); for (u32 i=1;i<n;i++) if (f->blkStart[i]<=f->blkStart[i-1]) die("block order in "+f->name);
  auto endOf=[&](u32 b){ return b+1<n? f->blkStart[b+1] : (u32)f->code.size(); };
  g.succ.resize(n); g.canRet.assign(n,0); g.ipdom.assign(n,-1); g.live.resize(n); std::vector<std::vector<u32>> edges(n), pred(n); std::vector<u32> work;
  for (u32 b=0;b<n;b++) for (u32 i=f->blkStart[b];i<endOf(b);i++) { Ins& x=f->code[i]; auto e=[&](u32 k){ edges[b].push_back(k); };
    switch (x.op) { case I_BR: e(x.x); break; case I_CBR: e(x.x); e((u32)x.imm); break; case I_SWITCH: e(f->sws[x.x].def); for (auto& c: f->sws[x.x].cases) e(c.second); break; case I_CALL: if (f->calls[x.x].normal>=0) e(f->calls[x.x].normal); break; case I_RET: g.canRet[b]=2; break; default: break; } }
  for (u32 b=0;b<n;b++) for (u32 e: edges[b]) { u32 t=blockOf(f,f->edges[e].to); if (std::find(g.succ[b].begin(),g.succ[b].end(),t)==g.succ[b].end()) { g.succ[b].push_back(t); pred[t].push_back(b); } }
  for (u32 b=0;b<n;b++) if (g.canRet[b]) work.push_back(b);
  while (!work.empty()) { u32 b=work.back(); work.pop_back(); for (u32 p: pred[b]) if (!g.canRet[p]) { g.canRet[p]=1; work.push_back(p); } }
  // post-dominators over the reversed graph restricted to returning blocks; node n is the virtual return
  std::vector<int> order(n+1,-1); std::vector<u32> post; { std::vector<std::pair<u32,size_t>> st; std::vector<char> seen(n+1,0); auto preds=[&](u32 v)->std::vector<u32> { std::vector<u32> r; if (v==n) { for (u32 b=0;b<n;b++) if (g.canRet[b]==2) r.push_back(b); } else for (u32 p: pred[v]) if (g.canRet[p]) r.push_back(p); return r; };
    std::vector<std::vector<u32>> pc(n+1); for (u32 v=0;v<=n;v++) pc[v]=preds(v); seen[n]=1; st.push_back({n,0}); while (!st.empty()) { auto& t=st.back(); if (t.second<pc[t.first].size()) { u32 w=pc[t.first][t.second++]; if (!seen[w]) { seen[w]=1; st.push_back({w,0}); } } else { order[t.first]=post.size(); post.push_back(t.first); st.pop_back(); } } }
  std::vector<int> idom(n+1,-1); idom[n]=n; bool ch=true; auto isect=[&](int a,int b){ while (a!=b) { while (order[a]<order[b]) a=idom[a]; while (order[b]<order[a]) b=idom[b]; } return a; };
  while (ch) { ch=false; for (size_t i=post.size();i-->0;) { u32 v=post[i]; if (v==n) continue; int d=-1; auto use=[&](int s){ if (order[s]<0||idom[s]<0) return; d= d<0? s : isect(d,s); }; if (g.canRet[v]==2) use(n); for (u32 s: g.succ[v]) if (g.canRet[s]) use(s); if (d>=0&&idom[v]!=d) { idom[v]=d; ch=true; } } }
  for (u32 b=0;b<n;b++) if (g.canRet[b]) g.ipdom[b]= idom[b]==(int)n? -2 : idom[b];
  // liveness
  u32 W=(f->nslots+63)/64; std::vector<std::vector<u64>> in(n,std::vector<u64>(W,0)); ch=true;
  while (ch) { ch=false; for (u32 b=n;b-->0;) { std::vector<u64> l(W,0); auto set=[&](int32_t o,u32 k){ if (o>=0) for (u32 j=0;j<k;j++) l[(o+j)>>6]|=1ull<<((o+j)&63); }; auto clr=[&](int32_t o,u32 k){ if (o>=0) for (u32 j=0;j<k;j++) l[(o+j)>>6]&=~(1ull<<((o+j)&63)); };
      for (u32 e: edges[b]) { Edge& ed=f->edges[e]; std::vector<u64> t=in[blockOf(f,ed.to)]; for (auto& m: ed.mv) t[m.first>>6]&=~(1ull<<(m.first&63)); for (u32 i=0;i<W;i++) l[i]|=t[i]; }
      for (u32 e: edges[b]) for (auto& m: f->edges[e].mv) set(m.second,1);
      for (u32 i=endOf(b);i-->f->blkStart[b];) { Ins& x=f->code[i]; u32 L=x.lanes;
        switch (x.op) {
          case I_BIN: case I_ICMP: clr(x.dst,L); set(x.a,L); set(x.b,L); break;
          case I_CAST: case I_COPY: clr(x.dst,L); set(x.a,L); break;
          case I_BITCAST: clr(x.dst,L); set(x.a,x.imm); break;
          case I_GEP: clr(x.dst,1); set(x.a,1); for (auto& q: f->geps[x.c]) set(q.op,1); break;
          case I_LOAD: clr(x.dst,L); set(x.a,1); break; case I_STORE: set(x.a,1); set(x.b,L); break;
          case I_CBR: case I_SWITCH: set(x.a,1); break; case I_RET: set(x.a,L); break;
          case I_SELECT: clr(x.dst,L); set(x.a,L); set(x.b,L); set(x.c,x.x); break; case I_ALLOCA: clr(x.dst,1); set(x.a,1); break;
          case I_CALL: { CallInfo& c=f->calls[x.x]; clr(x.dst,c.ret->slots); if (c.fn<0&&!c.intr) set(c.calleeOp,1); for (size_t k=0;k<c.args.size();k++) set(c.args[k],c.argN[k]); break; }
          case I_EXTE: clr(x.dst,1); set(x.a,L); set(x.b,1); break; case I_INSE: clr(x.dst,L); set(x.a,L); set(x.b,1); set(x.c,1); break;
          case I_SHUF: clr(x.dst,L); set(x.a,x.imm); set(x.b,x.imm); break; case I_RMW: clr(x.dst,1); set(x.a,1); set(x.b,1); break; case I_CMPX: clr(x.dst,2); set(x.a,1); set(x.b,1); set(x.c,1); break;
          default: break; } }
      if (l!=in[b]) { in[b]=l; ch=true; } } }
  for (u32 b=0;b<n;b++) for (u32 s=0;s<f->nslots;s++) if (in[b][s>>6]>>(s&63)&1) g.live[b].push_back(s);
  return g; }
