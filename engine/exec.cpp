#include <cmath>
#include "exec.h"
#include "driver.h"
using namespace llvm;

// ------------------------------------------------------------------ intrinsics
enum In { N_none, N_nop, N_nop_ret0, N_ret_first, N_malloc, N_calloc, N_new, N_newal, N_newarr, N_newarral, N_del, N_delarr, N_free, N_memcpy, N_memset, N_memcmp, N_strlen, N_strcmp,
 N_sym, N_assume, N_assert, N_fail, N_cover, N_spawn, N_join, N_yield, N_tid, N_noleak, N_unwind, N_now, N_tick, N_liveheap, N_depth, N_threads, N_lock, N_trylock, N_unlock, N_mdestroy, N_cwait, N_ctimed, N_csignal, N_cbcast, N_cnop, N_self,
 N_terminate, N_assertfail, N_abort, N_pure, N_guardacq, N_guardrel, N_lifestart, N_lifeend, N_expect, N_tls, N_typeid, N_ovf, N_minmax, N_abs, N_ctlz, N_cttz, N_ctpop, N_bswap, N_satsub, N_satadd, N_fshl, N_objsize, N_isconst, N_trap, N_hwc, N_counter, N_isleak, N_state, N_timedisable, N_fence, N_merge, N_aggid, N_dyncast };
static const char* base(Ex&E,State&s,u64 p,std::string&out){ out.clear(); for(int i=0;i<300;i++){ int idx; Object*o=E.lookup(s,p+i,idx); if(!o) break; u8 c=o->d[p+i-o->base]; if(!c) break; out+=(char)c; } return out.c_str(); }
static int classify(const std::string&n){
  static std::map<std::string,int> m={{"malloc",N_malloc},{"calloc",N_calloc},{"_Znwm",N_new},{"_ZnwmSt11align_val_t",N_newal},{"_Znam",N_newarr},{"_ZnamSt11align_val_t",N_newarral},{"_ZnwmRKSt9nothrow_t",N_new},{"_ZnamRKSt9nothrow_t",N_newarr},{"_ZnwmSt11align_val_tRKSt9nothrow_t",N_newal},
   {"_ZdlPv",N_del},{"_ZdlPvm",N_del},{"_ZdlPvSt11align_val_t",N_del},{"_ZdlPvmSt11align_val_t",N_del},{"_ZdlPvRKSt9nothrow_t",N_del},{"_ZdaPv",N_delarr},{"_ZdaPvm",N_delarr},{"_ZdaPvSt11align_val_t",N_delarr},{"_ZdaPvmSt11align_val_t",N_delarr},{"free",N_free},
   {"memcpy",N_memcpy},{"memmove",N_memcpy},{"memset",N_memset},{"memcmp",N_memcmp},{"bcmp",N_memcmp},{"strlen",N_strlen},{"strcmp",N_strcmp},
   {"vk_sym",N_sym},{"vk_assume",N_assume},{"vk_assert",N_assert},{"vk_fail",N_fail},{"vk_cover",N_cover},{"vk_spawn",N_spawn},{"vk_join",N_join},{"vk_yield",N_yield},{"vk_merge",N_merge},{"vk_tid",N_tid},{"vk_noleak",N_noleak},{"vk_unwind",N_unwind},{"vk_now",N_now},{"vk_tick",N_tick},{"vk_liveheap",N_liveheap},{"vk_depth",N_depth},{"vk_new",N_new},{"vk_malloc",N_malloc},{"vk_newarr",N_newarr},
   {"_ZNSt6chrono3_V212steady_clock3nowEv",N_now},{"_ZNSt6chrono3_V212system_clock3nowEv",N_now},{"pthread_mutex_lock",N_lock},{"pthread_mutex_trylock",N_trylock},{"pthread_mutex_unlock",N_unlock},{"pthread_mutex_init",N_nop_ret0},{"pthread_mutex_destroy",N_mdestroy},
   {"pthread_cond_wait",N_cwait},{"pthread_cond_clockwait",N_ctimed},{"pthread_cond_timedwait",N_ctimed},{"pthread_cond_signal",N_csignal},{"pthread_cond_broadcast",N_cbcast},{"pthread_cond_init",N_nop_ret0},{"pthread_cond_destroy",N_nop_ret0},{"pthread_self",N_self},{"sched_yield",N_yield},
   {"_ZSt9terminatev",N_terminate},{"__assert_fail",N_assertfail},{"abort",N_abort},{"exit",N_abort},{"_exit",N_abort},{"quick_exit",N_abort},{"__cxa_pure_virtual",N_pure},{"__cxa_guard_acquire",N_guardacq},{"__cxa_guard_release",N_guardrel},{"__cxa_guard_abort",N_nop},{"__cxa_atexit",N_nop_ret0},{"atexit",N_nop_ret0},
   {"_ZNSt6thread20hardware_concurrencyEv",N_hwc},{"puts",N_nop_ret0},{"printf",N_nop_ret0},{"fprintf",N_nop_ret0},{"fputs",N_nop_ret0},{"putchar",N_nop_ret0},{"fflush",N_nop_ret0},{"fwrite",N_nop_ret0},{"perror",N_nop},{"write",N_nop_ret0},{"vk_counter",N_counter},{"vk_state",N_state},{"__dynamic_cast",N_dyncast}};
  auto it=m.find(n); if(it!=m.end()) return it->second;
  auto sw=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(sw("llvm.memcpy")||sw("llvm.memmove")) return N_memcpy; if(sw("llvm.memset")) return N_memset; if(sw("llvm.lifetime.start")) return N_lifestart; if(sw("llvm.lifetime.end")) return N_lifeend; if(sw("llvm.expect")||sw("llvm.launder")||sw("llvm.strip.inv")||sw("llvm.ssa.copy")||sw("llvm.ptr.annotation")) return N_expect; if(sw("llvm.assume")||sw("llvm.experimental.noalias")||sw("llvm.invariant")||sw("llvm.prefetch")||sw("llvm.donothing")||sw("llvm.x86.sse2.pause")||sw("llvm.stackrestore")||sw("llvm.var.annotation")) return N_nop; if(sw("llvm.stacksave")) return N_nop_ret0;
  if(sw("llvm.threadlocal.address")) return N_tls; if(sw("llvm.eh.typeid.for")) return N_typeid; if(sw("llvm.trap")||sw("llvm.ubsantrap")||sw("llvm.debugtrap")) return N_trap; if(sw("llvm.objectsize")) return N_objsize; if(sw("llvm.is.constant")) return N_isconst;
  if(n.find(".with.overflow.")!=std::string::npos) return N_ovf; if(sw("llvm.umin")||sw("llvm.umax")||sw("llvm.smin")||sw("llvm.smax")) return N_minmax; if(sw("llvm.abs")) return N_abs; if(sw("llvm.ctlz")) return N_ctlz; if(sw("llvm.cttz")) return N_cttz; if(sw("llvm.ctpop")) return N_ctpop; if(sw("llvm.bswap")) return N_bswap; if(sw("llvm.usub.sat")) return N_satsub; if(sw("llvm.uadd.sat")) return N_satadd; if(sw("llvm.fshl")||sw("llvm.fshr")) return N_fshl;
  if(sw("_ZStls")||sw("_ZNSo")||sw("_ZNKSt8ios")) return N_ret_first; if(sw("_ZNSt8ios_base4Init")) return N_nop; 
  return N_none; }

bool Ex::callIntrinsic(State&s,int t,Fn*fn,Inst&x,std::vector<V>&a,bool,V*ret,int&res){
  if(fn->intr<0){ fn->intr=classify(fn->name); if(!fn->decl&&(fn->intr==N_new||fn->intr==N_newarr||fn->intr==N_malloc)) fn->intr=N_none; } int k=fn->intr; Thread*th=&s.th[t]; res=-1; ret[0]=V(0ull); ret[1]=V(0ull);
  auto C64=[&](size_t i){ return concretize(s,a[i],64); }; bool pending=th->pend!=PNone; bool inrt=th->st.size()&&th->st.back()->fn->rt;
  auto cnt=[&](){ if(!inrt) s.th[t].ops++; };
  switch(k){
  case N_none: if(!fn->decl) return false; engineError("call of external function "+fn->dem+" ("+fn->name+") from "+where());
  case N_nop: case N_nop_ret0: return true; case N_ret_first: ret[0]=a.empty()?V(0ull):a[0]; return true;
  case N_malloc: ret[0]=V(heapAlloc(s,t,C64(0))); return true;
  case N_calloc: { u64 n=C64(0)*C64(1); u64 p=heapAlloc(s,t,n); ret[0]=V(p); Object*o=mutObj(s,findIdx(s,p)); o->fl.clear(); return true; }
  case N_new: case N_newarr: { u64 n=C64(0); u64 p=heapAlloc(s,t,n); mutObj(s,findIdx(s,p))->anew=k==N_new?1:2; ret[0]=V(p); return true; }
  case N_newal: case N_newarral: { u64 n=C64(0); u64 al=C64(1); u64 p=heapAlloc(s,t,n,al); mutObj(s,findIdx(s,p))->anew=k==N_newal?1:2; ret[0]=V(p); return true; }
  case N_del: heapFree(s,t,C64(0),1); return true; case N_delarr: heapFree(s,t,C64(0),2); return true; case N_free: heapFree(s,t,C64(0),0); return true;
  case N_memcpy: { u64 d=C64(0),sr=C64(1),n=C64(2); copyMem(s,t,d,sr,n); ret[0]=V(d); return true; }
  case N_memset: { u64 d=C64(0),n=C64(2); u64 v=concretize(s,a[1],32); setMem(s,t,d,v,n); ret[0]=V(d); return true; }
  case N_memcmp: { u64 p=C64(0),q=C64(1),n=C64(2); Expr*r=mkConst(32,0); for(u64 i=n;i-->0;){ V c=load(s,t,p+i,1,8),d=load(s,t,q+i,1,8); Expr*ce=ex(c,8),*de=ex(d,8); r=mkIte(mkBin(EEq,ce,de),r,mkBin(ESub,mkZExt(ce,32),mkZExt(de,32))); } ret[0]=V(r); return true; }
  case N_strlen: { u64 p=C64(0),n=0; while(true){ V c=load(s,t,p+n,1,8); if(!c.conc()) engineError("strlen of symbolic string"); if(!c.c) break; n++; } ret[0]=V(n); return true; }
  case N_strcmp: { u64 p=C64(0),q=C64(1); i64 r=0; for(u64 i=0;;i++){ V c=load(s,t,p+i,1,8),d=load(s,t,q+i,1,8); if(!c.conc()||!d.conc()) engineError("strcmp of symbolic string"); if(c.c!=d.c){ r=c.c<d.c?-1:1; break; } if(!c.c) break; } ret[0]=V((u64)(u32)r); return true; }
  case N_sym: { std::string n; base(*this,s,C64(0),n); u64 bits=C64(1); std::string nm="in!"+n+"!t"+std::to_string(t)+"#"+std::to_string(s.th[t].nsym++); inputsUsed.insert(n+":"+std::to_string(bits)); Expr*v=mkVar(nm,bits); if(guided){ u64 val=v->c<gmodel.size()?gmodel[v->c]&maskw(bits):0; note(s,2,s.th[t].nsym-1,val); ret[0]=V(val); } else { if(s.model.size()<=v->c) s.model.resize(gVars.size(),0); ret[0]=V(mkZExt(v,64)); } return true; }
  case N_assume: { V c=a[0]; { V b=c.conc()?V((u64)((c.c&1)!=0)):V(mkExtract(c.e,0,1)); if(b.conc()){ if(!b.c){ drop(s,nullptr); res=RAbandon; } return true; } Model m; if(!feasible(s,b.e,m)){ drop(s,nullptr); res=RAbandon; return true; } if(!guided) drop(s,mkNot(b.e)); s.model=m; addCons(s,b.e); } return true; }
  case N_assert: { V c=a[0]; T.asserts++; V b=c.conc()?V((u64)((c.c&1)!=0)):V(mkExtract(c.e,0,1)); std::string msg; if(b.conc()){ if(!b.c){ base(*this,s,C64(1),msg); perr("assertion",msg);} return true; } T.assertsSym++; undefCheck(s,b.e); Model m; if(feasible(s,mkNot(b.e),m)){ base(*this,s,C64(1),msg); s.model=m; failCond=mkNot(b.e); perr("assertion",msg);} addCons(s,b.e); return true; }
  case N_fail: { std::string msg; base(*this,s,C64(0),msg); perr("assertion",msg); }
  case N_cover: { std::string n; base(*this,s,C64(0),n); T.covers[n]++; return true; }
  case N_tid: ret[0]=V((u64)t); return true; case N_self: ret[0]=V((u64)t+1); return true; case N_hwc: ret[0]=V(2ull); return true;
  case N_noleak: s.leakcheck=false; return true;
  case N_depth: { ret[0]=V((u64)s.th[t].st.size()); return true; }
  case N_liveheap: { u64 n=0; for(auto&o:s.objs) if(o->kind==OHeap&&!o->noleak) n++; ret[0]=V(n); return true; }
  case N_counter: ret[0]=V(0ull); return true;
  case N_unwind: unwind(s,t,C64(0)); res=100; return true;
  case N_now: ret[0]=s.now; if(guided) {} return true;
  case N_tick: { s.wrote=true; s.now=vbin(EAdd,64,s.now,a[0]); return true; }
  case N_spawn: { u64 f=C64(0),arg=C64(1); cnt(); s.wrote=true; Fn*g=P.fnAt(f); if(!g) perr("bad-call","thread entry is not a function"); int n=s.th.size(); if(n>=NT) engineError("too many threads"); s.th.emplace_back(); Thread&nt=s.th.back(); nt.status=1; nt.pend=PStart; nt.heapTop=HEAP0+((u64)n<<36)+4096; nt.stackTop=STACK0+((u64)n<<36)+4096; escapeAddr(s,arg); nt.vc=s.th[t].vc; nt.vc.c[n]=1; s.th[t].vc.c[t]++; pushFrame(s,n,g,{V(arg)}); ret[0]=V((u64)n); return true; }
  case N_join: { u64 n=C64(0); if(n>=s.th.size()) perr("bad-join","join of an unknown thread"); if(!pending){ s.th[t].pend=PJoin; s.th[t].paddr=n; res=RPark; return true; } s.th[t].pend=PNone; cnt(); if(s.th[n].status==3) perr("bad-join","thread joined twice"); s.th[n].status=3; s.th[t].vc.join(s.th[n].vc); return true; }
  case N_yield: { if(liveThreads(s)>1||true){ if(!pending){ th->pend=PYield; th->yielded=!th->stale; th->stale=false; res=RPark; return true; } th->pend=PNone; th->fresh=true; cnt(); } return true; }
  case N_merge: { if(!pending){ th->pend=PYield; th->yielded=false; res=RPark; return true; } th->pend=PNone; cnt(); return true; }
  case N_lock: { u64 p=C64(0); if(!pending){ int i; u32 off; mxTouch(s,t,p); if(mxMine(s,t,p)){ cnt(); mxLock(s,t,p); return true; } Object*o=lookup(s,p,i); (void)off; if(o->escaped||!mxFree(s,p)){ s.th[t].pend=PLock; s.th[t].paddr=p; res=RPark; return true; } } s.th[t].pend=PNone; cnt(); mxTouch(s,t,p); mxLock(s,t,p); return true; }
  case N_trylock: { u64 p=C64(0); if(!pending){ int i; mxTouch(s,t,p); Object*o=lookup(s,p,i); if(o->escaped){ s.th[t].pend=PTryLock; s.th[t].paddr=p; res=RPark; return true; } } s.th[t].pend=PNone; cnt(); mxTouch(s,t,p); if(mxFree(s,p)||mxMine(s,t,p)){ mxLock(s,t,p); ret[0]=V(0ull);} else ret[0]=V(16ull); return true; }
  case N_unlock: { u64 p=C64(0); mxTouch(s,t,p); cnt(); mxUnlock(s,t,p); return true; }
  case N_mdestroy: { u64 p=C64(0); int i=mxFind(s,p); if(i>=0&&s.mx[i].owner>=0) perr("mutex-destroyed","a locked mutex is destroyed"); if(i>=0) s.mx.erase(s.mx.begin()+i); return true; }
  case N_cwait: case N_ctimed: { u64 c=C64(0),m=C64(1); Thread&h=s.th[t];
      if(h.wphase==0){ mxTouch(s,t,c,8); V dl(0ull); if(k==N_ctimed){ u64 ts=C64(a.size()-1); V sec=load(s,t,ts,8,64),ns=load(s,t,ts+8,8,64); dl=vbin(EAdd,64,vbin(EMul,64,sec,V(1000000000ull)),ns); } cnt(); mxUnlock(s,t,m); Thread&g=s.th[t]; g.dl=dl; g.wphase=1; g.caddr=c; g.timed=k==N_ctimed; g.pend=PCondReacq; g.paddr=m; res=RPark; return true; }
      V rv(0ull); bool spur=h.wphase==1&&(!h.timed||(C.wakes>(int)s.spur&&!C.lazytime&&chooseP(s,2,"wake")==1)); if(spur){ s.spur++; note(s,3,s.th[t].ops,2); }
      else if(h.wphase==1){ // timeout
        if(C.lazytime) for(size_t u=0;u<s.th.size();u++) if((int)u!=t&&s.th[u].status==1&&s.th[u].wphase==1&&s.th[u].timed){ // the earliest deadline first
          V c=vbin(ESle,64,s.th[t].dl,s.th[u].dl); V b=c.conc()?V((u64)((c.c&1)!=0)):V(mkExtract(c.e,0,1)); if(b.conc()){ if(!b.c){ drop(s,nullptr); res=RAbandon; return true; } continue; } Model mo; if(!feasible(s,b.e,mo)){ drop(s,nullptr); res=RAbandon; return true; } if(!guided) drop(s,mkNot(b.e)); s.model=mo; addCons(s,b.e); }
        u64 ts=C64(a.size()-1); V sec=load(s,t,ts,8,64),ns=load(s,t,ts+8,8,64); V dl=vbin(EAdd,64,vbin(EMul,64,sec,V(1000000000ull)),ns); V lt=vbin(ESlt,64,s.now,dl); if(branch(s,lt)) s.now=dl; rv=V(110ull); note(s,3,s.th[t].ops,1); }
      s.th[t].wphase=0; s.th[t].timed=false; s.th[t].caddr=0; s.th[t].pend=PNone; cnt(); mxTouch(s,t,m); mxLock(s,t,m); ret[0]=rv; return true; }
  case N_csignal: case N_cbcast: { u64 c=C64(0); if(!pending){ int i; mxTouch(s,t,c); Object*o=lookup(s,c,i); if(o->escaped){ s.th[t].pend=PCondSig; s.th[t].paddr=c; res=RPark; return true; } }
      mxTouch(s,t,c); std::vector<int> w; for(size_t i=0;i<s.th.size();i++) if(s.th[i].status==1&&s.th[i].wphase==1&&s.th[i].caddr==c) w.push_back(i);
      if(k==N_csignal&&w.size()>1){ u32 j=chooseP(s,w.size(),"signal"); w={w[j]}; } s.th[t].pend=PNone; cnt(); s.wrote=true; for(int i:w) s.th[i].wphase=2; return true; }
  case N_terminate: perr("terminate","std::terminate called"); case N_abort: perr("abort",fn->name+" called"); case N_pure: perr("pure-virtual","pure virtual function called"); case N_trap: perr("trap","trap executed");
  case N_assertfail: { std::string m,f; base(*this,s,C64(0),m); base(*this,s,C64(1),f); perr("assert","library assertion failed: "+m+" ("+f+":"+std::to_string(a[2].c)+")"); }
  case N_guardacq: { u64 g=C64(0); V v=atomicLoad(s,t,g,1,8,1); ret[0]=V((u64)(v.c==0)); if(!v.c) s.th[t].guards++; return true; }
  case N_guardrel: { u64 g=C64(0); atomicStore(s,t,g,1,8,V(1ull),2); if(s.th[t].guards) s.th[t].guards--; return true; }
  case N_lifestart: { u64 p=C64(1); int i=findIdx(s,p); if(i>=0&&s.objs[i]->kind==OStack&&s.objs[i]->base==p){ Object*o=mutObj(s,i); o->dead=false; if(o->size) o->setUndef(0,o->size); dropAtoms(o,0,o->size); } return true; }
  case N_lifeend: { u64 p=C64(1); int i=findIdx(s,p); if(i>=0&&s.objs[i]->kind==OStack&&s.objs[i]->base==p){ if(s.objs[i]->escaped) race(s,t,i,0,s.objs[i]->size,true,false); Object*o=mutObj(s,i); if(o->size) o->setUndef(0,o->size); o->atoms.clear(); o->dead=true; } return true; }
  case N_expect: ret[0]=a[0]; return true; case N_tls: { ret[0]=V(a[0].c+(u64)t*TSTRIDE); return true; }
  case N_dyncast: { u64 p=C64(0),want=C64(2); if(!p) return true; u64 vt=load(s,t,p,8,64).c; u64 off=load(s,t,vt-16,8,64).c, ti=load(s,t,vt-8,8,64).c, adj=0; if(tiMatch(ti,want,adj)) ret[0]=V(p+off+adj); return true; }
  case N_typeid: ret[0]=V(tiIndex(a[0].c)); return true;
  case N_objsize: ret[0]=V(~0ull); return true; case N_isconst: ret[0]=V(0ull); return true;
  case N_ovf: { unsigned w=x.call->retw[0]; u8 o=fn->name.find("add")!=std::string::npos?EAdd:fn->name.find("sub")!=std::string::npos?ESub:EMul; bool sg=fn->name[5]=='s'; V r=vbin(o,w,a[0],a[1]); ret[0]=r; Expr*p=ex(a[0],w),*q=ex(a[1],w),*re=ex(r,w); 
      if(w>32&&o==EMul){ if(!a[0].conc()&&!a[1].conc()) engineError("wide symbolic multiply overflow"); if(a[0].conc()) std::swap(p,q); u64 kk=q->c; if(sg) engineError("smul.ovf"); ret[1]= kk==0?V(0ull):V(mkNot(mkBin(EUle,p,mkConst(w,maskw(w)/kk)))); return true; }
      if(o==EMul){ unsigned W=2*w; Expr*P2=sg?mkSExt(p,W):mkZExt(p,W),*Q2=sg?mkSExt(q,W):mkZExt(q,W); Expr*M=mkBin(EMul,P2,Q2); ret[1]=V(mkNot(mkBin(EEq,M,sg?mkSExt(re,W):mkZExt(re,W)))); return true; }
      if(!sg) ret[1]= o==EAdd?V(mkBin(EUlt,re,p)):V(mkBin(EUlt,p,q)); else { Expr*z=mkConst(w,0); Expr*sp=mkBin(ESlt,p,z),*sq=mkBin(ESlt,q,z),*sr=mkBin(ESlt,re,z); ret[1]= o==EAdd?V(mkBin(EAnd,mkBin(EEq,sp,sq),mkNot(mkBin(EEq,sp,sr)))):V(mkBin(EAnd,mkNot(mkBin(EEq,sp,sq)),mkNot(mkBin(EEq,sp,sr)))); } return true; }
  case N_minmax: { unsigned w=x.call->retw[0]; bool sg=fn->name[5]=='s',mx=fn->name.find("max")!=std::string::npos; V c=vbin(sg?ESlt:EUlt,w,a[0],a[1]); ret[0]=V(mkIte(ex(c,1),ex(mx?a[1]:a[0],w),ex(mx?a[0]:a[1],w))); return true; }
  case N_abs: { unsigned w=x.call->retw[0]; V c=vbin(ESlt,w,a[0],V(0ull)); V n=vbin(ESub,w,V(0ull),a[0]); ret[0]=V(mkIte(ex(c,1),ex(n,w),ex(a[0],w))); return true; }
  case N_satsub: { unsigned w=x.call->retw[0]; V c=vbin(EUlt,w,a[0],a[1]); V n=vbin(ESub,w,a[0],a[1]); ret[0]=V(mkIte(ex(c,1),mkConst(w,0),ex(n,w))); return true; }
  case N_ctlz: case N_cttz: case N_ctpop: { unsigned w=x.call->retw[0]; Expr*e=ex(a[0],w); Expr*r=mkConst(w,k==N_ctpop?0:w); if(k==N_ctlz) for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(e,i,1),mkConst(w,w-1-i),r); else if(k==N_cttz) for(unsigned i=w;i-->0;) r=mkIte(mkExtract(e,i,1),mkConst(w,i),r); else for(unsigned i=0;i<w;i++) r=mkBin(EAdd,r,mkZExt(mkExtract(e,i,1),w)); ret[0]=V(r); return true; }
  case N_bswap: { unsigned w=x.call->retw[0]; Expr*e=ex(a[0],w); Expr*r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*b=mkExtract(e,i,8); r=r?mkConcat(r,b):b; } ret[0]=V(r); return true; }
  case N_fshl: { unsigned w=x.call->retw[0]; bool l=fn->name.find("fshl")!=std::string::npos; V sh=vbin(EURem,w,a[2],V((u64)w)); u64 n=concretize(s,sh,w); if(l) ret[0]=n?vbin(EOr,w,vbin(EShl,w,a[0],V(n)),vbin(ELShr,w,a[1],V(w-n))):a[0]; else ret[0]=n?vbin(EOr,w,vbin(EShl,w,a[0],V(w-n)),vbin(ELShr,w,a[1],V(n))):a[1]; return true; }
  }
  engineError("unhandled intrinsic "+fn->name); }

// ------------------------------------------------------------------ interpreter
int Ex::runPath(State&s,int t){
  cur=&s; ct=t; u64 budget=C.maxInsts;
  if(s.th[t].pend==PStart) s.th[t].pend=PNone;
  while(true){
    if(s.th[t].st.empty()) return RFinished; if(!budget--) perr("no-termination","a single step executed more than "+std::to_string(C.maxInsts)+" instructions");
    Frame*f=s.th[t].st.back().mut(); Inst&x=f->fn->code[f->pc]; T.insts++; u32 pc=f->pc;
    auto O=[&](Opnd o){ return op(*f,o); };
    switch(x.op){
    case IBin: { V a=O(x.a),b=O(x.b); if(x.aux==EUDiv||x.aux==ESDiv||x.aux==EURem||x.aux==ESRem){ if(b.conc()){ if(!(b.c&maskw(x.w))) perr("division-by-zero","integer division by zero"); } else { V z=vbin(EEq,x.w,b,V(0ull)); if(branch(s,z)) perr("division-by-zero","integer division by zero"); f=s.th[t].st.back().mut(); } } f->r[x.dst]=vbin(x.aux,x.w,a,b); f->pc++; break; }
    case ICmpEq: f->r[x.dst]=vbin(EEq,x.w,O(x.a),O(x.b)); f->pc++; break;
    case ICmpNe: f->r[x.dst]=vnot(vbin(EEq,x.w,O(x.a),O(x.b))); f->pc++; break;
    case ICmpBin: f->r[x.dst]=vbin(x.aux,x.w,O(x.a),O(x.b)); f->pc++; break;
    case ISelect: { V c=O(x.a); for(size_t i=0;i<x.tw.size();i++){ V p=op(*f,x.b>=0?x.b+(int)i:~(~x.b+(int)i)),q=op(*f,x.c>=0?x.c+(int)i:~(~x.c+(int)i)); f->r[x.dst+i]= c.conc()?((c.c&1)?p:q):(p==q?p:V(mkIte(c.e,ex(p,x.tw[i]),ex(q,x.tw[i])))); } f->pc++; break; }
    case ITrunc: { V a=O(x.a); f->r[x.dst]=a.conc()?V(a.c&maskw(x.w)):V(mkExtract(a.e,0,x.w)); f->pc++; break; }
    case IZExt: { V a=O(x.a); f->r[x.dst]=a.conc()?V(a.c&maskw(x.aux)):V(mkZExt(a.e,x.w)); f->pc++; break; }
    case ISExt: { V a=O(x.a); f->r[x.dst]=a.conc()?V((u64)sx(a.c,x.aux)&maskw(x.w)):V(mkSExt(a.e,x.w)); f->pc++; break; }
    case IMove: { if(x.slots==1) f->r[x.dst]=O(x.a); else { V tmp[32]; if(x.slots>32) engineError("wide aggregate"); for(int i=0;i<x.slots;i++) tmp[i]=op(*f,x.a>=0?x.a+i:~(~x.a+i)); for(int i=0;i<x.slots;i++) f->r[x.dst+i]=tmp[i]; } f->pc++; break; }
    case IGep: { V a=O(x.a); V off(x.imm); for(auto&g:x.gep->idx){ V i=O(g.first); unsigned w=g.second.first; if(w<64) i=i.conc()?V((u64)sx(i.c,w)):V(mkSExt(i.e,64)); off=vbin(EAdd,64,off,vbin(EMul,64,i,V((u64)g.second.second))); } f->r[x.dst]=vbin(EAdd,64,a,off); f->pc++; break; }
    case IAlloca: { u64 a=stackAlloc(s,t,x.imm,x.a); f=s.th[t].st.back().mut(); f->r[x.dst]=V(a); f->pc++; break; }
    case ILoad: { u64 a=concretize(s,O(x.a),64); f=s.th[t].st.back().mut(); for(size_t i=0;i<x.tw.size();i++){ V v=load(s,t,a+x.toff[i],(x.tw[i]+7)/8,x.tw[i]); f->r[x.dst+i]=v; } f->pc++; break; }
    case IStore: { u64 a=concretize(s,O(x.a),64); f=s.th[t].st.back().mut(); for(size_t i=0;i<x.tw.size();i++) store(s,t,a+x.toff[i],(x.tw[i]+7)/8,x.tw[i],op(*f,x.b>=0?x.b+(int)i:~(~x.b+(int)i))); f->pc++; break; }
    case IALoad: case IAStore: case IRmw: case ICmpXchg: {
      u64 a=concretize(s,O(x.a),64); u32 n=(x.w+7)/8; bool rt=f->fn->rt;
      if(!rt&&s.th[t].pend==PNone){ int i; Object*o=lookup(s,a,i); if(o&&!o->ro&&o->escaped&&s.th.size()>1){ f=s.th[t].st.back().mut(); for(i32 r:x.deadSlots) f->r[r]=V(); s.th[t].pend=PAtomic; s.th[t].paddr=a; return RPark; } if(!o){ u32 off; access(s,t,a,n,false,true,i,off); } }
      if(a%n) perr("misaligned-atomic","atomic access at "+hexs(a));
      f=s.th[t].st.back().mut(); V r0,r1;
      if(x.op==IALoad) r0=atomicLoad(s,t,a,n,x.w,x.mo); else if(x.op==IAStore) atomicStore(s,t,a,n,x.w,O(x.b),x.mo); else if(x.op==IRmw) r0=atomicRmw(s,t,a,n,x.w,x.aux,O(x.b),x.mo); else cmpxchg(s,t,a,n,x.w,O(x.b),O(x.c),x.mo,x.mo2,r0,r1);
      if(!rt) s.th[t].ops++; s.th[t].pend=PNone; f=s.th[t].st.back().mut(); if(x.dst>=0){ f->r[x.dst]=r0; if(x.op==ICmpXchg) f->r[x.dst+1]=r1; } f->pc++; break; }
    case IFence: { if(!x.aux){ Thread&th=s.th[t]; if(x.mo==1||x.mo>=3) th.vc.join(th.facq); if(x.mo>=2) th.frel=th.vc; if(x.mo==4){ th.vc.join(s.scvc); th.frel=th.vc; s.scvc.join(th.vc);} if(x.mo>=2) th.vc.c[t]++; th.ops++; } f->pc++; break; }
    case IBr: takeEdge(*f,x.edges[0]); break;
    case ICondBr: { V c=O(x.a); bool d=c.conc()?(c.c&1):branch(s,c); f=s.th[t].st.back().mut(); takeEdge(*f,x.edges[d?0:1]); break; }
    case ISwitch: { V c=O(x.a); size_t k=x.cases.size(); if(c.conc()){ for(size_t i=0;i<x.cases.size();i++) if((c.c&maskw(x.w))==x.cases[i]){k=i;break;} } else { u64 v=0; bool done=false; for(size_t i=0;i<x.cases.size()&&!done;i++){ V e=vbin(EEq,x.w,c,V(x.cases[i])); if(branch(s,e)){k=i;done=true;} } (void)v; } f=s.th[t].st.back().mut(); takeEdge(*f,x.edges[k]); break; }
    case IRet: { std::vector<V> rv; for(int i=0;i<x.slots;i++) rv.push_back(op(*f,x.a>=0?x.a+i:~(~x.a+i))); popFrame(s,t); Thread&th=s.th[t]; if(th.st.empty()) return t==0?RMainDone:RFinished; f=th.st.back().mut(); Inst&c=f->fn->code[f->pc]; if(c.dst>=0) for(size_t i=0;i<rv.size();i++) f->r[c.dst+i]=rv[i]; if(c.call->invoke) takeEdge(*f,c.call->normal); else f->pc++; break; }
    case ICall: { CallInfo&ci=*x.call; Fn*g=ci.direct; if(!g){ if(!ci.ext.empty()){ f->pc++; break; } u64 a=concretize(s,O(ci.callee),64); f=s.th[t].st.back().mut(); g=P.fnAt(a); if(!g) perr("bad-call",a<65536?"call through a null function pointer":"call through a pointer that is not a function ("+hexs(a)+"): destroyed or completed coroutine?"); }
      std::vector<V> args; for(auto&ar:ci.args) for(int i=0;i<ar.slots;i++) args.push_back(op(*f,ar.o>=0?ar.o+i:~(~ar.o+i)));
      V ret[2]; int res;
      if((g->decl||g->intr>0||g->intr==-1)&&callIntrinsic(s,t,g,x,args,false,ret,res)){ cur=&s; if(res==RPark){ f=s.th[t].st.back().mut(); for(u32 r:x.toff) f->r[r]=V(); return RPark; } if(res==RAbandon) return RAbandon; if(res==100) break; f=s.th[t].st.back().mut(); if(x.dst>=0) for(int i=0;i<x.slots&&i<2;i++) f->r[x.dst+i]=ret[i]; if(ci.invoke) takeEdge(*f,ci.normal); else f->pc++; break; }
      if(g->decl) engineError("call of external function "+g->dem); if(g->intr==-1) g->intr=0;
      bool by=false; for(auto&ar:ci.args) if(ar.byval) by=true;
      if(ci.tail){ if(by) engineError("musttail byval"); popFrame(s,t); pushFrame(s,t,g,args); }
      else { f=s.th[t].st.back().mut(); for(i32 r:x.deadSlots) f->r[r]=V(); pushFrame(s,t,g,args); if(by){ size_t k=0; for(auto&ar:ci.args){ if(ar.byval){ u64 src=args[k].c; u64 d=stackAlloc(s,t,ar.byval,16); copyMem(s,t,d,src,ar.byval); Frame*nf=s.th[t].st.back().mut(); size_t pi=&ar-&ci.args[0]; nf->r[nf->fn->argReg[pi]]=V(d); } k+=ar.slots; } } }
      break; }
    case ILandingPad: engineError("landing pad reached without unwinding");
    case IResume: { u64 h=O(x.a).c; popFrame(s,t); unwind(s,t,h); break; }
    case IFloat: { V a=O(x.a),b=O(x.b); if(!a.conc()||!b.conc()) engineError("floating point arithmetic on a symbolic value in "+f->fn->dem); auto*I=x.I; unsigned dw=I->getType()->getPrimitiveSizeInBits(); bool fs=x.w==32;
      auto rd=[&](u64 v){ if(fs){ float q; u32 z=v; memcpy(&q,&z,4); return (double)q; } double q; memcpy(&q,&v,8); return q; }; auto wr=[&](double d){ if(dw==32){ float q=d; u32 z; memcpy(&z,&q,4); return V((u64)z); } u64 z; memcpy(&z,&d,8); return V(z); }; V r(0ull);
      auto A2=[&]{ return rd(a.c); }; auto B2=[&]{ return rd(b.c); };
      switch(x.imm){ case Instruction::FAdd: r=wr(A2()+B2()); break; case Instruction::FSub: r=wr(A2()-B2()); break; case Instruction::FMul: r=wr(A2()*B2()); break; case Instruction::FDiv: r=wr(A2()/B2()); break; case Instruction::FRem: r=wr(fmod(A2(),B2())); break; case Instruction::FNeg: r=wr(-A2()); break;
        case Instruction::SIToFP: r=wr((double)sx(a.c,x.w)); break; case Instruction::UIToFP: r=wr((double)(a.c&maskw(x.w))); break; case Instruction::FPToSI: r=V((u64)(i64)A2()&maskw(dw)); break; case Instruction::FPToUI: r=V((u64)A2()&maskw(dw)); break; case Instruction::FPExt: case Instruction::FPTrunc: r=wr(A2()); break;
        case Instruction::FCmp: { double p=A2(),q=B2(); unsigned P=cast<FCmpInst>(I)->getPredicate(); bool u=p!=p||q!=q; r=V((u64)(u?(P>>3&1):p==q?(P&1):p>q?(P>>1&1):(P>>2&1))); break; }
        default: engineError("unsupported floating point instruction in "+f->fn->dem); }
      f->r[x.dst]=r; f->pc++; break; }
    case IUnreachable: perr("unreachable","control flow reached an undefined point (unreachable)");
    default: { std::string str; raw_string_ostream os(str); x.I->print(os); engineError("unsupported instruction "+os.str()+" in "+f->fn->dem); }
    }
    (void)pc;
  }
}
static bool gHaltOnFirst=true;
void Ex::step(State*s0,int t,std::vector<State*>&out,std::vector<State*>&finals){
  std::vector<State*> wl{s0}; work=&wl; preset.clear(); s0->wrote=false;
  while(!wl.empty()){
    if((++tick&63)==0&&now()-t0>C.timeout){ timedOut=true; for(auto p:wl) delete p; return; }
    State*s=wl.back(); wl.pop_back(); cur=s; ct=t;
    try{
      int r=runPath(*s,t);
      if(r==RAbandon){ delete s; continue; }
      if(r==RFinished){ s->wrote=true; s->th[t].status=2; s->th[t].pend=PNone; s->th[t].st.clear(); out.push_back(s); continue; }
      if(r==RMainDone){ s->th[0].status=2; s->th[0].st.clear();
        for(size_t i=1;i<s->th.size();i++) if(s->th[i].status==1) { engineError("harness error: main returned while threads were running"); }
        if(s->leakcheck){ u64 n=0; Object*e=nullptr; for(auto&o:s->objs) if(o->kind==OHeap&&!o->noleak){ n++; if(!e) e=o.get(); } if(n) perr("leak",std::to_string(n)+" heap object(s) never freed, first: "+objName(e)); }
        finals.push_back(s); continue; }
      out.push_back(s);
    } catch(PathErr&e){ Violation v; v.kind=e.kind; v.msg=e.msg; v.where=where(); v.model=s->model; v.depth=s->depth; v.cond=s->data; v.cond.push_back(s->path); if(failCond) v.cond.push_back(failCond); failCond=nullptr; viol.push_back(v); delete s; if(gHaltOnFirst){ for(auto p:wl) delete p; return; } }
  }
}
int main(int argc,char**argv){ return driverMain(argc,argv); }
