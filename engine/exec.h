// The symbolic executor: one scheduler step of one thread, forking on symbolic data; merging is done by the driver.
#pragma once
#include "state.h"
#include <array>
struct PathErr { std::string kind,msg; };
[[noreturn]] static void perr(const std::string&k,const std::string&m){ throw PathErr{k,m}; }
struct Retry{}; // the current state was forked on a pointer value; re-execute the instruction
struct Config { bool weak=false; int preempt=-1; u64 maxInsts=2000000; u64 maxStates=4000000; double timeout=800; bool races=true; bool uninit=true; u32 forkLimit=4096; bool itemerge=true; double memMB=6000; int wakes=0; bool lazytime=false; std::string only; };
struct Stats { u64 insts=0, transitions=0, states=0, merged=0, itemerged=0, forks=0, terminals=0, asserts=0, assertsSym=0, maxFrontier=0, levels=0, branchesSym=0, races=0, memchecks=0; std::map<std::string,u64> covers; };
struct Violation { std::string kind,msg,where; Model model; u32 depth=0; std::vector<Expr*> cond; };
static std::string hexs(u64 x){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)x); return b; }

struct Ex {
  Program P; Solver S; Config C; Stats T; std::map<std::string,int> intr; std::vector<Violation> viol; bool guided=false; Model gmodel;
  std::map<u64,Object*> roObjs; State* cur=nullptr; int ct=0; std::vector<State*>* work=nullptr; u32 choiceInStep=0; int level=0; std::set<std::string> inputsUsed; std::map<std::string,u64> envUsed;
  std::set<std::string> knownSites; bool sawUnknown=false;
  // ---------- lookup
  int findIdx(State&s,u64 addr){ auto&v=s.objs; size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m].p->base<=addr) lo=m+1; else hi=m; } if(!lo) return -1; Object*o=v[lo-1].p; if(addr<o->base+o->size||(addr==o->base)) return lo-1; return -1; }
  int insertObj(State&s,Object*o){ auto&v=s.objs; if(v.empty()||v.back().p->base<o->base){ v.push_back(IP<Object>(o)); return v.size()-1; } size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m].p->base<=o->base) lo=m+1; else hi=m; } v.insert(v.begin()+lo,IP<Object>(o)); return lo; }
  void eraseObj(State&s,int i){ s.objs.erase(s.objs.begin()+i); }
  Object* newObj(u64 base,u32 size,u8 kind,int owner,bool undef){ Object*o=new Object; o->base=base;o->size=size;o->kind=kind;o->owner=owner; o->d.assign(size,0); if(undef&&size){ o->fl.assign(size,1);} return o; }
  // returns object for reading; creates lazily the object of a global
  Object* lookup(State&s,u64 addr,int&idx){ idx=-1;
    if(addr>=GLOB0&&addr<FN0){ auto it=P.gByAddr.upper_bound(addr); if(it==P.gByAddr.begin()) return nullptr; --it; Global&g=P.globals[it->second]; if(g.tls||addr>=g.addr+std::max<u64>(1,g.size)) return nullptr;
      if(g.ro){ Object*&o=roObjs[g.addr]; if(!o){ o=newObj(g.addr,g.size,OGlobal,0,false); o->rc=1; o->ro=true; o->escaped=true; if(g.G->hasInitializer()) P.initBytes(g.G->getInitializer(),o->d.data()); else if(!g.name.compare(0,4,"_ZTI")&&g.name.size()<400){ u64 q=g.addr+64; memcpy(&o->d[8],&q,8); memcpy(&o->d[64],g.name.c_str()+4,g.name.size()-4); } } return o; }
      idx=findIdx(s,addr); if(idx<0){ Object*o=newObj(g.addr,g.size,OGlobal,0,false); o->escaped=true; if(g.G->hasInitializer()) P.initBytes(g.G->getInitializer(),o->d.data()); idx=insertObj(s,o); for(u64 k=0;k+8<=g.size;k+=8){ u64 w; memcpy(&w,&o->d[k],8); escapeAddr(s,w);} idx=findIdx(s,addr); } return s.objs[idx].p; }
    if(addr>=TLS0){ u64 rel=(addr-TLS0)%TSTRIDE; int tid=(addr-TLS0)/TSTRIDE; if(tid>=NT) return nullptr; auto it=P.gByAddr.upper_bound(TLS0+rel); if(it==P.gByAddr.begin()) return nullptr; --it; Global&g=P.globals[it->second]; if(!g.tls||TLS0+rel>=g.addr+g.size) return nullptr;
      idx=findIdx(s,addr); if(idx<0){ Object*o=newObj(g.addr+tid*TSTRIDE,g.size,OGlobal,tid,false); if(g.G->hasInitializer()) P.initBytes(g.G->getInitializer(),o->d.data()); idx=insertObj(s,o);} return s.objs[idx].p; }
    idx=findIdx(s,addr); return idx<0?nullptr:s.objs[idx].p; }
  Object* mutObj(State&s,int idx){ return s.objs[idx].mut(); }
  int liveThreads(State&s){ int n=0; for(auto&t:s.th) n+=t.status==1; return n; }
  std::string where(){ if(!cur||ct>=(int)cur->th.size()) return ""; std::string r; auto&st=cur->th[ct].st; for(size_t k=st.size();k-->0&&r.size()<1200;){ auto&f=st[k]; std::string n=f->fn->dem; if(n.size()>140) n=n.substr(0,140)+"..."; r+=(r.empty()?"":" < ")+n; } return "thread "+std::to_string(ct)+": "+r; }
  void escapeAddr(State&s,u64 a){ if(a<HEAP0||(a>=GLOB0&&a<TLS0)) return; int i=findIdx(s,a); if(i<0) return; Object*o=s.objs[i].p; if(o->escaped) return; o=mutObj(s,i); o->escaped=true;
    if(liveThreads(s)>1&&C.races&&!o->noleak&&o->size){ o->recs.push_back(Rec{0,o->size,o->owner,true,false,s.th[o->owner].vc.c[o->owner]}); }
    u64 base=o->base; u32 size=o->size; for(u32 k=0;k+8<=size;k+=8){ int j=findIdx(s,base); Object*q=s.objs[j].p; if(!q->fl.empty()){ bool c=true; for(int b=0;b<8;b++) if(q->fl[k+b]){c=false; if(q->fl[k+b]==2) escapeExpr(s,q->sy[k+b]);} if(!c) continue; } u64 w; memcpy(&w,&q->d[k],8); escapeAddr(s,w);} }
  void escapeExpr(State&s,Expr*e,int depth=0){ if(depth>40) return; if(e->op==EConst){ escapeAddr(s,e->c); return; } for(int i=0;i<e->nk;i++) escapeExpr(s,e->k[i],depth+1); }
  void escapeV(State&s,V v){ if(v.e) escapeExpr(s,v.e); else escapeAddr(s,v.c); }
  void race(State&s,int t,int idx,u32 off,u32 len,bool write,bool atomic){
    Object*o=s.objs[idx].p; if(!o->escaped) return; if(write) s.wrote=true; if(!C.races) return; T.races++;
    VC&vc=s.th[t].vc; u16 now=vc.c[t]; bool found=false;
    for(auto&r:o->recs){ if(r.off>=off+len||off>=r.off+r.len) continue; if(r.tid!=t){ if((r.write||write)&&!(r.atomic&&atomic)&&vc.c[r.tid]<r.clk&&!libBits(s,t)) perr("data-race",std::string(write?"write":"read")+(atomic?"(atomic)":"")+" of "+std::to_string(len)+" bytes at offset "+std::to_string(off)+" of "+objName(o)+" is not ordered after a "+(r.write?"write":"read")+(r.atomic?"(atomic)":"")+" by thread "+std::to_string(r.tid)); }
      else if(r.off<=off&&r.off+r.len>=off+len&&r.write==write&&r.atomic==atomic&&r.clk==now) found=true; }
    if(found) return; if(liveThreads(s)<=1) return;
    o=mutObj(s,idx); auto&R=o->recs; size_t w=0; for(size_t i=0;i<R.size();i++){ Rec&r=R[i]; bool cov=off<=r.off&&off+len>=r.off+r.len; bool hb=r.tid==t||vc.c[r.tid]>=r.clk; bool drop=cov&&hb&&((write&&(!atomic||r.atomic))||(r.tid==t&&r.write==write&&r.atomic==atomic)); if(!drop) R[w++]=r; } R.resize(w);
    R.push_back(Rec{off,len,(u8)t,write,atomic,now}); }
  std::string objName(Object*o){ std::string k=o->kind==OHeap?"heap":o->kind==OStack?"stack":"global"; if(o->kind==OGlobal){ auto it=P.gByAddr.find(o->base); if(it!=P.gByAddr.end()) return "global "+P.globals[it->second].name; } return k+" object of "+std::to_string(o->size)+" bytes (thread "+std::to_string(o->owner)+", +"+hexs(o->base&0xfffffff)+")"; }
  Object* access(State&s,int t,u64 addr,u32 n,bool write,bool atomic,int&idx,u32&off,bool raceCheck=true){
    T.memchecks++; Object*o=lookup(s,addr,idx); if(!o){ if(addr<65536) perr("null-deref","access of "+std::to_string(n)+" bytes at address "+hexs(addr)); perr("use-after-free",std::string(write?"write":"read")+" of "+std::to_string(n)+" bytes at "+hexs(addr)+": no live object there (freed, out of scope or wild pointer)"); }
    off=addr-o->base; if((u64)off+n>o->size) perr("out-of-bounds",std::to_string(n)+" bytes at offset "+std::to_string(off)+" of "+objName(o)); if(o->dead) perr("use-after-scope","access to "+objName(o)+" outside its lifetime");
    if(write&&o->ro) perr("write-to-constant",objName(o)); if(raceCheck&&idx>=0&&n) race(s,t,idx,off,n,write,atomic); return idx>=0?s.objs[idx].p:o; }
  V loadRaw(Object*o,u32 off,u32 n,unsigned w){ bool c=true; if(!o->fl.empty()) for(u32 i=0;i<n;i++) if(o->fl[off+i]){c=false;break;}
    if(c){ u64 v=0; memcpy(&v,&o->d[off],n); return V(v&maskw(w)); }
    Expr*r=nullptr; for(u32 i=0;i<n;i++){ Expr*b; u8 f=o->fl[off+i]; if(f==0) b=mkConst(8,o->d[off+i]); else if(f==2) b=o->sy[off+i]; else b=mkVar("undef!"+hexs(o->base)+"+"+std::to_string(off+i),8,false,true); r=r?mkConcat(b,r):b; }
    return V(mkExtract(r,0,w)); }
  void storeRaw(Object*o,u32 off,u32 n,unsigned w,V v){ if(v.conc()){ u64 x=v.c&maskw(w); memcpy(&o->d[off],&x,n); if(!o->fl.empty()) memset(&o->fl[off],0,n); return; }
    if(o->fl.empty()) o->fl.assign(o->size,0); if(o->sy.empty()) o->sy.assign(o->size,nullptr); Expr*e=mkZExt(v.e,8*n); for(u32 i=0;i<n;i++){ Expr*b=mkExtract(e,8*i,8); if(isC(b)){ o->d[off+i]=b->c; o->fl[off+i]=0; o->sy[off+i]=nullptr; } else { o->fl[off+i]=2; o->sy[off+i]=b; o->d[off+i]=0; } } }
  void dropAtoms(Object*o,u32 off,u32 n){ if(o->atoms.empty()) return; auto&a=o->atoms; for(size_t i=0;i<a.size();) if(a[i].off<off+n&&off<a[i].off+a[i].size) a.erase(a.begin()+i); else i++; }
  V load(State&s,int t,u64 addr,u32 n,unsigned w){ int i; u32 off; Object*o=access(s,t,addr,n,false,false,i,off); return loadRaw(o,off,n,w); }
  void store(State&s,int t,u64 addr,u32 n,unsigned w,V v){ int i; u32 off; Object*o=access(s,t,addr,n,true,false,i,off); if(n==8&&o->escaped){ escapeV(s,v); i=findIdx(s,addr);} o=mutObj(s,i); dropAtoms(o,off,n); storeRaw(o,off,n,w,v); }
  void copyMem(State&s,int t,u64 d,u64 src,u64 n){ if(!n) return; int i,j; u32 so,doff; Object*a=access(s,t,src,n,false,false,i,so); std::vector<u8> db(a->d.begin()+so,a->d.begin()+so+n),fb; std::vector<Expr*> sb; if(!a->fl.empty()){ fb.assign(a->fl.begin()+so,a->fl.begin()+so+n); if(!a->sy.empty()) sb.assign(a->sy.begin()+so,a->sy.begin()+so+n); 
      for(u64 k=0;k<n;k++) if(fb[k]==1){} }
    Object*b=access(s,t,d,n,true,false,j,doff); if(b->escaped){ for(u64 k=0;k+8<=n;k++) if(((d+k)&7)==0){ bool c=true; if(!fb.empty()) for(int x=0;x<8;x++) if(fb[k+x]){c=false; if(fb[k+x]==2) escapeExpr(s,sb[k+x]);} if(c){ u64 w; memcpy(&w,&db[k],8); escapeAddr(s,w);} } j=findIdx(s,d);} b=mutObj(s,j); dropAtoms(b,doff,n); memcpy(&b->d[doff],db.data(),n); if(!fb.empty()||!b->fl.empty()){ if(b->fl.empty()) b->fl.assign(b->size,0); if(!sb.empty()&&b->sy.empty()) b->sy.assign(b->size,nullptr); for(u64 k=0;k<n;k++){ b->fl[doff+k]=fb.empty()?0:fb[k]; if(!b->sy.empty()) b->sy[doff+k]=sb.empty()?nullptr:sb[k]; } } }
  void setMem(State&s,int t,u64 d,u8 v,u64 n){ if(!n) return; int j; u32 off; access(s,t,d,n,true,false,j,off); Object*b=mutObj(s,j); dropAtoms(b,off,n); memset(&b->d[off],v,n); if(!b->fl.empty()) memset(&b->fl[off],0,n); }
  u64 heapAlloc(State&s,int t,u64 n,u64 al=16){ if(n>(1u<<24)) perr("huge-allocation","allocation of "+std::to_string(n)+" bytes"); Thread&th=s.th[t]; if(al<16) al=16; u64 a=(th.heapTop+al-1)/al*al; th.heapTop=a+((n+31)&~15ull)+16; Object*o=newObj(a,n,OHeap,t,true); if(th.guards) o->noleak=true; insertObj(s,o); return a; }
  void heapFree(State&s,int t,u64 p,u8 how){ if(!p) return; int i=findIdx(s,p); if(i<0) perr("double-free","free of "+hexs(p)+" which is not a live heap object"); Object*o=s.objs[i].p; if(o->kind!=OHeap||o->base!=p) perr("bad-free","free of "+hexs(p)+" inside "+objName(o)); if(o->anew!=how) perr("alloc-dealloc-mismatch",objName(o)); race(s,t,i,0,std::max<u32>(1,o->size),true,false); eraseObj(s,findIdx(s,p)); }
  // ---------- solver
  void slice(State&s,Expr*c,std::vector<Expr*>&out){ u64 b=c->bloom; std::vector<char> used(s.data.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<s.data.size();i++) if(!used[i]&&(s.data[i]->bloom&b)){ used[i]=1; b|=s.data[i]->bloom; ch=true; } } for(size_t i=0;i<s.data.size();i++) if(used[i]) out.push_back(s.data[i]); if((b>>63)&1) out.push_back(s.path); out.push_back(c); }
  u64 evalM(State&s,Expr*e){ Evaluator E(s.model); return E.ev(e); }
  // is cond feasible in s? if so m is a full model
  int feasible(State&s,Expr*cond,Model&m){ if(isC(cond)){ m=s.model; return cond->c; } if(evalM(s,cond)){ m=s.model; return 1; } std::vector<Expr*> cs; slice(s,cond,cs); m=s.model; int r=S.check(cs,&m); if(r<0){ sawUnknown=true; engineError("solver returned unknown"); } return r; }
  std::vector<Expr*> dropped; void drop(State&s,Expr*c){ Expr*r=s.path; for(auto x:s.data) r=mkBin(EAnd,r,x); if(c) r=mkBin(EAnd,r,c); if(!isC(r)||r->c) dropped.push_back(r); }
  void addCons(State&s,Expr*c){ if(isC(c)) return; if(c->op==EAnd&&c->w==1){ addCons(s,c->k[0]); addCons(s,c->k[1]); return;} for(auto x:s.data) if(x==c) return; s.data.push_back(c); }
  void addSched(State&s,Expr*c){ s.path=mkBin(EAnd,s.path,c); }
  void undefCheck(State&s,Expr*c){ if(!c->undef||!C.uninit) return; // does the outcome depend on uninitialised memory, all inputs fixed?
    std::vector<Expr*> cs; std::set<Expr*> seen; std::vector<Expr*> st{c}; while(!st.empty()){ Expr*e=st.back(); st.pop_back(); if(!seen.insert(e).second) continue; if(e->op==EVar&&!e->undef){ u64 v=e->c<s.model.size()?s.model[e->c]:0; cs.push_back(mkBin(EEq,e,mkConst(e->w,v))); } for(int i=0;i<e->nk;i++) st.push_back(e->k[i]); }
    u64 v=evalM(s,c); cs.push_back(mkNot(mkBin(EEq,c,mkConst(c->w,v)))); if(S.check(cs,nullptr)==1) perr("uninitialised","control flow or an address depends on uninitialised memory"); }
  // fork-on-value: returns concrete value of v in the current state; other feasible values go to the work list (they re-execute the instruction)
  u64 concretize(State&s,V v,unsigned w){ if(v.conc()) return v.c; undefCheck(s,v.e); if(guided&&!v.e->undef) engineError("symbolic value in guided replay"); u64 x=evalM(s,v.e)&maskw(w); Expr*eq=mkBin(EEq,v.e,mkConst(w,x)); Model m; if(feasible(s,mkNot(eq),m)){ if(++T.forks>C.forkLimit*64ull) engineError("too many forks"); State*n=new State(s); n->model=m; addCons(*n,mkNot(eq)); work->push_back(n);} addCons(s,eq); return x; }
  bool branch(State&s,V c){ if(c.conc()) return c.c&1; undefCheck(s,c.e); if(guided&&!c.e->undef) engineError("symbolic branch in guided replay"); T.branchesSym++; bool d=evalM(s,c.e); Expr*other=d?mkNot(c.e):c.e; Model m; if(feasible(s,other,m)){ T.forks++; State*n=new State(s); n->model=m; addCons(*n,other); work->push_back(n);} addCons(s,d?c.e:mkNot(c.e)); return d; }
  // environment choice among n options; each is a separate successor, selected by a schedule variable
  u32 pickNext=~0u;
  u32 choose(State&s,u32 n,const char*tag){ if(n<=1) return 0; std::string nm="c!"+std::to_string(level)+"!"+std::to_string(s.choices); Expr*v=mkVar(nm,8,true); s.choices++;
    if(guided){ u64 x=v->c<gmodel.size()?gmodel[v->c]:0; u32 r=std::min<u64>(x,n-1); note(s,1,s.th[ct].ops,r); return r; }
    // fork: the other options are explored by clones that resume here with a preset answer
    for(u32 i=1;i<n;i++){ State*k=new State(s); k->choices--; preset.push_back({k,i,n}); work->push_back(k); T.forks++; }
    addSched(s,optCond(v,0,n)); setM(s,v,0); return 0; }
  struct Pre{State*s;u32 i,n;}; std::vector<Pre> preset; 
  Expr* optCond(Expr*v,u32 i,u32 n){ return i+1<n?mkBin(EEq,v,mkConst(8,i)):mkNot(mkBin(EUlt,v,mkConst(8,n-1))); }
  void setM(State&s,Expr*v,u64 x){ if(s.model.size()<=v->c) s.model.resize(gVars.size(),0); s.model[v->c]=x; }
  // choose() with presets: a clone re-executes the instruction and must take its preset option
  u32 chooseP(State&s,u32 n,const char*tag){ if(n<=1) return 0; for(size_t k=0;k<preset.size();k++) if(preset[k].s==&s){ u32 i=preset[k].i; if(preset[k].n!=n) engineError("choice mismatch"); preset.erase(preset.begin()+k); std::string nm="c!"+std::to_string(level)+"!"+std::to_string(s.choices); Expr*v=mkVar(nm,8,true); s.choices++; addSched(s,optCond(v,i,n)); setM(s,v,i); return i; } return choose(s,n,tag); }
  void note(State&s,u64 kind,u64 key,u64 val){ if(guided&&s.tr) s.tr->notes.push_back({kind,key,val}); }
  // ---------- atomics
  AtomLoc& atomLoc(Object*o,u32 off,u32 n,unsigned w){ for(auto&a:o->atoms) if(a.off==off&&a.size==n) return a; Msg m; for(auto&q:o->atoms) if(q.off<off+n&&off<q.off+q.size) m.rel.join(q.msgs.back().rel); /* mixed sizes: the parts' releases still count */ dropAtoms(o,off,n); AtomLoc a; a.off=off;a.size=n;a.sc=-1; m.val=loadRaw(o,off,n,w); a.msgs.push_back(m); o->atoms.push_back(a); return o->atoms.back(); }
  u32 minReadable(State&s,int t,AtomLoc&a,bool sc){ u32 mn=0; VC&vc=s.th[t].vc; for(u32 i=a.msgs.size();i-->1;){ bool known=false; for(int u=0;u<NT;u++) if(a.msgs[i].seen.c[u]&&(u==t||vc.c[u]>=a.msgs[i].seen.c[u])) known=true; if(known){mn=i;break;} } if(sc&&a.sc>(i32)mn) mn=a.sc; return mn; }
  void doAcquire(State&s,int t,Msg&m,u8 mo){ if(mo==1||mo==3||mo==4) s.th[t].vc.join(m.rel); else s.th[t].facq.join(m.rel); }
  V atomicLoad(State&s,int t,u64 addr,u32 n,unsigned w,u8 mo){ int i;u32 off; Object*o=access(s,t,addr,n,false,true,i,off); if(!o->escaped&&!C.weak) return loadRaw(o,off,n,w); if(o->ro) return loadRaw(o,off,n,w);
    AtomLoc*a=nullptr; { o=mutObj(s,i); a=&atomLoc(o,off,n,w); } u32 mn=minReadable(s,t,*a,mo==4); u32 cnt=a->msgs.size()-mn; u32 back=0; if(cnt>1&&C.weak&&!s.th[t].fresh){ back=chooseP(s,cnt,"rf"); if(back) s.th[t].stale=true; o=mutObj(s,i); a=&atomLoc(o,off,n,w); /* choose() shared the object with its clones */ } s.th[t].fresh=false; 
    /* a later seq_cst load reads nothing older than this one did (C++20 coherence-ordered-before) */ if(mo==4&&a->msgs.size()>1) a->sc=std::max<i32>(a->sc,a->msgs.size()-1-back); Msg&m=a->msgs[a->msgs.size()-1-back]; if(a->msgs.size()>1&&!m.seen.c[t]) m.seen.c[t]=s.th[t].vc.c[t]; Msg mm=m; doAcquire(s,t,mm,mo); return mm.val; }
  void pushMsg(State&s,int t,Object*o,AtomLoc&a,V v,unsigned w,u8 mo,bool rmw){ Msg m; m.val=v; bool rel=mo==2||mo==3||mo==4; m.rel=rel?s.th[t].vc:s.th[t].frel; if(rmw) m.rel.join(a.msgs.back().rel); m.seen.c[t]=s.th[t].vc.c[t];
    if(!C.weak) a.msgs.clear(); a.msgs.push_back(m); if(mo==4) a.sc=a.msgs.size()-1; storeRaw(o,a.off,a.size,w,v); if(rel) s.th[t].vc.c[t]++; }
  void atomicStore(State&s,int t,u64 addr,u32 n,unsigned w,V v,u8 mo){ int i;u32 off; Object*o=access(s,t,addr,n,true,true,i,off); if(n==8&&o->escaped){ escapeV(s,v); i=findIdx(s,addr);} o=mutObj(s,i); AtomLoc&a=atomLoc(o,off,n,w); pushMsg(s,t,o,a,v,w,mo,false); }
  V atomicRmw(State&s,int t,u64 addr,u32 n,unsigned w,u8 op,V v,u8 mo){ int i;u32 off; Object*o=access(s,t,addr,n,true,true,i,off); if(n==8&&o->escaped){ escapeV(s,v); i=findIdx(s,addr);} o=mutObj(s,i); AtomLoc&a=atomLoc(o,off,n,w); Msg m=a.msgs.back(); V old=m.val; using R=llvm::AtomicRMWInst; V nv; switch(op){ case R::Xchg:nv=v;break;case R::Add:nv=vbin(EAdd,w,old,v);break;case R::Sub:nv=vbin(ESub,w,old,v);break;case R::And:nv=vbin(EAnd,w,old,v);break;case R::Or:nv=vbin(EOr,w,old,v);break;case R::Xor:nv=vbin(EXor,w,old,v);break;
      case R::Max:case R::Min:case R::UMax:case R::UMin:{ V c=vbin(op==R::Max||op==R::Min?ESlt:EUlt,w,old,v); bool mx=op==R::Max||op==R::UMax; Expr*r=mkIte(ex(c,1),ex(mx?v:old,w),ex(mx?old:v,w)); nv=V(r); break; } default: engineError("atomicrmw op"); }
    doAcquire(s,t,m,mo); pushMsg(s,t,o,a,nv,w,mo,true); return old; }
  void cmpxchg(State&s,int t,u64 addr,u32 n,unsigned w,V exp,V nv,u8 mo,u8 mof,V&old,V&ok){ int i;u32 off; Object*o=access(s,t,addr,n,false,true,i,off); o=mutObj(s,i); AtomLoc*a=&atomLoc(o,off,n,w);
    // a failing compare-exchange may read an older message
    if(C.weak&&a->msgs.size()>1&&exp.conc()){ u32 mn=minReadable(s,t,*a,mof==4||mo==4); std::vector<u32> opts{(u32)a->msgs.size()-1}; for(u32 k=a->msgs.size()-1;k-->mn;) if(a->msgs[k].val.conc()&&a->msgs[k].val.c!=exp.c) opts.push_back(k); u32 c=chooseP(s,opts.size(),"casrf"); if(c){ s.th[t].stale=true; o=mutObj(s,i); a=&atomLoc(o,off,n,w); if(mof==4) a->sc=std::max<i32>(a->sc,opts[c]); Msg&m=a->msgs[opts[c]]; if(!m.seen.c[t]) m.seen.c[t]=s.th[t].vc.c[t]; Msg mm=m; doAcquire(s,t,mm,mof); old=mm.val; ok=V(0ull); return; } }
    Msg m=a->msgs.back(); V eq=vbin(EEq,w,m.val,exp); bool e=branch(s,eq); // branch() may have cloned s before any change below
    old=m.val; if(e){ int j;u32 of2; Object*q=access(s,t,addr,n,true,true,j,of2); if(n==8&&q->escaped){ escapeV(s,nv); j=findIdx(s,addr);} q=mutObj(s,j); AtomLoc&b=atomLoc(q,off,n,w); doAcquire(s,t,m,mo); pushMsg(s,t,q,b,nv,w,mo,true); ok=V(1ull);} else { Object*q=mutObj(s,i); AtomLoc&b=atomLoc(q,off,n,w); if(mof==4&&b.msgs.size()>1) b.sc=b.msgs.size()-1; Msg&l=b.msgs.back(); if(b.msgs.size()>1&&!l.seen.c[t]) l.seen.c[t]=s.th[t].vc.c[t]; doAcquire(s,t,m,mof); ok=V(0ull);} }
  // ---------- exceptions
  bool tiName(u64 ti,std::string&n){ auto it=P.gByAddr.find(ti); if(it==P.gByAddr.end()) return false; n=P.globals[it->second].name; return true; }
  bool tiMatch(u64 thrown,u64 want,u64&adj){ if(thrown==want) return true; std::string a,b; if(tiName(thrown,a)&&tiName(want,b)&&a==b) return true; auto it=P.gByAddr.find(thrown); if(it==P.gByAddr.end()) return false; auto*G=P.globals[it->second].G; if(!G->hasInitializer()) return false; auto*cs=dyn_cast<llvm::ConstantStruct>(G->getInitializer()); if(!cs) return false; auto*vt=cs->getOperand(0)->stripInBoundsConstantOffsets(); std::string vn=vt->getName().str();
    if(vn.find("__si_class_type_info")!=std::string::npos){ return tiMatch(P.constInt(cs->getOperand(2)),want,adj); }
    if(vn.find("__vmi_class_type_info")!=std::string::npos){ unsigned n=P.constInt(cs->getOperand(3)); for(unsigned i=0;i<n;i++){ u64 a2=adj+(P.constInt(cs->getOperand(5+2*i))>>8); if(tiMatch(P.constInt(cs->getOperand(4+2*i)),want,a2)){ adj=a2; return true; } } }
    return false; }
  u64 tiIndex(u64 ti){ return ((ti-GLOB0)&0x3fffffff)+1; }
  // hdr: address of the in-flight record: [0]=adjusted pointer, [8]=object pointer, [16]=type info
  void unwind(State&s,int t,u64 hdr){ Thread&th=s.th[t]; u64 obj=load(s,t,hdr+8,8,64).c, ti=load(s,t,hdr+16,8,64).c; 
    while(true){ if(th.st.empty()){ std::string n; tiName(ti,n); perr("uncaught-exception","exception of type "+llvm::demangle(n)+" leaves its thread"); }
      Frame*f=th.st.back().p; Inst&x=f->fn->code[f->pc]; 
      if(x.op==ICall&&x.call->invoke){ Inst*lp=nullptr; u32 k=x.call->unwind.target; while(k<f->fn->code.size()&&f->fn->code[k].op==IMove) k++; lp=&f->fn->code[k]; if(lp->op!=ILandingPad) engineError("no landing pad"); i64 sel=-1; u64 adj=0; bool hit=false; for(u64 c:lp->lp->catches){ adj=0; if(c==0||tiMatch(ti,c,adj)){ sel=c?tiIndex(c):0x7fffffff; hit=true; break; } } 
        if(!hit&&!lp->lp->filters.empty()){ for(auto&fl:lp->lp->filters){ bool in=false; for(u64 c:fl){ u64 a2=0; if(tiMatch(ti,c,a2)) in=true; } if(!in) perr("terminate","exception specification violated"); } }
        if(hit||lp->lp->cleanup){ f=th.st.back().mut(); storeQ(s,t,hdr,obj+(hit?adj:0)); f->r.resize(std::max<size_t>(f->r.size(),f->fn->nregs+2)); lpHdr=hdr; lpSel=hit?sel:0; takeEdge(*f,x.call->unwind); f->pc=k; f->r[lp->dst]=V(hdr); f->r[lp->dst+1]=V((u64)(hit?sel:0)); f->pc=k+1; f->touch(); return; } }
      popFrame(s,t); } }
  Expr*failCond=nullptr; u64 tick=0; double t0=now(); bool timedOut=false; static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); } u64 lpHdr=0; u64 lpSel=0;
  void storeQ(State&s,int t,u64 a,u64 v){ store(s,t,a,8,64,V(v)); }
  // ---------- frames
  void pushFrame(State&s,int t,Fn*fn,const std::vector<V>&args){ P.compile(fn); fn->hits++; Thread&th=s.th[t]; if(th.st.size()>400) perr("stack-overflow","more than 400 nested calls"); Frame*f=new Frame; f->fn=fn; f->r.resize(fn->nregs); size_t k=0; for(size_t i=0;i<fn->argReg.size();i++) for(int j=0;j<fn->argSlots[i];j++) if(k<args.size()) f->r[fn->argReg[i]+j]=args[k++]; if(fn->coroDestroy&&args.size()&&!args[0].e){ f->dying=args[0].c; for(auto&q:th.st) if(q->fn==fn&&q->dying==f->dying) perr("coroutine-redestroyed","a coroutine is destroyed while it is being destroyed"); } f->stackBase=th.stackTop; th.st.push_back(IP<Frame>(f)); }
  u64 stackAlloc(State&s,int t,u64 n,u64 al,bool undef=true){ Thread&th=s.th[t]; u64 a=(th.stackTop+al-1)/al*al; th.stackTop=a+((n+15)&~15ull)+16; Object*o=newObj(a,n,OStack,t,undef); insertObj(s,o); th.st.back().mut()->allocas.push_back(a); return a; }
  void popFrame(State&s,int t){ Thread&th=s.th[t]; Frame*f=th.st.back().p; for(size_t i=f->allocas.size();i-->0;){ int j=findIdx(s,f->allocas[i]); if(j<0) engineError("lost alloca"); Object*o=s.objs[j].p; if(o->escaped&&o->size&&!o->dead) race(s,t,j,0,o->size,true,false); eraseObj(s,findIdx(s,f->allocas[i])); } th.stackTop=f->stackBase; th.st.pop_back(); }
  void takeEdge(Frame&f,const Edge&e){ if(!e.copies.empty()){ if(e.copies.size()==1){ f.r[e.copies[0].first]=op(f,e.copies[0].second); } else { V tmp[64]; size_t n=e.copies.size(); std::vector<V> big; V*p=tmp; if(n>64){ big.resize(n); p=big.data(); } for(size_t i=0;i<n;i++) p[i]=op(f,e.copies[i].second); for(size_t i=0;i<n;i++) f.r[e.copies[i].first]=p[i]; } } f.pc=e.target; }
  static inline V op(Frame&f,Opnd o){ return o>=0?f.r[o]:f.fn->consts[~o]; }
  // ---------- mutexes
  int mxFind(State&s,u64 a){ for(size_t i=0;i<s.mx.size();i++) if(s.mx[i].addr==a) return i; return -1; }
  bool mxFree(State&s,u64 a){ int i=mxFind(s,a); return i<0||s.mx[i].owner<0; }
  bool libBits(State&s,int t){ auto&st=s.th[t].st; for(size_t i=st.size(),k=0;i-->0&&k<8;k++) if(st[i]->fn->name.find("_Sp_atomic")!=std::string::npos) return true; return false; } // std::atomic<shared_ptr> of libstdc++ 13 unlocks with relaxed order
  bool mxMine(State&s,int t,u64 a){ int i=mxFind(s,a); if(i<0||s.mx[i].owner!=t) return false; int j; u32 off; Object*o=access(s,t,a+16,4,false,true,j,off); u32 kind; memcpy(&kind,&o->d[off],4); return kind==1; } // a recursive mutex
  void mxLock(State&s,int t,u64 a){ int i=mxFind(s,a); if(i<0){ s.mx.push_back({a,-1,0,VC()}); i=s.mx.size()-1; } if(s.mx[i].owner==t){ s.mx[i].depth++; s.wrote=true; return; } s.mx[i].owner=t; s.wrote=true; s.th[t].vc.join(s.mx[i].vc); }
  void mxUnlock(State&s,int t,u64 a){ int i=mxFind(s,a); if(i<0||s.mx[i].owner!=t) perr("bad-unlock","mutex unlocked by a thread that does not own it"); if(s.mx[i].depth){ s.mx[i].depth--; s.wrote=true; return; } s.mx[i].owner=-1; s.wrote=true; s.mx[i].vc.join(s.th[t].vc); s.th[t].vc.c[t]++; }
  void mxTouch(State&s,int t,u64 a,u32 n=40){ int i;u32 off; access(s,t,a,8,false,true,i,off); }
  bool enabled(State&s,int t){ Thread&th=s.th[t]; if(th.status!=1) return false; switch(th.pend){ case PLock: return mxFree(s,th.paddr); case PJoin: return s.th[th.paddr].status>=2; case PYield: return !th.yielded; case PCondReacq: return mxFree(s,th.paddr)&&(th.wphase==2||(th.timed&&!C.lazytime)); default: return true; } }
  // ---------- run thread t from its pending operation to its next scheduling point. Results: states appended to out.
  enum R { RPark, RFinished, RMainDone, RAbandon };
  int runPath(State&s,int t); // exec.cpp
  bool callIntrinsic(State&s,int t,Fn*fn,Inst&x,std::vector<V>&a,bool first,V*ret,int&res); // returns true if handled as finished call; res=RPark if it must wait
  void step(State*s0,int t,std::vector<State*>&out,std::vector<State*>&finals);
};
