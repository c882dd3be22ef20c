#pragma once
#include "exec.h"
#include <sys/resource.h>
#include <fstream>
#include <algorithm>
struct H128 { u64 a,b; bool operator==(const H128&o)const{return a==o.a&&b==o.b;} };
struct H128h { size_t operator()(const H128&h)const{return h.a^h.b*31;} };
static double nowSec(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((u8)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r; }

struct Driver {
  Ex&E; Config&C; double t0; std::vector<Expr*> finalConds; Expr* dropped=nullptr; u64 finalCount=0, subsumed=0; std::unordered_map<H128,std::vector<Expr*>,H128h> visited; static bool subset(const std::vector<Expr*>&a,const std::vector<Expr*>&b){ for(auto x:a) if(std::find(b.begin(),b.end(),x)==b.end()) return false; return true; } // states explored at earlier levels
  Model witModel; bool haveWit=false; std::string inconclusive; 
  Driver(Ex&e):E(e),C(e.C){ t0=nowSec(); }
  void canon(State&s){
    int n=s.th.size(); std::vector<int> L; for(int i=0;i<n;i++) if(s.th[i].status==1) L.push_back(i);
    for(auto&h:s.th) if(h.status==3) h.vc=VC();
    auto known=[&](const VC&v){ for(int u:L) if(!v.le(s.th[u].vc)) return false; return true; };
    std::vector<int> dirty; 
    for(size_t i=0;i<s.objs.size();i++){ Object*o=s.objs[i].p; if(o->recs.empty()&&o->atoms.empty()) continue;
      bool need=false; for(auto&r:o->recs){ bool k=true; for(int u:L) if(u!=r.tid&&s.th[u].vc.c[r.tid]<r.clk){k=false;break;} if(k){need=true;break;} }
      if(need){ o=s.objs[i].mut(); size_t w=0; for(size_t j=0;j<o->recs.size();j++){ Rec&r=o->recs[j]; bool k=true; for(int u:L) if(u!=r.tid&&s.th[u].vc.c[r.tid]<r.clk){k=false;break;} if(!k) o->recs[w++]=r; } o->recs.resize(w); std::sort(o->recs.begin(),o->recs.end(),[](const Rec&a,const Rec&b){ return std::tie(a.off,a.len,a.tid,a.write,a.atomic,a.clk)<std::tie(b.off,b.len,b.tid,b.write,b.atomic,b.clk); }); }
      if(!o->atoms.empty()){ o=s.objs[i].mut(); for(size_t j=0;j<o->atoms.size();){ AtomLoc&a=o->atoms[j]; if(a.msgs.size()>1){ u32 mn=a.msgs.size()-1; for(int u:L) mn=std::min(mn,E.minReadable(s,u,a,false)); if(mn){ a.msgs.erase(a.msgs.begin(),a.msgs.begin()+mn); a.sc=a.sc>=(i32)mn?a.sc-mn:-1; } }
          for(auto&m:a.msgs) if(known(m.rel)) m.rel=VC(); if(a.msgs.size()==1){ a.msgs[0].seen=VC(); a.sc=-1; if(a.msgs[0].rel.zero()){ o->atoms.erase(o->atoms.begin()+j); continue; } } j++; }
          std::sort(o->atoms.begin(),o->atoms.end(),[](const AtomLoc&a,const AtomLoc&b){return a.off<b.off;}); }
      if(!o->recs.empty()||!o->atoms.empty()) dirty.push_back(i); }
    for(size_t i=0;i<s.mx.size();){ if(known(s.mx[i].vc)) s.mx[i].vc=VC(); if(s.mx[i].owner<0&&s.mx[i].vc.zero()) s.mx.erase(s.mx.begin()+i); else i++; }
    std::sort(s.mx.begin(),s.mx.end(),[](const Mutex&a,const Mutex&b){return a.addr<b.addr;});
    for(auto&h:s.th){ if(h.facq.le(h.vc)) h.facq=VC(); if(known(h.frel)) h.frel=VC(); } if(known(s.scvc)) s.scvc=VC();
    std::vector<u16> R[NT]; for(int i:dirty){ Object*o=s.objs[i].p; for(auto&r:o->recs) R[r.tid].push_back(r.clk); for(auto&a:o->atoms) for(auto&m:a.msgs) for(int u=0;u<n;u++) if(m.seen.c[u]) R[u].push_back(m.seen.c[u]); }
    u16 own[NT]; for(int u=0;u<n;u++){ auto&r=R[u]; std::sort(r.begin(),r.end()); r.erase(std::unique(r.begin(),r.end()),r.end()); u16 c=s.th[u].vc.c[u]; own[u]= !r.empty()&&r.back()==c?c:c; }
    auto rank=[&](int u,u16 v)->u16{ return std::upper_bound(R[u].begin(),R[u].end(),v)-R[u].begin(); };
    auto rvc=[&](VC&v){ for(int u=0;u<n;u++) if(v.c[u]) v.c[u]=rank(u,v.c[u]); };
    // a clock value that equals the owner's current epoch can only sit in the owner's own clock or in R
    std::vector<u16> newOwn(n); for(int u=0;u<n;u++){ u16 c=s.th[u].vc.c[u]; newOwn[u]= s.th[u].status==3?0:(!R[u].empty()&&R[u].back()==c)?R[u].size():R[u].size()+1; }
    for(int i:dirty){ Object*o=s.objs[i].p; bool ch=false; for(auto&r:o->recs) if(rank(r.tid,r.clk)!=r.clk) ch=true; if(!o->atoms.empty()) ch=true; if(!ch) continue; o=s.objs[i].mut(); for(auto&r:o->recs) r.clk=rank(r.tid,r.clk); for(auto&a:o->atoms) for(auto&m:a.msgs){ rvc(m.rel); rvc(m.seen);} }
    for(auto&m:s.mx) rvc(m.vc); rvc(s.scvc);
    for(int u=0;u<n;u++){ Thread&h=s.th[u]; rvc(h.facq); rvc(h.frel); rvc(h.vc); h.vc.c[u]=newOwn[u]; }
  }
  H128 hash(State&s){ u64 a=s.th.size(),b=17; for(auto&h:s.th){ a=mix(a,h.status|h.pend<<8|h.wphase<<16|h.timed<<24|h.yielded<<25|h.fresh<<26|h.stale<<27); a=mix(a,h.paddr); a=mix(a,h.caddr); a=h.vc.hash(a); a=h.facq.hash(a); a=h.frel.hash(a); b=mix(b,h.heapTop); b=mix(b,h.stackTop*3+h.nsym); for(auto&f:h.st){ f->hash(); a=mix(a,f->h1); b=mix(b,f->h2);} }
    u64 oa=0,ob=0; for(auto&o:s.objs){ o->hash(); oa+=o->h1; ob+=mix(o->h2,3); } a=mix(a,oa); b=mix(b,ob); for(auto&m:s.mx){ a=mix(a,m.addr); a=mix(a,m.owner+m.depth*64); b=m.vc.hash(b);} a=mix(a,s.now.e?s.now.e->hash:s.now.c); b=mix(b,s.leakcheck|s.spur<<1); a=s.scvc.hash(a); if(C.preempt>=0) b=mix(b,s.lastTid*64+s.preempt); return {a,b}; }
  Expr* conj(const std::vector<Expr*>&v){ Expr*r=mkConst(1,1); for(auto x:v) r=mkBin(EAnd,r,x); return r; }
  void mergeInto(State&a,State&b){ // identical contents: a's and b's path conditions are joined
    if(a.data!=b.data){ std::vector<Expr*> common,ra,rb; for(auto x:a.data) (std::find(b.data.begin(),b.data.end(),x)!=b.data.end()?common:ra).push_back(x); for(auto x:b.data) if(std::find(a.data.begin(),a.data.end(),x)==a.data.end()) rb.push_back(x);
      Expr*ca=conj(ra),*cb=conj(rb); Expr*o= a.path==b.path?mkBin(EOr,ca,cb):mkBin(EOr,mkBin(EAnd,a.path,ca),mkBin(EAnd,b.path,cb)); if(a.path!=b.path) a.mixed=true; a.data=common; if(!isC(o)) a.data.push_back(o); }
    a.mixed|=b.mixed; a.path= a.path==b.path?a.path:mkBin(EOr,a.path,b.path); }
  // Nobody else can run: does a thread that yields get anywhere by itself (a bounded number of attempts), or does it spin?
  bool gets(State&s0,int t){ u32 lvl=E.level; auto keep=E.T; auto cov=E.dropped.size(); auto nv=E.viol.size(); bool r=false; State*s=new State(s0); std::unordered_map<H128,char,H128h> own; canon(*s);
    for(int i=0;i<300;i++){ if(!own.emplace(hash(*s),1).second) break; if(i==299) break; std::vector<State*> out,fin; s->choices=0; if(s->tr){ Trace*tr=new Trace; tr->tid=t; tr->rc=1; s->tr=IP<Trace>(tr); } E.step(s,t,out,fin); s=nullptr;
      if(out.size()==1&&fin.empty()&&E.viol.size()==nv&&out[0]->th[t].status==1&&out[0]->th[t].pend==PYield){ s=out[0]; canon(*s); std::vector<int> others; for(size_t u=0;u<s->th.size();u++) if((int)u!=t&&(E.enabled(*s,u)||(s->wrote&&s->th[u].pend==PYield&&s->th[u].status==1))) others.push_back(u); if(others.empty()) continue; out.clear(); r=true; break; }
      for(auto p:out) delete p; for(auto p:fin) delete p; r=true; break; }
    delete s; E.viol.resize(nv); E.T=keep; E.dropped.resize(cov); E.level=lvl; return r; }
  void enabledList(State&s,std::vector<int>&e){ e.clear(); for(size_t t=0;t<s.th.size();t++) if(E.enabled(s,t)) e.push_back(t);
    if(e.empty()) for(size_t t=0;t<s.th.size();t++) if(s.th[t].status==1&&s.th[t].pend==PYield&&gets(s,t)) e.push_back(t);
    if(e.empty()&&C.lazytime){ for(size_t t=0;t<s.th.size();t++){ Thread&h=s.th[t]; if(h.status==1&&h.pend==PCondReacq&&h.timed&&E.mxFree(s,h.paddr)) e.push_back(t); } }
    if(C.wakes>(int)s.spur&&!e.empty()) for(size_t t=0;t<s.th.size();t++){ Thread&h=s.th[t]; if(h.status==1&&h.pend==PCondReacq&&h.wphase==1&&!h.timed&&E.mxFree(s,h.paddr)) e.push_back(t); } // woken for no reason
    if(C.preempt>=0&&e.size()>1){ bool in=std::find(e.begin(),e.end(),(int)s.lastTid)!=e.end(); if(in&&(int)s.preempt>=C.preempt){ e.assign(1,s.lastTid); } } }
  std::string blockedDesc(State&s){ std::string r; E.cur=&s; for(size_t t=0;t<s.th.size();t++) if(s.th[t].status==1){ E.ct=t; const char*k="?"; switch(s.th[t].pend){case PLock:k="mutex";break;case PJoin:k="join";break;case PYield:k="spin";break;case PCondReacq:k="condition variable";break;} r+=std::string(r.empty()?"":" | ")+"["+k+"] "+E.where(); } return r; }
  std::string runningDesc(State&s){ E.cur=&s; int t; if(!sole(s,t)) return ""; E.ct=t; return E.where(); }
  State* initial(){ State*s=new State; s->path=mkConst(1,1); s->th.resize(1); Thread&h=s->th[0]; h.status=1; h.heapTop=HEAP0+4096; h.stackTop=STACK0+4096; h.vc.c[0]=1; 
    auto*gc=E.P.M->getGlobalVariable("llvm.global_ctors"); if(gc&&gc->hasInitializer()) if(auto*ca=dyn_cast<llvm::ConstantArray>(gc->getInitializer())){ std::vector<std::pair<u64,llvm::Function*>> fs; for(auto&o:ca->operands()){ auto*cs=cast<llvm::ConstantStruct>(o); if(auto*f=dyn_cast<llvm::Function>(cs->getOperand(1))) fs.push_back({cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(fs.begin(),fs.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&f:fs){ std::vector<State*> wl; E.work=&wl; E.pushFrame(*s,0,E.P.fns[f.second],{}); if(E.runPath(*s,0)!=Ex::RMainDone||!wl.empty()) engineError("global constructor did not run to completion"); } }
    // objects created by static initialisers live for the whole program
    for(auto&o:s->objs) if(o->kind==OHeap) o.mut()->noleak=true;
    for(auto&o:s->objs) (void)o;
    s->th[0].ops=0; s->th[0].nsym=0; Fn*m=E.P.fnByName("main"); if(!m) engineError("no main"); E.pushFrame(*s,0,m,std::vector<V>(2)); s->th[0].pend=PStart; return s; }
  // a spinning thread is woken by a step of another thread that changed something
  void wake(std::vector<State*>&out,size_t from,int t){ for(size_t i=from;i<out.size();i++){ State*n=out[i]; if(!n->wrote) continue; for(size_t u=0;u<n->th.size();u++) if((int)u!=t) n->th[u].yielded=false; } }
  bool expand(State*s,std::vector<State*>&out,std::vector<State*>&fin){ // false: stop
    std::vector<int> e; enabledList(*s,e);
    if(e.empty()){ Violation v; v.cond=s->data; v.cond.push_back(s->path); v.kind="deadlock"; v.msg="no thread can make progress (lost wake-up, deadlock or endless spinning): "+blockedDesc(*s); v.where=""; v.model=s->model; v.depth=s->depth; E.viol.push_back(v); delete s; return false; }
    Expr*sv=e.size()>1?mkVar("s!"+std::to_string(E.level),8,true):nullptr; Expr*path0=s->path; 
    for(size_t i=0;i<e.size();i++){ State*n= i+1==e.size()?s:new State(*s); int t=e[i]; if(sv){ n->path=mkBin(EAnd,path0,E.optCond(sv,i,e.size())); E.setM(*n,sv,i); }
      if(C.preempt>=0){ if((int)n->lastTid!=t&&std::find(e.begin(),e.end(),(int)n->lastTid)!=e.end()) n->preempt++; n->lastTid=t; }
      n->choices=0; n->depth++; E.T.transitions++; size_t o0=out.size(); E.step(n,t,out,fin); wake(out,o0,t); if(!E.viol.empty()){ if(i+1<e.size()) delete s; return false; } }
    return true; }
  // The only thread that can run comes back to a state it has been in, with nothing left open on the way (no
  // input, no choice, no timeout): it will do so for ever. Called for the states at which exploration stops because
  // they are known; every cycle has one.
  std::unordered_map<H128,char,H128h> walked; u64 walks=0, walkSteps=0;
  bool sole(State&s,int&t){ t=-1; for(size_t u=0;u<s.th.size();u++){ Thread&h=s.th[u]; if(h.status!=1) continue; if(h.timed||h.pend==PSleep) return false; if(E.enabled(s,u)){ if(t>=0) return false; t=u; } } return t>=0&&s.th[t].pend!=PCondReacq&&s.th[t].pend!=PCondWait; }
  bool endless(State&s0){ if(C.lazytime) return false; int t; if(!sole(s0,t)) return false; H128 h=hash(s0); if(walked.count(h)) return false; walks++; State*s=new State(s0); std::unordered_map<H128,char,H128h> own; bool r=false; u32 lvl=E.level; auto keep=E.T; auto cov=E.dropped.size();
    while(sole(*s,t)){ h=hash(*s); if(own.count(h)){ r=true; break; } if(!walked.emplace(h,1).second||own.size()>20000) break; own[h]=1; u32 ns=s->th[t].nsym; std::vector<State*> out,fin; s->choices=0; E.step(s,t,out,fin); walkSteps++; s=nullptr;
      if(out.size()==1&&fin.empty()&&E.viol.empty()){ s=out[0]; out.clear(); wakeOne(*s,t); canon(*s); if(s->th[t].nsym!=ns) break; continue; } for(auto p:out) delete p; for(auto p:fin) delete p; break; }
    delete s; E.viol.clear(); E.T=keep; E.dropped.resize(cov); E.level=lvl; return r; }
  void wakeOne(State&n,int t){ if(n.wrote) for(size_t u=0;u<n.th.size();u++) if((int)u!=t) n.th[u].yielded=false; }
  void explore(){
    std::vector<State*> fr{initial()}; E.level=0; E.T.states=1;
    while(!fr.empty()){
      std::unordered_map<H128,State*,H128h> next; std::vector<State*> order; E.T.maxFrontier=std::max<u64>(E.T.maxFrontier,fr.size());
      for(size_t i=0;i<fr.size();i++){ std::vector<State*> out,fin; bool ok=expand(fr[i],out,fin);
        for(auto s:fin){ finalCount++; E.T.terminals++; witModel=s->model; haveWit=true; finalConds.push_back(mkBin(EAnd,s->path,conj(s->data))); delete s; }
        for(auto s:out){ canon(*s); H128 h=hash(*s); auto it=next.find(h); auto vi=visited.find(h); if(vi!=visited.end()&&!s->mixed&&subset(vi->second,s->data)){ if(endless(*s)){ Violation v; v.cond=s->data; v.cond.push_back(s->path); v.kind="livelock"; v.msg="a thread runs for ever without making progress, and no other thread can run: "+runningDesc(*s); v.where=""; v.model=s->model; v.depth=s->depth; E.viol.push_back(v); return; } E.T.merged++; subsumed++; finalConds.push_back(mkBin(EAnd,s->path,conj(s->data))); delete s; } else if(it!=next.end()){ mergeInto(*it->second,*s); E.T.merged++; delete s; } else { next[h]=s; order.push_back(s); E.T.states++; } }
        if(!ok){ return; }
        if(E.timedOut){ inconclusive="time limit at level "+std::to_string(E.level)+", frontier "+std::to_string(fr.size()); return; }
        if((i&255)==0&&nowSec()-t0>C.timeout){ inconclusive="time limit at level "+std::to_string(E.level)+", frontier "+std::to_string(fr.size()); return; }
        if(E.T.states>C.maxStates){ inconclusive="state limit"; return; }
        if((i&255)==0){ struct rusage ru; getrusage(RUSAGE_SELF,&ru); if(ru.ru_maxrss/1024.0>C.memMB){ inconclusive="memory limit"; return; } } }
      for(auto&kv:next) if(!kv.second->mixed) visited[kv.first]=kv.second->data;
      fr.swap(order); E.level++; if(getenv("VK_VERBOSE")) fprintf(stderr,"level %d frontier %zu states %llu t=%.1f\n",E.level,fr.size(),(unsigned long long)E.T.states,nowSec()-t0);
    } E.T.levels=E.level; }
  // deterministic re-execution under the solver's model; writes the replay script
  bool guided(const Violation&v,const std::string&path,std::string&kind,std::string&msg,std::string&wh){
    E.viol.clear(); E.guided=true; E.gmodel=v.model; E.level=0; State*s=initial(); std::ofstream f(path); u32 steps=0; bool found=false; std::vector<std::string> notes; std::unordered_map<H128,char,H128h> seenG;
    while(true){ int st; if(!C.lazytime&&sole(*s,st)){ if(!seenG.emplace(hash(*s),1).second){ kind="livelock"; msg="a thread runs for ever without making progress, and no other thread can run: "+runningDesc(*s); found=true; break; } } else seenG.clear(); std::vector<int> e; enabledList(*s,e); if(e.empty()){ kind="deadlock"; msg="no thread can make progress: "+blockedDesc(*s); found=true; break; }
      int t=e[0]; if(e.size()>1){ auto it=gVarIdx.find("s!"+std::to_string(E.level)); u64 x=0; if(it!=gVarIdx.end()&&it->second<E.gmodel.size()) x=E.gmodel[it->second]; t=e[std::min<u64>(x,e.size()-1)]; }
      if(C.preempt>=0){ if((int)s->lastTid!=t&&std::find(e.begin(),e.end(),(int)s->lastTid)!=e.end()) s->preempt++; s->lastTid=t; }
      s->choices=0; Trace*tr=new Trace; tr->tid=t; tr->rc=1; s->tr=IP<Trace>(tr); std::vector<State*> out,fin; E.T.transitions++; E.step(s,t,out,fin); wake(out,0,t); steps++;
      u32 stop= out.empty()?~0u:out[0]->th[t].ops; int fp=out.empty()?-1:(out[0]->th[t].status!=1?-2:out[0]->th[t].pend);
      if(!tr->notes.empty()) seenG.clear(); for(auto&n:tr->notes) f<<(n[0]==1?"choice ":n[0]==2?"input ":"timeout ")<<t<<" "<<n[1]<<" "<<n[2]<<"\n"; f<<"step "<<t<<" "<<(fp==-2||fp==-1?std::string("end"):std::to_string(stop))<<" "<<fp<<"\n";
      if(!E.viol.empty()){ kind=E.viol[0].kind; msg=E.viol[0].msg; wh=E.viol[0].where; found=true; break; }
      if(!fin.empty()) break; if(out.size()!=1) engineError("guided run forked"); s=out[0]; canon(*s); E.level++; if(steps>100000) break; }
    f<<"expect "<<kind<<"\n"; f<<"message "<<msg<<"\n"; f.close(); E.guided=false; return found; }
};
static int driverMain(int argc,char**argv){
  struct rlimit rl; rl.rlim_cur=rl.rlim_max=RLIM_INFINITY; (void)rl; Ex E; Config&C=E.C; std::string in,out,replay,witness; bool complete=true;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return std::string(argv[++i]); }; if(a=="--weak") C.weak=true; else if(a=="--insts") C.maxInsts=std::stoull(nx())*1000000; else if(a=="--lazytime") C.lazytime=true; else if(a=="--wakes") C.wakes=atoi(nx().c_str()); else if(a=="--norace") C.races=false; else if(a=="--nouninit") C.uninit=false; else if(a=="--preempt") C.preempt=atoi(nx().c_str()); else if(a=="--timeout") C.timeout=atof(nx().c_str()); else if(a=="--mem") C.memMB=atof(nx().c_str()); else if(a=="--maxstates") C.maxStates=atoll(nx().c_str()); else if(a=="--query-timeout") E.S.timeoutMs=atoi(nx().c_str()); else if(a=="-o") out=nx(); else if(a=="--replay") replay=nx(); else if(a=="--witness") witness=nx(); else if(a=="--nocomplete") complete=false; else in=a; }
  std::string status="ok",err,gk,gm,gw; bool gfound=false; Driver D(E); Violation v0; bool have=false; std::string completeness="not run"; double tc=0; u64 compNodes=0;
  try{ E.P.load(in); D.explore(); if(!E.viol.empty()){ status="violation"; v0=E.viol[0]; have=true; { Model m=v0.model; int r=E.S.check(v0.cond,&m); if(r==1) v0.model=m; else if(r==0) engineError("internal: the violating path is infeasible"); } if(!replay.empty()) gfound=D.guided(v0,replay,gk,gm,gw); } else if(!D.inconclusive.empty()){ status="inconclusive"; err=D.inconclusive; }
    else if(complete){ // the solver decides that the explored paths cover every schedule and every input satisfying the assumptions
      Expr*all=mkConst(1,0); if(E.T.covers.count("__dropped")){} std::vector<Expr*> cs; for(auto c:D.finalConds) all=mkBin(EOr,all,c); for(auto c:E.dropped) all=mkBin(EOr,all,c); cs.push_back(mkNot(all)); compNodes=gTab.size(); if(compNodes<100000){ double a=nowSec(); unsigned sv=E.S.timeoutMs; E.S.timeoutMs=10000; int r=isC(cs[0])?(int)cs[0]->c:E.S.check(cs,nullptr); E.S.timeoutMs=sv; if(r<0) E.S.nunknown--; tc=nowSec()-a; completeness= r==0?"proved":r==1?"refuted":"timeout"; } else completeness="too large"; }
  } catch(EngineError&e){ status="error"; err=e.what; } catch(z3::exception&e){ status="error"; err=std::string("z3: ")+e.msg(); }
  std::string wk; if(status=="ok"&&!witness.empty()&&D.haveWit){ try{ Violation w; w.model=D.witModel; std::string a,b,c; if(D.guided(w,witness,a,b,c)) err="witness run failed: "+a+" "+b; }catch(EngineError&e){ err="witness: "+e.what; } }
  std::ofstream f(out.empty()?"/dev/stdout":out); auto&T=E.T; u64 nf=0,ni=0; f<<"{\"status\":\""<<status<<"\",\"error\":\""<<jesc(err)<<"\"";
  f<<",\"states\":"<<T.states<<",\"transitions\":"<<T.transitions<<",\"merged\":"<<T.merged<<",\"subsumed\":"<<D.subsumed<<",\"terminals\":"<<T.terminals<<",\"levels\":"<<T.levels<<",\"max_frontier\":"<<T.maxFrontier<<",\"instructions\":"<<T.insts<<",\"data_forks\":"<<T.forks<<",\"asserts\":"<<T.asserts<<",\"asserts_symbolic\":"<<T.assertsSym<<",\"memory_checks\":"<<T.memchecks<<",\"race_checks\":"<<T.races;
  f<<",\"queries\":"<<E.S.nq<<",\"queries_sat\":"<<E.S.nsat<<",\"queries_unsat\":"<<E.S.nunsat<<",\"queries_unknown\":"<<E.S.nunknown<<",\"solver_s\":"<<E.S.time<<",\"solver_max_s\":"<<E.S.maxTime<<",\"completeness\":\""<<completeness<<"\",\"completeness_s\":"<<tc<<",\"expr_nodes\":"<<gTab.size()<<",\"sched_vars\":"; u64 sv=0,iv=0; for(auto&v:gVars) (v.sched?sv:iv)++; f<<sv<<",\"input_vars\":"<<iv;
  f<<",\"covers\":{"; bool first=true; for(auto&c:T.covers){ f<<(first?"":",")<<"\""<<jesc(c.first)<<"\":"<<c.second; first=false; } f<<"},\"inputs\":["; first=true; for(auto&c:E.inputsUsed){ f<<(first?"":",")<<"\""<<jesc(c)<<"\""; first=false; } f<<"],\"functions\":["; first=true; std::set<std::string> seen; for(auto*fn:E.P.fnList) if(fn->hits){ ni++; std::string d=fn->dem; if(d.find("macoro::")==std::string::npos) continue; if(d.size()>110) d=d.substr(0,110)+"..."; if(!seen.insert(d).second) continue; nf++; f<<(first?"":",")<<"\""<<jesc(d)<<"\""; first=false; } f<<"],\"functions_executed\":"<<ni;
  if(have){ f<<",\"violation\":{\"kind\":\""<<jesc(v0.kind)<<"\",\"msg\":\""<<jesc(v0.msg)<<"\",\"where\":\""<<jesc(v0.where)<<"\",\"depth\":"<<v0.depth<<",\"model\":{"; first=true; for(size_t i=0;i<gVars.size()&&i<v0.model.size();i++){ if(gVars[i].sched) continue; f<<(first?"":",")<<"\""<<jesc(gVars[i].name)<<"\":"<<v0.model[i]; first=false; } f<<"},\"guided\":"<<(gfound?"true":"false")<<",\"guided_kind\":\""<<jesc(gk)<<"\",\"guided_msg\":\""<<jesc(gm)<<"\"}"; }
  f<<",\"wall_s\":"<<nowSec()-D.t0<<"}\n"; f.close(); _exit(status=="ok"?0:status=="violation"?1:2); }
