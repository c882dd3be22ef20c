// Symbolic program state: threads, memory objects, C++11 atomics with message histories, happens-before clocks.
#pragma once
#include "ir.h"
#include <memory>
template<class T> struct IP { T*p=nullptr; IP(){} IP(T*x):p(x){ if(p)p->rc++; } IP(const IP&o):p(o.p){ if(p)p->rc++; } IP(IP&&o):p(o.p){o.p=nullptr;} ~IP(){ if(p&&--p->rc==0) delete p; }
  IP&operator=(IP o){ std::swap(p,o.p); return *this; } T*operator->()const{return p;} T&operator*()const{return *p;} explicit operator bool()const{return p;} T*get()const{return p;}
  T*mut(){ if(p->rc>1){ T*n=new T(*p); n->rc=1; p->rc--; p=n; } p->touch(); return p; } };
static const int NT=8;
struct VC { u16 c[NT]; VC(){memset(c,0,sizeof c);} bool le(const VC&o)const{ for(int i=0;i<NT;i++) if(c[i]>o.c[i])return false; return true;} void join(const VC&o){ for(int i=0;i<NT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } bool zero()const{ for(int i=0;i<NT;i++) if(c[i])return false; return true;} bool operator==(const VC&o)const{return !memcmp(c,o.c,sizeof c);} 
  u64 hash(u64 h)const{ u64 a[2]; memcpy(a,c,16); return mix(mix(h,a[0]),a[1]); } };
struct Rec { u32 off,len; u8 tid; bool write,atomic; u16 clk; };
struct Msg { V val; VC rel; VC seen; };
struct AtomLoc { u32 off; u8 size; i32 sc; std::vector<Msg> msgs; };
enum OKind : u8 { OHeap, OStack, OGlobal };
struct Object { int rc=0; u64 base; u32 size; u8 kind; u8 owner; bool escaped=false, dead=false, noleak=false; u8 anew=0; bool ro=false;
  std::vector<u8> d, fl; /* fl: 0 concrete 1 undef 2 symbolic; empty = all concrete */ std::vector<Expr*> sy; std::vector<Rec> recs; std::vector<AtomLoc> atoms; u64 h1=0,h2=0; bool hok=false;
  void touch(){ hok=false; }
  void setUndef(u32 off,u32 n){ if(fl.empty()) fl.assign(size,0); memset(&fl[off],1,n); memset(&d[off],0,n); }
  void hash(){ if(hok) return; u64 a=mix(base,size*8+kind),b=mix(base*7+3,owner+escaped*16+dead*32+noleak*64); 
    size_t i=0; for(;i+8<=d.size();i+=8){ u64 x; memcpy(&x,&d[i],8); a=mix(a,x); b=mix(b,x^0x5555); } for(;i<d.size();i++){ a=mix(a,d[i]); b=mix(b,d[i]+7);} 
    if(!fl.empty()){ bool any=false; for(u32 j=0;j<size;j++) if(fl[j]){ any=true; a=mix(a,j*4+fl[j]); if(fl[j]==2){ a=mix(a,sy[j]->hash); b=mix(b,sy[j]->id);} } if(!any){ fl.clear(); sy.clear(); } }
    for(auto&r:recs){ u64 k=mix(mix(r.off,r.len),mix(r.tid*4+r.write*2+r.atomic,r.clk)); a+=k*0x9e37; b+=mix(k,1); }
    for(auto&t:atoms){ a=mix(a,t.off*16+t.size); a=mix(a,(u64)t.sc); b=mix(b,t.msgs.size()); for(auto&m:t.msgs){ a=mix(a,m.val.c+(m.val.e?m.val.e->hash:0)); a=m.rel.hash(a); b=m.seen.hash(b);} }
    h1=a;h2=b;hok=true; } };
struct Frame { int rc=0; Fn*fn; u32 pc=0; std::vector<V> r; std::vector<u64> allocas; u64 stackBase=0; u64 h1=0,h2=0; bool hok=false; u64 dying=0; void touch(){hok=false;}
  void hash(){ if(hok)return; u64 a=mix(fn->id,pc),b=mix(pc,fn->id*3+stackBase); for(auto&v:r){ if(v.e){ a=mix(a,v.e->hash); b=mix(b,v.e->id+1);} else { a=mix(a,v.c); b=mix(b,v.c^0x1234567);} } for(auto x:allocas) a=mix(a,x); a=mix(a,dying); h1=a;h2=b;hok=true; } };
enum Pend : u8 { PNone, PStart, PAtomic, PLock, PTryLock, PJoin, PYield, PCondWait, PCondReacq, PCondSig, PSpawn, PSleep };
struct Thread { u8 status=0; /*0 none 1 live 2 finished 3 joined*/ u8 pend=0; u8 wphase=0; bool timed=false, yielded=false, fresh=false, stale=false; u64 paddr=0; u64 caddr=0; VC vc; u32 ops=0; u64 heapTop=0, stackTop=0; u32 nsym=0; std::vector<IP<Frame>> st; VC facq, frel; V dl; u8 guards=0; /* initialisers of local statics under way */ };
struct Mutex { u64 addr; i32 owner; i32 depth; VC vc; };
struct Trace { int rc=0; IP<Trace> prev; u8 tid; u32 stopOps; std::vector<std::array<u64,3>> notes; void touch(){} };
struct State { std::vector<Thread> th; std::vector<IP<Object>> objs; std::vector<Mutex> mx; Expr* path; std::vector<Expr*> data; Model model; V now{0ull}; u32 lastTid=0, preempt=0; u64 covers=0; bool leakcheck=true; u32 choices=0; IP<Trace> tr; u32 depth=0; u32 rtctr=0; bool wrote=false, mixed=false; u8 spur=0; VC scvc; std::vector<std::array<u64,2>> counters; };
