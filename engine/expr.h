// Hash-consed bit-vector expressions (width 1..64), simplification, evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <type_traits>
#include <z3++.h>
typedef int32_t i32; typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static inline u64 mix(u64 a, u64 b){ a ^= b + 0x9e3779b97f4a7c15ull + (a<<6) + (a>>2); a*=0xff51afd7ed558ccdull; a^=a>>32; return a; }
static inline u64 maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

enum EOp : u8 { EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr,
  EEq, EUlt, EUle, ESlt, ESle, EZExt, ESExt, EExtract, EConcat, EIte };

struct Expr { u8 op, w, nk; bool undef; u32 id; Expr* k[3]; u64 c; u64 hash; u64 bloom; };
struct V { Expr* e; u64 c; V():e(nullptr),c(0){} template<class T> requires std::is_integral_v<T> V(T x):e(nullptr),c((u64)x){} V(Expr* x):e(x->op==EConst?nullptr:x),c(x->op==EConst?x->c:0){}
  bool conc()const{return !e;} bool operator==(const V&o)const{return e==o.e&&c==o.c;} bool operator!=(const V&o)const{return !(*this==o);} };

struct VarInfo { std::string name; u8 w; bool sched, undef; };
static std::vector<VarInfo> gVars;
static std::unordered_map<std::string,u32> gVarIdx;
static std::vector<Expr*> gVarExpr;
struct EHash { size_t operator()(Expr*e)const{return e->hash;} };
struct EEqual { bool operator()(Expr*a,Expr*b)const{ return a->op==b->op&&a->w==b->w&&a->nk==b->nk&&a->c==b->c&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]; } };
#include <unordered_set>
static std::unordered_set<Expr*,EHash,EEqual> gTab;
static u32 gExprId=0;
static Expr* rawmk(u8 op,u8 w,u64 c,Expr*a=nullptr,Expr*b=nullptr,Expr*d=nullptr){
  Expr t; t.op=op;t.w=w;t.c=c;t.k[0]=a;t.k[1]=b;t.k[2]=d;t.nk=a?(b?(d?3:2):1):0;
  u64 h=mix(op*131+w,c); for(int i=0;i<t.nk;i++) h=mix(h,t.k[i]->hash+i); t.hash=h;
  auto it=gTab.find(&t); if(it!=gTab.end()) return *it;
  Expr* r=(Expr*)malloc(sizeof(Expr)); *r=t; r->id=gExprId++; r->undef=false; r->bloom=0;
  for(int i=0;i<t.nk;i++){ r->undef|=t.k[i]->undef; r->bloom|=t.k[i]->bloom; }
  gTab.insert(r); return r;
}
static Expr* mkConst(unsigned w,u64 c){ return rawmk(EConst,w,c&maskw(w)); }
static Expr* mkVar(const std::string&name,unsigned w,bool sched=false,bool undef=false){
  auto it=gVarIdx.find(name); if(it!=gVarIdx.end()) return gVarExpr[it->second];
  u32 i=gVars.size(); gVars.push_back({name,(u8)w,sched,undef}); gVarIdx[name]=i;
  Expr*e=rawmk(EVar,w,i); e->undef=undef; e->bloom= sched?(1ull<<63):(1ull<<(i%63)); gVarExpr.push_back(e); return e; }
static inline Expr* ex(V v,unsigned w){ return v.e?v.e:mkConst(w,v.c); }
static inline bool isC(Expr*e){return e->op==EConst;}

static bool foldBin(u8 op,unsigned w,u64 a,u64 b,u64&r){
  u64 m=maskw(w); a&=m;b&=m;
  switch(op){
  case EAdd:r=a+b;break;case ESub:r=a-b;break;case EMul:r=a*b;break;
  case EUDiv:if(!b)return false;r=a/b;break;case EURem:if(!b)return false;r=a%b;break;
  case ESDiv:{i64 x=sx(a,w),y=sx(b,w);if(!y)return false;r= y==-1?0-(u64)x:(u64)(x/y);break;}
  case ESRem:{i64 x=sx(a,w),y=sx(b,w);if(!y)return false;r= y==-1?0:(u64)(x%y);break;}
  case EAnd:r=a&b;break;case EOr:r=a|b;break;case EXor:r=a^b;break;
  case EShl:r=b>=w?0:a<<b;break;case ELShr:r=b>=w?0:a>>b;break;case EAShr:r=b>=w?(sx(a,w)<0?~0ull:0):(u64)(sx(a,w)>>b);break;
  case EEq:r=a==b;return true;case EUlt:r=a<b;return true;case EUle:r=a<=b;return true;
  case ESlt:r=sx(a,w)<sx(b,w);return true;case ESle:r=sx(a,w)<=sx(b,w);return true;
  default:return false;}
  r&=m; return true;
}
static Expr* mkBin(u8 op,Expr*a,Expr*b);
static Expr* mkIte(Expr*c,Expr*a,Expr*b);
static Expr* mkNot(Expr*a){ return mkBin(EXor,a,mkConst(1,1)); }
static Expr* mkExtract(Expr*a,unsigned off,unsigned w){
  if(off==0&&w==a->w) return a;
  switch(a->op){
  case EConst: return mkConst(w,a->c>>off);
  case EExtract: return mkExtract(a->k[0],a->c+off,w);
  case EZExt: { unsigned iw=a->k[0]->w; if(off>=iw) return mkConst(w,0); if(off+w<=iw) return mkExtract(a->k[0],off,w);
      if(off==0){ return rawmk(EZExt,w,0,a->k[0]); } break; }
  case ESExt: { unsigned iw=a->k[0]->w; if(off+w<=iw) return mkExtract(a->k[0],off,w); break; }
  case EConcat: { unsigned lw=a->k[1]->w; if(off+w<=lw) return mkExtract(a->k[1],off,w); if(off>=lw) return mkExtract(a->k[0],off-lw,w); break; }
  case EIte: if(isC(a->k[1])||isC(a->k[2])) return mkIte(a->k[0],mkExtract(a->k[1],off,w),mkExtract(a->k[2],off,w)); break;
  case EAnd: case EOr: case EXor: if(isC(a->k[1])) return mkBin(a->op,mkExtract(a->k[0],off,w),mkExtract(a->k[1],off,w)); break;
  case EAdd: case ESub: case EMul: if(off==0&&w<a->w&&isC(a->k[1])) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
  }
  return rawmk(EExtract,w,off,a);
}
static Expr* mkConcat(Expr*hi,Expr*lo){
  unsigned w=hi->w+lo->w;
  if(isC(hi)&&isC(lo)) return mkConst(w,(hi->c<<lo->w)|lo->c);
  if(isC(hi)&&hi->c==0) { Expr*x=lo; if(x->op==EZExt) x=x->k[0]; return rawmk(EZExt,w,0,x); }
  if(hi->op==EExtract&&lo->op==EExtract&&hi->k[0]==lo->k[0]&&hi->c==lo->c+lo->w) return mkExtract(lo->k[0],lo->c,w);
  if(hi->op==EExtract&&hi->k[0]==lo&&hi->c==lo->w) return mkExtract(lo,0,w);
  if(lo->op==EConcat&&hi->op==EExtract&&lo->k[0]->op==EExtract&&hi->k[0]==lo->k[0]->k[0]&&hi->c==lo->k[0]->c+lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0],lo->k[0]->c,hi->w+lo->k[0]->w),lo->k[1]);
  return rawmk(EConcat,w,0,hi,lo);
}
static Expr* mkZExt(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return mkConst(w,a->c); if(a->op==EZExt) return rawmk(EZExt,w,0,a->k[0]);
  if(a->op==EIte&&(isC(a->k[1])&&isC(a->k[2]))) return mkIte(a->k[0],mkZExt(a->k[1],w),mkZExt(a->k[2],w));
  return rawmk(EZExt,w,0,a); }
static Expr* mkSExt(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return mkConst(w,(u64)sx(a->c,a->w)); if(a->op==EZExt) return mkZExt(a->k[0],w); return rawmk(ESExt,w,0,a); }
static Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(isC(c)) return c->c?a:b; if(a==b) return a;
  if(c->op==EXor&&isC(c->k[1])) return mkIte(c->k[0],b,a);
  if(a->w==1){ if(isC(a)&&isC(b)) return a->c?c:mkNot(c); if(isC(a)) return a->c?mkBin(EOr,c,b):mkBin(EAnd,mkNot(c),b); if(isC(b)) return b->c?mkBin(EOr,mkNot(c),a):mkBin(EAnd,c,a); }
  if(a->op==EIte&&a->k[0]==c) a=a->k[1]; if(b->op==EIte&&b->k[0]==c) b=b->k[2]; if(a==b) return a;
  return rawmk(EIte,a->w,0,c,a,b);
}
static bool iteConsts(Expr*e,int d=0){ if(isC(e)) return true; if(e->op!=EIte||d>6) return false; return iteConsts(e->k[1],d+1)&&iteConsts(e->k[2],d+1); }
static Expr* mkBin(u8 op,Expr*a,Expr*b){
  unsigned w=a->w; unsigned rw= op>=EEq&&op<=ESle?1:w;
  if(isC(a)&&isC(b)){ u64 r; if(foldBin(op,w,a->c,b->c,r)) return mkConst(rw,r); }
  bool comm= op==EAdd||op==EMul||op==EAnd||op==EOr||op==EXor||op==EEq;
  if(comm&&(isC(a)||(!isC(b)&&a->id>b->id))) std::swap(a,b);
  if(isC(b)&&a->op==EIte&&iteConsts(a)) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
  if(isC(a)&&b->op==EIte&&iteConsts(b)) return mkIte(b->k[0],mkBin(op,a,b->k[1]),mkBin(op,a,b->k[2]));
  u64 m=maskw(w);
  if(isC(b)){ u64 k=b->c;
    switch(op){
    case EAdd: if(!k)return a; if(a->op==EAdd&&isC(a->k[1])) return mkBin(EAdd,a->k[0],mkConst(w,a->k[1]->c+k)); break;
    case ESub: if(!k)return a; return mkBin(EAdd,a,mkConst(w,0-k));
    case EMul: if(!k)return b; if(k==1)return a; break;
    case EUDiv: if(k==1)return a; if(k&&!(k&(k-1))) return mkBin(ELShr,a,mkConst(w,__builtin_ctzll(k))); break;
    case EURem: if(k==1)return mkConst(w,0); if(k&&!(k&(k-1))) return mkBin(EAnd,a,mkConst(w,k-1)); break;
    case EAnd: if(!k)return b; if(k==m)return a; if(a->op==EAnd&&isC(a->k[1])) return mkBin(EAnd,a->k[0],mkConst(w,a->k[1]->c&k));
       if(a->op==EZExt&&(k&maskw(a->k[0]->w))==maskw(a->k[0]->w)) return a; 
       if(a->op==EZExt&&k<=maskw(a->k[0]->w)&&a->k[0]->w>1) return mkZExt(mkBin(EAnd,a->k[0],mkConst(a->k[0]->w,k)),w); 
       if(!((k+1)&k)&&w>1){ unsigned n=__builtin_popcountll(k); Expr* x=mkExtract(a,0,n); if(x->op!=EExtract) return mkZExt(x,w);} break;
    case EOr: if(!k)return a; if(k==m)return b; break;
    case EXor: if(!k)return a; if(a->op==EXor&&isC(a->k[1])) return mkBin(EXor,a->k[0],mkConst(w,a->k[1]->c^k)); break;
    case EShl: case ELShr: if(!k)return a; if(k>=w) return mkConst(w,0);
       if(op==ELShr) return mkZExt(mkExtract(a,k,w-k),w); 
       if(op==EShl) return mkConcat(mkExtract(a,0,w-k),mkConst(k,0)); break;
    case EAShr: if(!k)return a; break;
    case EEq: if(w==1) return k?a:mkNot(a);
       if(a->op==EAdd&&isC(a->k[1])) return mkBin(EEq,a->k[0],mkConst(w,k-a->k[1]->c));
       if(a->op==EXor&&isC(a->k[1])) return mkBin(EEq,a->k[0],mkConst(w,k^a->k[1]->c));
       if(a->op==EZExt){ unsigned iw=a->k[0]->w; if(k>maskw(iw)) return mkConst(1,0); return mkBin(EEq,a->k[0],mkConst(iw,k)); }
       if(a->op==EConcat){ unsigned lw=a->k[1]->w; return mkBin(EAnd,mkBin(EEq,a->k[0],mkConst(a->k[0]->w,k>>lw)),mkBin(EEq,a->k[1],mkConst(lw,k))); }
       break;
    case EUlt: if(!k) return mkConst(1,0); if(k==1) return mkBin(EEq,a,mkConst(w,0)); break;
    case EUle: if(k==m) return mkConst(1,1); if(!k) return mkBin(EEq,a,b); break;
    }
  }
  if(op==EAdd){ if(b->op==ESub&&b->k[1]==a) return b->k[0]; if(a->op==ESub&&a->k[1]==b) return a->k[0]; }
  if(isC(a)){ if(op==EUle&&a->c==0) return mkConst(1,1); if(op==EUlt&&a->c==m) return mkConst(1,0); if(op==EUlt&&a->c==0) return mkNot(mkBin(EEq,b,mkConst(w,0))); 
    if((op==EShl||op==ELShr||op==EAShr)&&a->c==0) return a; }
  if(a==b) switch(op){ case ESub:case EXor:case EUlt:case ESlt: return mkConst(rw,0); case EEq:case EUle:case ESle: return mkConst(1,1); case EAnd:case EOr:return a; }
  if(w==1){
    if(op==EAnd){ if((a->op==EXor&&a->k[0]==b&&isC(a->k[1]))||(b->op==EXor&&b->k[0]==a&&isC(b->k[1]))) return mkConst(1,0); }
    if(op==EOr){ if((a->op==EXor&&a->k[0]==b&&isC(a->k[1]))||(b->op==EXor&&b->k[0]==a&&isC(b->k[1]))) return mkConst(1,1); }
  }
  if(op==ESub&&a->op==EAdd){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; }
  if((op==ESub||op==EEq)&&w>1){ // (x+c1) op (x+c2)
    Expr*ax=a,*bx=b; u64 ac=0,bc=0; if(a->op==EAdd&&isC(a->k[1])){ax=a->k[0];ac=a->k[1]->c;} if(b->op==EAdd&&isC(b->k[1])){bx=b->k[0];bc=b->k[1]->c;}
    if(ax==bx){ if(op==ESub) return mkConst(w,ac-bc); return mkConst(1,((ac-bc)&m)==0); } }
  return rawmk(op,rw,0,a,b);
}
static V vbin(u8 op,unsigned w,V a,V b){ if(!a.e&&!b.e){u64 r; if(foldBin(op,w,a.c,b.c,r)) return V(r);} return V(mkBin(op,ex(a,w),ex(b,w))); }
static V vnot(V a){ if(a.conc()) return V((u64)!(a.c&1)); return V(mkNot(a.e)); }

// ---- evaluation under a (total, default 0) assignment
typedef std::vector<u64> Model;
struct Evaluator { const Model&m; std::unordered_map<Expr*,u64> memo; Evaluator(const Model&mm):m(mm){}
  u64 ev(Expr*e){
    if(e->op==EConst) return e->c; if(e->op==EVar) return e->c<m.size()?m[e->c]&maskw(e->w):0;
    auto it=memo.find(e); if(it!=memo.end()) return it->second; u64 r=0;
    switch(e->op){
    case EZExt: r=ev(e->k[0]); break; case ESExt: r=(u64)sx(ev(e->k[0]),e->k[0]->w)&maskw(e->w); break;
    case EExtract: r=(ev(e->k[0])>>e->c)&maskw(e->w); break; case EConcat: r=(ev(e->k[0])<<e->k[1]->w)|ev(e->k[1]); break;
    case EIte: r=ev(e->k[0])?ev(e->k[1]):ev(e->k[2]); break;
    case EAnd: { u64 a=ev(e->k[0]); if(e->w==1&&!a){r=0;break;} r=a&ev(e->k[1]); break; }
    case EOr: { u64 a=ev(e->k[0]); if(e->w==1&&a){r=1;break;} r=a|ev(e->k[1]); break; }
    default: { u64 a=ev(e->k[0]),b=ev(e->k[1]); if(!foldBin(e->op,e->k[0]->w,a,b,r)){ // division by zero, SMT-LIB semantics
        switch(e->op){case EUDiv:r=maskw(e->w);break;case EURem:case ESRem:r=a;break;case ESDiv:r=sx(a,e->w)<0?1:maskw(e->w);break;} } }
    }
    memo[e]=r; return r; } };

// ---- Z3
struct Solver {
  z3::context ctx; std::vector<std::pair<bool,z3::expr>> dummy; std::unordered_map<u32,z3::expr> memo;
  u64 nq=0,nsat=0,nunsat=0,nunknown=0; double time=0,maxTime=0; z3::solver*inc=nullptr; u64 incUses=0; unsigned timeoutMs=60000;
  z3::expr tr(Expr*e){
    auto it=memo.find(e->id); if(it!=memo.end()) return it->second;
    // iterative post-order to keep the native stack small
    std::vector<Expr*> st{e};
    while(!st.empty()){ Expr*x=st.back(); if(memo.count(x->id)){st.pop_back();continue;} bool ok=true; for(int i=0;i<x->nk;i++) if(!memo.count(x->k[i]->id)){ok=false;st.push_back(x->k[i]);} if(!ok)continue; st.pop_back(); memo.emplace(x->id,tr1(x)); }
    return memo.at(e->id); }
  z3::expr K(Expr*e,int i){return memo.at(e->k[i]->id);}
  z3::expr tr1(Expr*e){
    unsigned w=e->w; bool b=w==1;
    switch(e->op){
    case EConst: return b?ctx.bool_val(e->c!=0):ctx.bv_val((uint64_t)e->c,w);
    case EVar: { auto&v=gVars[e->c]; return b?ctx.bool_const(v.name.c_str()):ctx.bv_const(v.name.c_str(),w); }
    case EIte: return z3::ite(K(e,0),K(e,1),K(e,2));
    case EZExt: if(e->k[0]->w==1) return z3::ite(K(e,0),ctx.bv_val(1,w),ctx.bv_val(0,w)); return z3::zext(K(e,0),w-e->k[0]->w);
    case ESExt: if(e->k[0]->w==1) return z3::ite(K(e,0),ctx.bv_val((uint64_t)maskw(w),w),ctx.bv_val(0,w)); return z3::sext(K(e,0),w-e->k[0]->w);
    case EExtract: { z3::expr x=K(e,0).extract(e->c+w-1,e->c); return b?x==ctx.bv_val(1,1):x; }
    case EConcat: { auto f=[&](int i){ return e->k[i]->w==1?z3::ite(K(e,i),ctx.bv_val(1,1),ctx.bv_val(0,1)):K(e,i);}; return z3::concat(f(0),f(1)); }
    case EEq: return K(e,0)==K(e,1);
    }
    z3::expr x=K(e,0),y=K(e,1); unsigned kw=e->k[0]->w;
    if(kw==1) switch(e->op){ case EAnd: case EMul: return x&&y; case EOr: return x||y; case EXor: case EAdd: case ESub: if(isC(e->k[1])&&e->k[1]->c==1) return !x; return x!=y; case EUlt: return !x&&y; case EUle: return !x||y; case ESlt: return x&&!y; case ESle: return x||!y; default: return x; }
    switch(e->op){
    case EAdd: return x+y; case ESub: return x-y; case EMul: return x*y; case EUDiv: return z3::udiv(x,y); case ESDiv: return x/y; case EURem: return z3::urem(x,y); case ESRem: return z3::srem(x,y);
    case EAnd: return x&y; case EOr: return x|y; case EXor: return x^y; case EShl: return z3::shl(x,y); case ELShr: return z3::lshr(x,y); case EAShr: return z3::ashr(x,y);
    case EUlt: return z3::ult(x,y); case EUle: return z3::ule(x,y); case ESlt: return x<y; case ESle: return x<=y; }
    abort();
  }
  // valid facts about division by a symbolic divisor, which spare the solver the divider circuit in the common cases
  void divLemmas(const std::vector<Expr*>&cs,z3::solver&s){
    std::unordered_set<u32> seen; std::vector<Expr*> st(cs.begin(),cs.end());
    while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(!seen.insert(x->id).second) continue; for(int i=0;i<x->nk;i++) st.push_back(x->k[i]);
      if((x->op==EURem||x->op==EUDiv)&&x->w>1&&!isC(x->k[1])){ z3::expr a=tr(x->k[0]),b=tr(x->k[1]),r=tr(x); unsigned w=x->w; z3::expr lt=z3::ult(a,b), one=!lt&&z3::ult(a-b,b);
        if(x->op==EURem){ s.add(z3::implies(lt,r==a)); s.add(z3::implies(one,r==a-b)); s.add(b==ctx.bv_val(0,w)||z3::ult(r,b)); s.add(z3::ule(r,a)); }
        else { s.add(z3::implies(lt,r==ctx.bv_val(0,w))); s.add(z3::implies(one,r==ctx.bv_val(1,w))); s.add(b==ctx.bv_val(0,w)||z3::ule(r,a)); } } } }
  // 1 sat, 0 unsat, -1 unknown
  std::unordered_map<u64,std::pair<std::vector<u32>,bool>> unsatCache; u64 ncache=0;
  int check(const std::vector<Expr*>&cs,Model*out){
    std::vector<u32> ids; for(auto c:cs) ids.push_back(c->id); std::sort(ids.begin(),ids.end()); u64 h=7; for(u32 i:ids) h=mix(h,i); { auto it=unsatCache.find(h); if(it!=unsatCache.end()&&it->second.first==ids){ ncache++; return 0; } }
    auto t0=std::chrono::steady_clock::now(); nq++;
    if(!inc){ inc=new z3::solver(ctx,z3::solver::simple()); z3::params p(ctx); p.set("timeout",1000u); inc->set(p); }
    if(++incUses>3000){ delete inc; inc=new z3::solver(ctx,z3::solver::simple()); z3::params p(ctx); p.set("timeout",1000u); inc->set(p); incUses=0; }
    z3::solver*s=inc; inc->push(); for(auto c:cs) inc->add(tr(c)); auto r=inc->check(); z3::solver fresh(ctx);
    if(r==z3::unknown){ s=&fresh; z3::params p(ctx); p.set("timeout",timeoutMs); fresh.set(p); for(auto c:cs) fresh.add(tr(c)); divLemmas(cs,fresh); r=fresh.check(); }
    int res= r==z3::sat?1:r==z3::unsat?0:-1; struct Pop{ z3::solver*s; ~Pop(){ s->pop(); } } popper{inc};
    if(res==1&&out){ z3::model m=s->get_model(); if(out->size()<gVars.size()) out->resize(gVars.size(),0);
      for(unsigned i=0;i<m.num_consts();i++){ z3::func_decl d=m.get_const_decl(i); auto it=gVarIdx.find(d.name().str()); if(it==gVarIdx.end())continue; z3::expr v=m.get_const_interp(d);
        if(v.is_bool()) (*out)[it->second]=v.is_true(); else { uint64_t x=0; v.is_numeral_u64(x); (*out)[it->second]=x; } } }
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); time+=dt; if(dt>maxTime)maxTime=dt;
    if(res==0) unsatCache[h]={ids,true}; if(res==1)nsat++; else if(res==0)nunsat++; else nunknown++;
    return res; }
};
