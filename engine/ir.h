// LLVM module -> compact register code.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <functional>
using llvm::cast; using llvm::dyn_cast; using llvm::isa;

struct EngineError { std::string what; };
[[noreturn]] static void engineError(const std::string&s){ throw EngineError{s}; }

enum IOp : u16 { IBin, ICmpEq, ICmpNe, ICmpBin, ISelect, ILoad, IStore, IGep, ITrunc, IZExt, ISExt, IMove, IBr, ICondBr, ISwitch, IRet, ICall, ILandingPad, IResume,
  IAlloca, IALoad, IAStore, IRmw, ICmpXchg, IFence, IUnreachable, IUnsupported, IFloat };
struct Edge { int target=-1; std::vector<std::pair<i32,i32>> copies; };
struct Fn;
typedef int32_t Opnd; // >=0 register slot, <0 constant pool entry ~x
struct Arg { Opnd o; u8 slots; u32 byval; std::vector<u8> w; };
struct CallInfo { Fn* direct=nullptr; Opnd callee=0; std::vector<Arg> args; bool tail=false, invoke=false; Edge normal, unwind; std::vector<u8> retw; std::string ext; };
struct GepInfo { std::vector<std::pair<Opnd,std::pair<u8,i64>>> idx; };
struct LpInfo { bool cleanup; std::vector<u64> catches; std::vector<std::vector<u64>> filters; };
struct Inst { u16 op; u8 w=0; u8 aux=0; u8 mo=0, mo2=0; i32 dst=-1; Opnd a=0,b=0,c=0; u64 imm=0; u8 slots=0;
  std::vector<u8> tw; std::vector<u32> toff; // load/store of aggregates: widths and byte offsets
  std::vector<Edge> edges; std::vector<u64> cases; CallInfo* call=nullptr; GepInfo* gep=nullptr; LpInfo* lp=nullptr; const llvm::Instruction* I=nullptr; 
  bool needLive=false; std::vector<i32> deadSlots; };
struct Fn { llvm::Function* F=nullptr; std::string name; std::string dem; int id=0; u64 addr=0; bool compiled=false, decl=false, rt=false, coroDestroy=false; u32 nregs=0; std::vector<Inst> code; std::vector<V> consts; std::vector<u8> argSlots; std::vector<u32> argReg; int intr=-1; u64 hits=0; };

static const u64 HEAP0=0x100000000000ull, STACK0=0x200000000000ull, GLOB0=0x300000000000ull, FN0=0x400000000000ull, TLS0=0x500000000000ull, TSTRIDE=1ull<<32;

struct Global { llvm::GlobalVariable* G; u64 addr; u64 size; bool ro, tls; std::string name; };

struct Program {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL=nullptr;
  std::unordered_map<const llvm::Function*,Fn*> fns; std::vector<Fn*> fnList;
  std::unordered_map<const llvm::GlobalVariable*,int> gidx; std::vector<Global> globals;
  std::map<u64,int> gByAddr;
  void load(const std::string&path){
    llvm::SMDiagnostic err; M=llvm::parseIRFile(path,err,ctx); if(!M) engineError("cannot load "+path+": "+err.getMessage().str()); DL=&M->getDataLayout();
    // thread_local objects that are named directly (their initialisation) are this thread's as well
    std::vector<llvm::Constant*> tl; for(auto&G:M->globals()) if(G.isThreadLocal()) tl.push_back(&G); if(tl.size()) llvm::convertUsersOfConstantsToInstructions(tl);
    for(auto*G:tl){ std::vector<llvm::Use*> us; for(auto&U:G->uses()) us.push_back(&U); for(auto*U:us){ auto*I=llvm::dyn_cast<llvm::Instruction>(U->getUser()); if(!I) continue; if(auto*II=llvm::dyn_cast<llvm::IntrinsicInst>(I)) if(II->getIntrinsicID()==llvm::Intrinsic::threadlocal_address) continue; auto*at=I; if(auto*P=llvm::dyn_cast<llvm::PHINode>(I)) at=P->getIncomingBlock(*U)->getTerminator(); llvm::IRBuilder<> B(at); U->set(B.CreateThreadLocalAddress(G)); } }
    for(auto&F:*M){ if(F.isIntrinsic()&&F.getName().starts_with("llvm.dbg")) continue; Fn*f=new Fn; f->F=&F; f->name=F.getName().str(); f->dem=llvm::demangle(f->name); f->id=fnList.size(); f->addr=FN0+16ull*(f->id+1); f->decl=F.isDeclaration(); f->rt=F.hasSection()&&F.getSection()=="vkrt"; f->coroDestroy=llvm::StringRef(f->name).ends_with(".destroy"); fns[&F]=f; fnList.push_back(f);} 
    u64 a=GLOB0+4096, ta=TLS0+4096;
    for(auto&G:M->globals()){ Global g; g.G=&G; g.size=G.getValueType()->isSized()?(u64)DL->getTypeAllocSize(G.getValueType()):0; if(!G.hasInitializer()) g.size=std::max<u64>(g.size,512); g.ro=G.isConstant(); g.tls=G.isThreadLocal(); g.name=G.getName().str();
      u64&p=g.tls?ta:a; u64 al=std::max<u64>(16,G.getAlign().valueOrOne().value()); p=(p+al-1)&~(al-1); g.addr=p; p+=g.size+32; gidx[&G]=globals.size(); gByAddr[g.addr]=globals.size(); globals.push_back(g);} 
  }
  Fn* fnAt(u64 addr){ if(addr<=FN0||addr>=FN0+16ull*(fnList.size()+1)||((addr-FN0)&15)) return nullptr; return fnList[(addr-FN0)/16-1]; }
  Fn* fnByName(const std::string&n){ auto*F=M->getFunction(n); return F?fns[F]:nullptr; }
  u64 constInt(const llvm::Constant*C){
    using namespace llvm;
    if(auto*ci=dyn_cast<ConstantInt>(C)) return ci->getValue().getBitWidth()<=64?ci->getZExtValue():ci->getValue().trunc(64).getZExtValue();
    if(isa<ConstantPointerNull>(C)||isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)||isa<ConstantTokenNone>(C)) return 0;
    if(auto*F=dyn_cast<Function>(C)) return F->hasExternalWeakLinkage()&&F->isDeclaration()?0:fns.at(F)->addr;
    if(auto*G=dyn_cast<GlobalVariable>(C)) return globals[gidx.at(G)].addr;
    if(auto*A=dyn_cast<GlobalAlias>(C)) return constInt(A->getAliasee());
    if(auto*cf=dyn_cast<ConstantFP>(C)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if(auto*n=dyn_cast<NoCFIValue>(C)) return constInt(n->getGlobalValue());
    if(auto*ce=dyn_cast<ConstantExpr>(C)){
      switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off); return constInt(ce->getOperand(0))+off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: { u64 v=constInt(ce->getOperand(0)); unsigned w=ce->getType()->isPointerTy()?64:ce->getType()->getScalarSizeInBits(); return v&maskw(w); }
      case Instruction::ICmp: { u64 a=constInt(ce->getOperand(0)),b=constInt(ce->getOperand(1)); return (ce->getPredicate()==CmpInst::ICMP_EQ)==(a==b); }
      case Instruction::Sub: return constInt(ce->getOperand(0))-constInt(ce->getOperand(1));
      case Instruction::Add: return constInt(ce->getOperand(0))+constInt(ce->getOperand(1));
      }
    }
    std::string s; raw_string_ostream os(s); C->print(os); engineError("unsupported constant "+os.str());
  }
  void initBytes(const llvm::Constant*C,u8*p){
    using namespace llvm; Type*T=C->getType(); u64 n=DL->getTypeStoreSize(T);
    if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)||isa<ConstantPointerNull>(C)){ memset(p,0,n); return; }
    if(auto*cs=dyn_cast<ConstantStruct>(C)){ auto*SL=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initBytes(cs->getOperand(i),p+(u64)SL->getElementOffset(i)); return; }
    if(auto*ca=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initBytes(ca->getOperand(i),p+i*es); return; }
    if(auto*cd=dyn_cast<ConstantDataSequential>(C)){ auto d=cd->getRawDataValues(); memcpy(p,d.data(),d.size()); return; }
    if(auto*ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64){ for(unsigned i=0;i<n;i++) p[i]=ci->getValue().extractBitsAsZExtValue(std::min<unsigned>(8,ci->getBitWidth()-8*i),8*i); return; } }
    u64 v=constInt(C); for(u64 i=0;i<n&&i<8;i++) p[i]=v>>(8*i);
  }
  // ---- function compilation
  void flat(llvm::Type*T,std::vector<u8>&w,std::vector<u32>&off,u64 base=0){
    if(T->isVoidTy()) return;
    if(auto*S=dyn_cast<llvm::StructType>(T)){ auto*SL=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) flat(S->getElementType(i),w,off,base+(u64)SL->getElementOffset(i)); return; }
    if(auto*A=dyn_cast<llvm::ArrayType>(T)){ u64 es=DL->getTypeAllocSize(A->getElementType()); for(u64 i=0;i<A->getNumElements();i++) flat(A->getElementType(),w,off,base+i*es); return; }
    if(T->isPointerTy()){ w.push_back(64); off.push_back(base); return; }
    if(T->isIntegerTy()&&T->getIntegerBitWidth()<=64){ w.push_back(T->getIntegerBitWidth()); off.push_back(base); return; }
    if(T->isFloatTy()){w.push_back(32);off.push_back(base);return;} if(T->isDoubleTy()){w.push_back(64);off.push_back(base);return;}
    if(T->isTokenTy()||T->isMetadataTy()||T->isLabelTy()){ return; }
    std::string s; llvm::raw_string_ostream os(s); T->print(os); engineError("unsupported type "+os.str());
  }
  unsigned width(llvm::Type*T){ if(T->isPointerTy()) return 64; if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isFloatTy())return 32; if(T->isDoubleTy())return 64; std::string s; llvm::raw_string_ostream os(s); T->print(os); engineError("unsupported scalar type "+os.str()); }
  static u8 morder(llvm::AtomicOrdering o){ using A=llvm::AtomicOrdering; switch(o){case A::NotAtomic:case A::Unordered:case A::Monotonic:return 0;case A::Acquire:return 1;case A::Release:return 2;case A::AcquireRelease:return 3;case A::SequentiallyConsistent:return 4;} return 4; }
  void compile(Fn*f){
    using namespace llvm; if(f->compiled) return; f->compiled=true; Function&F=*f->F;
    std::unordered_map<const Value*,i32> reg; u32 nr=0; auto slotsOf=[&](Type*T){ std::vector<u8> w; std::vector<u32> o; if(T->isIntegerTy()&&T->getIntegerBitWidth()>64) return (unsigned)1; if(T->isVectorTy()) return 1u; flat(T,w,o); return (unsigned)w.size(); };
    for(auto&A:F.args()){ unsigned n=slotsOf(A.getType()); reg[&A]=nr; f->argReg.push_back(nr); f->argSlots.push_back(n); nr+=n; }
    for(auto&B:F) for(auto&I:B){ if(I.getType()->isVoidTy()||I.getType()->isTokenTy()) continue; unsigned n=slotsOf(I.getType()); reg[&I]=nr; nr+=std::max(1u,n); }
    f->nregs=nr; std::map<const Constant*,i32> cpool;
    std::function<void(const Constant*,std::vector<V>&)> flatC=[&](const Constant*C,std::vector<V>&out){ Type*T=C->getType(); if(T->isStructTy()||T->isArrayTy()){ unsigned n=T->isStructTy()?T->getStructNumElements():T->getArrayNumElements(); for(unsigned i=0;i<n;i++){ auto*e=C->getAggregateElement(i); flatC(e,out);} return; } out.push_back(V(constInt(C))); };
    auto opnd=[&](const Value*v)->Opnd{ if(auto*C=dyn_cast<Constant>(v)){ auto it=cpool.find(C); if(it!=cpool.end()) return it->second; if(C->getType()->isVectorTy()||(C->getType()->isIntegerTy()&&C->getType()->getIntegerBitWidth()>64)){ f->consts.push_back(V(0ull)); Opnd o=~(i32)(f->consts.size()-1); cpool[C]=o; return o; }
        std::vector<V> vs; flatC(C,vs); if(vs.empty()) vs.push_back(V(0ull)); Opnd o=~(i32)f->consts.size(); for(auto&x:vs) f->consts.push_back(x); cpool[C]=o; return o; }
      if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) return 0; auto it=reg.find(v); if(it==reg.end()){ if(v->getType()->isTokenTy()) return 0; engineError("no register for operand in "+f->dem);} return it->second; };
    auto at=[&](Opnd o,int i){ return o>=0?o+i:~(~o+i); };
    std::unordered_map<const BasicBlock*,int> bbStart; struct Fix{ size_t inst; int kind; size_t idx; const BasicBlock*from,*to; }; std::vector<Fix> fixes;
    auto emit=[&](u16 op,const Instruction&I)->Inst&{ f->code.emplace_back(); Inst&x=f->code.back(); x.op=op; x.I=&I; auto it=reg.find(&I); if(it!=reg.end()) x.dst=it->second; return x; };
    for(auto&B:F){ bbStart[&B]=f->code.size(); for(auto&I:B){
      if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue;
      bool bad=false; // operations on types the engine does not model are only an error when executed
      auto badT=[&](Type*T){ return T->isVectorTy()||(T->isIntegerTy()&&T->getIntegerBitWidth()>64)||T->isX86_FP80Ty()||T->isFP128Ty(); };
      if(badT(I.getType())) bad=true; for(auto&op:I.operands()) if(badT(op->getType())) bad=true;
      if(bad){ emit(IUnsupported,I); if(I.isTerminator()) {} continue; }
      // floating point: evaluated on concrete values, an error on symbolic ones
      auto flt=[&](const Instruction&I){ auto*T=I.getOperand(0)->getType(); auto ok=[](Type*T){ return T->isFloatTy()||T->isDoubleTy()||T->isIntegerTy(); }; if(!ok(T)||!ok(I.getType())){ emit(IUnsupported,I); return; } Opnd a=opnd(I.getOperand(0)),b=I.getNumOperands()>1?opnd(I.getOperand(1)):a; Inst&x=emit(IFloat,I); x.a=a; x.b=b; x.imm=I.getOpcode(); x.w=T->getPrimitiveSizeInBits(); };
      if(I.getOpcode()==Instruction::FNeg||isa<FCmpInst>(I)){ flt(I); continue; }
      if(isa<CastInst>(I)&&I.getOpcode()!=Instruction::BitCast&&(I.getType()->isFloatingPointTy()||I.getOperand(0)->getType()->isFloatingPointTy())){ flt(I); continue; }
      if(auto*b=dyn_cast<BinaryOperator>(&I)){
        static const std::map<unsigned,u8> m={{Instruction::Add,EAdd},{Instruction::Sub,ESub},{Instruction::Mul,EMul},{Instruction::UDiv,EUDiv},{Instruction::SDiv,ESDiv},{Instruction::URem,EURem},{Instruction::SRem,ESRem},{Instruction::And,EAnd},{Instruction::Or,EOr},{Instruction::Xor,EXor},{Instruction::Shl,EShl},{Instruction::LShr,ELShr},{Instruction::AShr,EAShr}};
        auto it=m.find(b->getOpcode()); if(it==m.end()){ flt(I); continue; }
        Inst&x=emit(IBin,I); x.aux=it->second; x.w=width(I.getType()); x.a=opnd(b->getOperand(0)); x.b=opnd(b->getOperand(1)); 
        if(auto*o=dyn_cast<OverflowingBinaryOperator>(b)) x.mo=o->hasNoSignedWrap(); continue; }
      if(auto*c=dyn_cast<ICmpInst>(&I)){ unsigned w=width(c->getOperand(0)->getType()); auto P=c->getPredicate(); Opnd a=opnd(c->getOperand(0)),b=opnd(c->getOperand(1));
        Inst&x=emit(P==ICmpInst::ICMP_EQ?ICmpEq:P==ICmpInst::ICMP_NE?ICmpNe:ICmpBin,I); x.w=w; x.a=a;x.b=b;
        switch(P){ case ICmpInst::ICMP_ULT:x.aux=EUlt;break;case ICmpInst::ICMP_ULE:x.aux=EUle;break;case ICmpInst::ICMP_SLT:x.aux=ESlt;break;case ICmpInst::ICMP_SLE:x.aux=ESle;break;
          case ICmpInst::ICMP_UGT:x.aux=EUlt;std::swap(x.a,x.b);break;case ICmpInst::ICMP_UGE:x.aux=EUle;std::swap(x.a,x.b);break;case ICmpInst::ICMP_SGT:x.aux=ESlt;std::swap(x.a,x.b);break;case ICmpInst::ICMP_SGE:x.aux=ESle;std::swap(x.a,x.b);break; default:break;} continue; }
      if(auto*s=dyn_cast<SelectInst>(&I)){ Inst&x=emit(ISelect,I); flat(I.getType(),x.tw,x.toff); x.a=opnd(s->getCondition()); x.b=opnd(s->getTrueValue()); x.c=opnd(s->getFalseValue()); continue; }
      if(auto*l=dyn_cast<LoadInst>(&I)){ Inst&x=emit(l->isAtomic()?IALoad:ILoad,I); flat(I.getType(),x.tw,x.toff); x.a=opnd(l->getPointerOperand()); x.mo=morder(l->getOrdering()); x.w=x.tw.empty()?0:x.tw[0]; x.aux=l->isVolatile(); continue; }
      if(auto*s=dyn_cast<StoreInst>(&I)){ Inst&x=emit(s->isAtomic()?IAStore:IStore,I); flat(s->getValueOperand()->getType(),x.tw,x.toff); x.a=opnd(s->getPointerOperand()); x.b=opnd(s->getValueOperand()); x.mo=morder(s->getOrdering()); x.w=x.tw.empty()?0:x.tw[0]; continue; }
      if(auto*r=dyn_cast<AtomicRMWInst>(&I)){ Inst&x=emit(IRmw,I); x.w=width(r->getType()); x.a=opnd(r->getPointerOperand()); x.b=opnd(r->getValOperand()); x.aux=r->getOperation(); x.mo=morder(r->getOrdering()); continue; }
      if(auto*c=dyn_cast<AtomicCmpXchgInst>(&I)){ Inst&x=emit(ICmpXchg,I); x.w=width(c->getCompareOperand()->getType()); x.a=opnd(c->getPointerOperand()); x.b=opnd(c->getCompareOperand()); x.c=opnd(c->getNewValOperand()); x.mo=morder(c->getSuccessOrdering()); x.mo2=morder(c->getFailureOrdering()); x.aux=c->isWeak(); continue; }
      if(auto*fe=dyn_cast<FenceInst>(&I)){ Inst&x=emit(IFence,I); x.mo=morder(fe->getOrdering()); x.aux=fe->getSyncScopeID()==SyncScope::SingleThread; continue; }
      if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ GepInfo*gi=new GepInfo; i64 off=0; for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand(); if(auto*ST=it.getStructTypeOrNull()){ off+=(u64)DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { i64 es=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*es; else gi->idx.push_back({opnd(ix),{(u8)width(ix->getType()),es}}); } }
        Opnd a=opnd(g->getPointerOperand()); Inst&x=emit(IGep,I); x.gep=gi; x.a=a; x.imm=(u64)off; continue; }
      if(auto*c=dyn_cast<CastInst>(&I)){ unsigned iw=0,ow=0; if(!c->getSrcTy()->isFloatingPointTy()&&!c->getDestTy()->isFloatingPointTy()){ iw=width(c->getSrcTy()); ow=width(c->getDestTy()); } Opnd a=opnd(c->getOperand(0)); u16 op=IMove; if(!iw) op=c->getOpcode()==Instruction::BitCast?IMove:IUnsupported; else if(c->getOpcode()==Instruction::SExt) op=ISExt; else if(ow>iw) op=IZExt; else if(ow<iw) op=ITrunc; Inst&x=emit(op,I); x.a=a; x.w=ow; x.aux=iw; x.slots=1; continue; }
      if(auto*fr=dyn_cast<FreezeInst>(&I)){ Opnd a=opnd(fr->getOperand(0)); Inst&x=emit(IMove,I); x.a=a; x.slots=slotsOf(I.getType()); continue; }
      if(auto*e=dyn_cast<ExtractValueInst>(&I)){ std::vector<u8> w; std::vector<u32> o; Type*T=e->getAggregateOperand()->getType(); int base=0; for(unsigned ix:e->indices()){ for(unsigned k=0;k<ix;k++) base+=slotsOf(T->isStructTy()?T->getStructElementType(k):T->getArrayElementType()); T=T->isStructTy()?T->getStructElementType(ix):T->getArrayElementType(); }
        Opnd a=at(opnd(e->getAggregateOperand()),base); Inst&x=emit(IMove,I); x.a=a; x.slots=slotsOf(T); continue; }
      if(auto*e=dyn_cast<InsertValueInst>(&I)){ Type*T=I.getType(); int base=0; for(unsigned ix:e->indices()){ for(unsigned k=0;k<ix;k++) base+=slotsOf(T->isStructTy()?T->getStructElementType(k):T->getArrayElementType()); T=T->isStructTy()?T->getStructElementType(ix):T->getArrayElementType(); }
        Opnd a=opnd(e->getAggregateOperand()),b=opnd(e->getInsertedValueOperand()); { Inst&x=emit(IMove,I); x.a=a; x.slots=slotsOf(I.getType()); } { Inst&y=emit(IMove,I); y.dst+=base; y.a=b; y.slots=slotsOf(T); } continue; }
      if(auto*al=dyn_cast<AllocaInst>(&I)){ u64 sz=DL->getTypeAllocSize(al->getAllocatedType()); auto*n=dyn_cast<ConstantInt>(al->getArraySize()); Inst&x=emit(n?IAlloca:IUnsupported,I); x.imm=n?sz*n->getZExtValue():0; x.w=64; x.a=(i32)std::max<u64>(16,al->getAlign().value()); continue; }
      if(auto*b=dyn_cast<BranchInst>(&I)){ if(b->isUnconditional()){ Inst&x=emit(IBr,I); x.edges.resize(1); fixes.push_back({f->code.size()-1,0,0,&B,b->getSuccessor(0)}); } else { Opnd a=opnd(b->getCondition()); Inst&x=emit(ICondBr,I); x.a=a; x.edges.resize(2); fixes.push_back({f->code.size()-1,0,0,&B,b->getSuccessor(0)}); fixes.push_back({f->code.size()-1,0,1,&B,b->getSuccessor(1)}); } continue; }
      if(auto*s=dyn_cast<SwitchInst>(&I)){ Opnd a=opnd(s->getCondition()); Inst&x=emit(ISwitch,I); x.a=a; x.w=width(s->getCondition()->getType()); x.edges.resize(s->getNumCases()+1); size_t k=0; for(auto&c:s->cases()){ x.cases.push_back(c.getCaseValue()->getZExtValue()); fixes.push_back({f->code.size()-1,0,k++,&B,c.getCaseSuccessor()}); } fixes.push_back({f->code.size()-1,0,k,&B,s->getDefaultDest()}); continue; }
      if(auto*r=dyn_cast<ReturnInst>(&I)){ Opnd a=r->getReturnValue()?opnd(r->getReturnValue()):0; Inst&x=emit(IRet,I); x.a=a; x.slots=r->getReturnValue()?slotsOf(r->getReturnValue()->getType()):0; continue; }
      if(isa<UnreachableInst>(I)){ emit(IUnreachable,I); continue; }
      if(auto*lp=dyn_cast<LandingPadInst>(&I)){ LpInfo*li=new LpInfo; li->cleanup=lp->isCleanup(); for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)) li->catches.push_back(constInt(lp->getClause(i))); else { std::vector<u64> fl; auto*c=lp->getClause(i); if(auto*ca=dyn_cast<ConstantArray>(c)) for(auto&o:ca->operands()) fl.push_back(constInt(cast<Constant>(o))); li->filters.push_back(fl); } } Inst&x=emit(ILandingPad,I); x.lp=li; continue; }
      if(auto*r=dyn_cast<ResumeInst>(&I)){ Opnd a=opnd(r->getValue()); Inst&x=emit(IResume,I); x.a=a; continue; }
      if(auto*cb=dyn_cast<CallBase>(&I)){ CallInfo*ci=new CallInfo; if(auto*cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())){ if(cf->isIntrinsic()&&cf->getName().starts_with("llvm.dbg")) continue; ci->direct=fns.at(cf); } else if(cb->isInlineAsm()){ ci->ext="<asm>"; } else { ci->callee=opnd(cb->getCalledOperand()); if(auto*ga=dyn_cast<GlobalAlias>(cb->getCalledOperand())) if(auto*f2=dyn_cast<Function>(ga->getAliaseeObject())) ci->direct=fns.at(f2); }
        for(unsigned i=0;i<cb->arg_size();i++){ Arg a; Value*v=cb->getArgOperand(i); a.slots=slotsOf(v->getType()); std::vector<u32> o; if(!v->getType()->isMetadataTy()) flat(v->getType(),a.w,o); a.o=a.slots?opnd(v):0; a.byval= cb->isByValArgument(i)?(u32)DL->getTypeAllocSize(cb->getParamByValType(i)):0; ci->args.push_back(a); }
        { std::vector<u32> o; if(!I.getType()->isVoidTy()) flat(I.getType(),ci->retw,o); }
        if(auto*c2=dyn_cast<CallInst>(cb)) ci->tail=c2->isMustTailCall(); 
        if(auto*iv=dyn_cast<InvokeInst>(cb)){ ci->invoke=true; fixes.push_back({f->code.size(),1,0,&B,iv->getNormalDest()}); fixes.push_back({f->code.size(),2,0,&B,iv->getUnwindDest()}); }
        Inst&x=emit(ICall,I); x.call=ci; x.slots=ci->retw.size(); x.needLive=true; continue; }
      emit(IUnsupported,I);
    } }
    for(auto&fx:fixes){ Inst&x=f->code[fx.inst]; Edge&e=fx.kind==0?x.edges[fx.idx]:fx.kind==1?x.call->normal:x.call->unwind; e.target=bbStart.at(fx.to); for(auto&P:fx.to->phis()){ Value*v=P.getIncomingValueForBlock(fx.from); unsigned n=slotsOf(P.getType()); Opnd o=opnd(v); for(unsigned i=0;i<n;i++) e.copies.push_back({reg.at(&P)+(int)i,at(o,i)}); } }
    liveness(f);
  }
  static int dstSlots(const Inst&x){ if(x.dst<0) return 0; switch(x.op){ case ISelect: case ILoad: return x.tw.size(); case IALoad: return 1; case IMove: case ICall: return x.slots; case ILandingPad: return 2; case ICmpXchg: return 2; case IUnsupported: return 1; default: return 1; } }
  void liveness(Fn*f){
    size_t n=f->code.size(); u32 R=f->nregs; size_t W=(R+63)/64; if(!W) W=1; std::vector<std::vector<u64>> in(n,std::vector<u64>(W,0)),tmp; 
    auto uses=[&](const Inst&x,std::vector<i32>&u){ auto A=[&](Opnd o,int k=1){ if(o>=0) for(int i=0;i<k;i++) u.push_back(o+i); };
      switch(x.op){ case IFloat:case IBin:case ICmpEq:case ICmpNe:case ICmpBin: A(x.a);A(x.b);break; case ISelect: A(x.a);A(x.b,x.tw.size());A(x.c,x.tw.size());break; case ILoad:case IALoad: A(x.a);break; case IStore:case IAStore: A(x.a);A(x.b,x.tw.size());break; case IRmw:A(x.a);A(x.b);break; case ICmpXchg:A(x.a);A(x.b);A(x.c);break; case IGep: A(x.a); for(auto&g:x.gep->idx) A(g.first); break; case ITrunc:case IZExt:case ISExt: A(x.a);break; case IMove: A(x.a,x.slots);break; case ICondBr:case ISwitch: A(x.a);break; case IRet: if(x.slots) A(x.a,x.slots);break; case IResume: A(x.a,2);break; case ICall: if(!x.call->direct&&x.call->ext.empty()) A(x.call->callee); for(auto&a:x.call->args) A(a.o,a.slots); break; default:break; } };
    bool ch=true; while(ch){ ch=false; for(size_t i=n;i-->0;){ Inst&x=f->code[i]; std::vector<u64> o(W,0); auto orIn=[&](size_t j){ if(j<n) for(size_t k=0;k<W;k++) o[k]|=in[j][k]; }; auto edge=[&](const Edge&e){ std::vector<u64> t=e.target<(int)n?in[e.target]:std::vector<u64>(W,0); for(auto&c:e.copies) t[c.first/64]&=~(1ull<<(c.first%64)); for(auto&c:e.copies) if(c.second>=0) t[c.second/64]|=1ull<<(c.second%64); for(size_t k=0;k<W;k++) o[k]|=t[k]; };
        if(x.op==IBr||x.op==ICondBr||x.op==ISwitch) for(auto&e:x.edges) edge(e); else if(x.op==ICall&&x.call->invoke){ edge(x.call->normal); edge(x.call->unwind); } else if(x.op==IRet||x.op==IResume||x.op==IUnreachable){} else orIn(i+1);
        bool second=x.op==IMove&&i>0&&f->code[i-1].I==x.I&&f->code[i-1].op==IMove; (void)second;
        if(x.dst>=0) for(int k=0;k<dstSlots(x);k++){ i32 d=x.dst+k; o[d/64]&=~(1ull<<(d%64)); }
        std::vector<u64> liveAcross=o; std::vector<i32> u; uses(x,u); for(i32 r:u) o[r/64]|=1ull<<(r%64);
        if(o!=in[i]){ in[i]=o; ch=true; }
        if(x.op==ICall){ x.deadSlots.clear(); for(u32 r=0;r<R;r++) if(!(liveAcross[r/64]>>(r%64)&1)) x.deadSlots.push_back(r); }
      } }
    for(size_t i=0;i<n;i++){ Inst&x=f->code[i]; if(x.op==IALoad||x.op==IAStore||x.op==IRmw||x.op==ICmpXchg){ x.needLive=true; x.deadSlots.clear(); for(u32 r=0;r<R;r++) if(!(in[i][r/64]>>(r%64)&1)) x.deadSlots.push_back(r); } }
    // for calls that may block (intrinsics with a scheduling point) the arguments must stay: keep a second list
    for(size_t i=0;i<n;i++){ Inst&x=f->code[i]; if(x.op==ICall){ for(u32 r=0;r<R;r++) if(!(in[i][r/64]>>(r%64)&1)) x.toff.push_back(r); } }
  }
};
