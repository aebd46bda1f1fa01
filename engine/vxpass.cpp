// vxpass: LLVM 18 plugin that adds symbolic shadow computation to C++ code compiled by clang.
// Every SSA value gets a shadow (i8*: null = concrete, else an expression of the vx runtime);
// memory shadows live in the runtime.  The native computation is left untouched, so the program
// still runs the real code; the shadows describe its values as functions of the symbolic inputs.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/LowerAtomic.h"
#include "llvm/Transforms/Scalar/LowerAtomicPass.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <set>
#include <string>
using namespace llvm;

namespace {

enum Op { oADD=2,oSUB,oMUL,oUDIV,oSDIV,oUREM,oSREM,oSHL,oLSHR,oASHR,oAND,oOR,oXOR };
enum Cast { cTRUNC, cZEXT, cSEXT, cSI2FP, cUI2FP, cFP2SI, cFP2UI, cFPEXT, cFPTRUNC };
enum FOp { fADD, fSUB, fMUL, fDIV, fREM };
enum Intr { iUMAX, iUMIN, iSMAX, iSMIN, iABS, iCTPOP, iCTLZ, iCTTZ, iBSWAP, iFSHL, iFSHR, iUADDSAT, iUSUBSAT,
            iBITREV, iFABS, iFLOOR, iCEIL, iFTRUNC, iFNEG, iSADDSAT, iSSUBSAT };
enum Ovf { vUADD, vUSUB, vUMUL, vSADD, vSSUB, vSMUL };

struct Inst {
    Module &M; LLVMContext &C; const DataLayout &DL;
    Type *I1,*I8,*I32,*I64,*Void; PointerType *P;
    Constant *NullP;
    FunctionCallee fEntry,fGetRet,fRet,fByval,fClear,fBin,fBinW,fCmp,fCmpW,fFBin,fFCmp,fCast,fSelect,fSelectAgg,fLoad,fStore,
        fBranch,fSwitch,fPin,fPinMem,fTGet,fTSet,fMemcpy,fMemset,fIntr,fOvf,fExt,fIndirect,fAssert,fAssume,fAlloc,fInvSel;
    GlobalVariable *gCallee,*gArgs;
    Inst(Module &M):M(M),C(M.getContext()),DL(M.getDataLayout()){
        I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);Void=Type::getVoidTy(C);
        P=PointerType::getUnqual(C); NullP=ConstantPointerNull::get(P);
        auto f=[&](const char*n,Type*r,ArrayRef<Type*>a){
            AttributeList AL; AL=AL.addFnAttribute(C,Attribute::NoUnwind);
            for(unsigned i=0;i<a.size();i++) if(a[i]->isIntegerTy(1)) AL=AL.addParamAttribute(C,i,Attribute::ZExt);
            return M.getOrInsertFunction(n,FunctionType::get(r,a,false),AL);};
        fEntry=f("vxr_entry",P,{P});
        fGetRet=f("vxr_getret",P,{P});
        fRet=f("vxr_ret",Void,{P,P});
        fByval=f("vxr_byval",Void,{P,P,I64});
        fClear=f("vxr_clear",Void,{P,I64});
        fBin=f("vxr_bin",P,{I32,I32,P,I64,P,I64});
        fBinW=f("vxr_binw",P,{I32,I32,P,I64,I64,P,I64,I64});
        fCmp=f("vxr_cmp",P,{I32,I32,P,I64,P,I64});
        fCmpW=f("vxr_cmpw",P,{I32,I32,P,I64,I64,P,I64,I64});
        fFBin=f("vxr_fbin",P,{I32,I32,P,I64,P,I64});
        fFCmp=f("vxr_fcmp",P,{I32,I32,P,I64,P,I64});
        fCast=f("vxr_cast",P,{I32,I32,I32,P});
        fSelect=f("vxr_select",P,{P,I1,I32,P,I64,P,I64});
        fLoad=f("vxr_load",P,{P,I64,I32});
        fStore=f("vxr_store",Void,{P,I64,P});
        fBranch=f("vxr_branch",Void,{P,I1});
        fSwitch=f("vxr_switch",Void,{P,I64,I64,P});
        fPin=f("vxr_pin",Void,{P});
        fPinMem=f("vxr_pinmem",Void,{P,I64});
        fTGet=f("vxr_tget",P,{P,I32});
        fTSet=f("vxr_tset",P,{P,I32,P});
        fMemcpy=f("vxr_memcpy",Void,{P,P,I64});
        fMemset=f("vxr_memset",Void,{P,P,I64});
        fIntr=f("vxr_intr",P,{I32,I32,P,I64,P,I64,P,I64});
        fOvf=f("vxr_ovf",P,{I32,I32,P,I64,P,I64});
        fExt=f("vxr_ext",Void,{P,P});
        fAssert=f("vxr_assert",Void,{P,I1,P});
        fAssume=f("vxr_assume",Void,{P,I1});
        gCallee=cast<GlobalVariable>(M.getOrInsertGlobal("vxr_callee",P));
        gArgs=cast<GlobalVariable>(M.getOrInsertGlobal("vxr_args",ArrayType::get(P,32)));
    }
};

// how a type is shadowed
enum TyK { tNone, tInt, tWide, tPtr, tFp, tAgg, tOther };
static TyK tyk(Type*T){
    if(T->isVoidTy()||T->isLabelTy()||T->isMetadataTy()||T->isTokenTy()) return tNone;
    if(auto*I=dyn_cast<IntegerType>(T)) return I->getBitWidth()<=64?tInt:(I->getBitWidth()<=128?tWide:tOther);
    if(T->isPointerTy()) return tPtr;
    if(T->isFloatTy()||T->isDoubleTy()) return tFp;
    if(auto*S=dyn_cast<StructType>(T)){
        if(S->getNumElements()>8) return tOther;
        for(Type*E:S->elements()){ TyK k=tyk(E); if(k!=tInt&&k!=tPtr&&k!=tFp&&k!=tWide) return tOther; }
        return tAgg;
    }
    return tOther;
}
static unsigned bitw(Type*T){
    if(auto*I=dyn_cast<IntegerType>(T)) return I->getBitWidth();
    if(T->isPointerTy()||T->isDoubleTy()) return 64;
    if(T->isFloatTy()) return 32;
    return 0;
}

// external functions whose value arguments may be ignored when symbolic (formatting / logging /
// exception plumbing); everything else external gets its symbolic scalar arguments pinned.
static bool extIgnore(StringRef n){
    static const char*pre[]={"_ZNSo","_ZStls","_ZSt16__ostream_insert","_ZNSolsE","__cxa_","_ZNSt9exception","_ZNSt13runtime_error",
        "_ZNSt15basic_streambuf","_ZNSt15basic_stringbuf","_ZNSt7__cxx1115basic_stringbuf","_ZNSt7__cxx1118basic_stringstream",
        "_ZNSt7__cxx1119basic_ostringstream","_ZNSt9basic_ios","_ZNSt8ios_base","_Unwind","_ZSt9terminate","vx_","printf","fprintf","puts","snprintf"};
    for(auto p:pre) if(n.starts_with(p)) return true;
    if(n.contains("__throw_")) return true;
    return false;
}

struct FnInst {
    Inst &I; Function &F; Module &M;
    DenseMap<Value*,Value*> S;
    std::vector<std::pair<PHINode*,PHINode*>> phis;
    FnInst(Inst&I,Function&F):I(I),F(F),M(I.M){}

    Value* sh(Value*V){
        if(isa<Constant>(V)||isa<InlineAsm>(V)||isa<MetadataAsValue>(V)) return I.NullP;
        auto it=S.find(V); return it==S.end()?(Value*)I.NullP:it->second;
    }
    bool isNull(Value*s){ return s==I.NullP; }
    Value* as64(IRBuilder<>&B,Value*V){
        Type*T=V->getType();
        if(auto*IT=dyn_cast<IntegerType>(T)){
            if(IT->getBitWidth()==64) return V;
            if(IT->getBitWidth()>64) return B.CreateTrunc(V,I.I64);
            return B.CreateZExt(V,I.I64);
        }
        if(T->isPointerTy()) return B.CreatePtrToInt(V,I.I64);
        if(T->isDoubleTy()) return B.CreateBitCast(V,I.I64);
        if(T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V,I.I32),I.I64);
        return ConstantInt::get(I.I64,0);
    }
    Value* hi64(IRBuilder<>&B,Value*V){
        unsigned w=bitw(V->getType());
        if(w<=64) return ConstantInt::get(I.I64,0);
        return B.CreateTrunc(B.CreateLShr(V,64),I.I64);
    }
    Constant* c32(unsigned x){return ConstantInt::get(I.I32,x);}
    Constant* c64(uint64_t x){return ConstantInt::get(I.I64,x);}
    void pin(IRBuilder<>&B,Value*s){ if(!isNull(s)) B.CreateCall(I.fPin,{s}); }

    Value* loadShadow(IRBuilder<>&B,Value*ptr,Type*T){
        TyK k=tyk(T);
        switch(k){
        case tInt:case tWide:case tPtr:case tFp:
            return B.CreateCall(I.fLoad,{ptr,c64(I.DL.getTypeStoreSize(T)),c32(bitw(T))});
        case tAgg:{
            Value*s=I.NullP; auto*ST=cast<StructType>(T); auto*L=I.DL.getStructLayout(ST);
            for(unsigned i=0;i<ST->getNumElements();i++){
                Value*p=B.CreateGEP(I.I8,ptr,c64(L->getElementOffset(i)));
                Value*e=loadShadow(B,p,ST->getElementType(i));
                s=B.CreateCall(I.fTSet,{s,c32(i),e});
            }
            return s; }
        case tOther:
            B.CreateCall(I.fPinMem,{ptr,c64(I.DL.getTypeStoreSize(T))});
            return I.NullP;
        default: return I.NullP;
        }
    }
    void storeShadow(IRBuilder<>&B,Value*ptr,Type*T,Value*s){
        TyK k=tyk(T);
        if(k==tAgg && !isNull(s)){
            auto*ST=cast<StructType>(T); auto*L=I.DL.getStructLayout(ST);
            for(unsigned i=0;i<ST->getNumElements();i++){
                Value*p=B.CreateGEP(I.I8,ptr,c64(L->getElementOffset(i)));
                Value*e=B.CreateCall(I.fTGet,{s,c32(i)});
                storeShadow(B,p,ST->getElementType(i),e);
            }
            return;
        }
        if(k==tOther||k==tNone) s=I.NullP;
        B.CreateCall(I.fStore,{ptr,c64(I.DL.getTypeStoreSize(T)),s});
    }

    void run(){
        // normal destinations of invokes must be single-predecessor blocks without PHIs of the result
        std::vector<InvokeInst*> invs;
        for(auto&BB:F) if(auto*II=dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(II);
        for(auto*II:invs){
            BasicBlock*N=II->getNormalDest();
            if(!N->getSinglePredecessor()) SplitEdge(II->getParent(),N);
            FoldSingleEntryPHINodes(II->getNormalDest());
        }
        std::vector<Instruction*> work;
        {
            ReversePostOrderTraversal<Function*> RPO(&F);
            for(auto*BB:RPO) for(auto&In:*BB) work.push_back(&In);
        }
        // Shadows for arguments
        {
            BasicBlock&E=F.getEntryBlock();
            BasicBlock::iterator ip=E.begin();
            std::vector<AllocaInst*> allocas;
            for(auto it=E.begin();it!=E.end();++it) if(auto*A=dyn_cast<AllocaInst>(&*it)){ allocas.push_back(A); ip=std::next(it);} 
            IRBuilder<> B(&E,ip);
            bool any=false; for(auto&A:F.args()){ TyK k=tyk(A.getType()); if(k!=tNone&&k!=tOther) any=true; }
            if(any && F.getName()!="main" && !F.isVarArg()){
                Value*av=B.CreateCall(I.fEntry,{&F});
                unsigned i=0;
                for(auto&A:F.args()){
                    if(i<32){
                        TyK k=tyk(A.getType());
                        if(A.hasByValAttr()){
                            Value*src=B.CreateLoad(I.P,B.CreateConstGEP1_32(I.P,av,i));
                            B.CreateCall(I.fByval,{src,&A,c64(I.DL.getTypeAllocSize(A.getParamByValType()))});
                        } else if(k!=tNone&&k!=tOther && !A.hasStructRetAttr()){
                            S[&A]=B.CreateLoad(I.P,B.CreateConstGEP1_32(I.P,av,i));
                        }
                    }
                    i++;
                }
            }
            for(auto*A:allocas) if(auto*N=dyn_cast<ConstantInt>(A->getArraySize())){
                uint64_t sz=I.DL.getTypeAllocSize(A->getAllocatedType())*N->getZExtValue();
                B.CreateCall(I.fClear,{A,c64(sz)});
            }
        }
        for(auto*In:work) visit(In);
        for(auto&pp:phis){
            PHINode*o=pp.first,*n=pp.second;
            for(unsigned i=0;i<o->getNumIncomingValues();i++) n->addIncoming(sh(o->getIncomingValue(i)),o->getIncomingBlock(i));
        }
    }

    void set(Instruction*In,Value*s){ if(!isNull(s)) S[In]=s; }

    void visit(Instruction*In){
        if(auto*PN=dyn_cast<PHINode>(In)){
            TyK k=tyk(PN->getType()); if(k==tNone||k==tOther) return;
            bool allc=true; for(auto&v:PN->incoming_values()) if(!isa<Constant>(v)) allc=false;
            if(allc) return;
            PHINode*n=PHINode::Create(I.P,PN->getNumIncomingValues(),"",PN);
            S[PN]=n; phis.push_back({PN,n}); return;
        }
        IRBuilder<> B(In);
        if(auto*BO=dyn_cast<BinaryOperator>(In)){ visitBin(B,BO); return; }
        if(auto*IC=dyn_cast<ICmpInst>(In)){
            Value*a=sh(IC->getOperand(0)),*b=sh(IC->getOperand(1));
            if(isNull(a)&&isNull(b)) return;
            Type*T=IC->getOperand(0)->getType(); TyK k=tyk(T);
            if(k==tInt||k==tPtr) set(In,B.CreateCall(I.fCmp,{c32(IC->getPredicate()),c32(bitw(T)),a,as64(B,IC->getOperand(0)),b,as64(B,IC->getOperand(1))}));
            else if(k==tWide) set(In,B.CreateCall(I.fCmpW,{c32(IC->getPredicate()),c32(bitw(T)),a,as64(B,IC->getOperand(0)),hi64(B,IC->getOperand(0)),b,as64(B,IC->getOperand(1)),hi64(B,IC->getOperand(1))}));
            else {pin(B,a);pin(B,b);}
            return;
        }
        if(auto*FC=dyn_cast<FCmpInst>(In)){
            Value*a=sh(FC->getOperand(0)),*b=sh(FC->getOperand(1));
            if(isNull(a)&&isNull(b)) return;
            Type*T=FC->getOperand(0)->getType();
            if(tyk(T)==tFp) set(In,B.CreateCall(I.fFCmp,{c32(FC->getPredicate()),c32(bitw(T)),a,as64(B,FC->getOperand(0)),b,as64(B,FC->getOperand(1))}));
            else {pin(B,a);pin(B,b);}
            return;
        }
        if(auto*U=dyn_cast<UnaryOperator>(In)){
            Value*a=sh(U->getOperand(0)); if(isNull(a)) return;
            if(tyk(U->getType())==tFp) set(In,B.CreateCall(I.fIntr,{c32(iFNEG),c32(bitw(U->getType())),a,as64(B,U->getOperand(0)),I.NullP,c64(0),I.NullP,c64(0)}));
            else pin(B,a);
            return;
        }
        if(auto*CI=dyn_cast<CastInst>(In)){ visitCast(B,CI); return; }
        if(auto*FI=dyn_cast<FreezeInst>(In)){ set(In,sh(FI->getOperand(0))); return; }
        if(auto*SI=dyn_cast<SelectInst>(In)){
            Value*c=sh(SI->getCondition()),*t=sh(SI->getTrueValue()),*f=sh(SI->getFalseValue());
            TyK k=tyk(SI->getType());
            if(SI->getCondition()->getType()->isVectorTy()||k==tOther){ pin(B,c);pin(B,t);pin(B,f); return; }
            if(isNull(c)){ if(isNull(t)&&isNull(f)) return; set(In,B.CreateSelect(SI->getCondition(),t,f)); return; }
            if(k==tInt||k==tPtr||k==tFp){
                set(In,B.CreateCall(I.fSelect,{c,SI->getCondition(),c32(bitw(SI->getType())),t,as64(B,SI->getTrueValue()),f,as64(B,SI->getFalseValue())}));
            } else { pin(B,c); set(In,B.CreateSelect(SI->getCondition(),t,f)); }
            return;
        }
        if(auto*G=dyn_cast<GetElementPtrInst>(In)){
            if(G->getType()->isVectorTy()) return;
            Value*s=sh(G->getPointerOperand()); bool any=!isNull(s);
            for(auto&ix:G->indices()) if(!isNull(sh(ix))) any=true;
            if(!any) return;
            MapVector<Value*,APInt> vo; APInt co(64,0);
            if(!cast<GEPOperator>(G)->collectOffset(I.DL,64,vo,co)){ pin(B,s); for(auto&ix:G->indices()) pin(B,sh(ix)); return; }
            Value*cv=as64(B,G->getPointerOperand()); Value*cs=s;
            auto add=[&](Value*os,Value*ov){
                Value*ns = (isNull(cs)&&isNull(os))?(Value*)I.NullP:B.CreateCall(I.fBin,{c32(oADD),c32(64),cs,cv,os,ov});
                cv=B.CreateAdd(cv,ov); cs=ns; };
            for(auto&kv:vo){
                Value*ix=kv.first; Value*si=sh(ix); unsigned w=bitw(ix->getType());
                Value*iv=B.CreateSExtOrTrunc(ix,I.I64);
                if(!isNull(si)&&w<64) si=B.CreateCall(I.fCast,{c32(cSEXT),c32(w),c32(64),si});
                else if(!isNull(si)&&w>64) si=B.CreateCall(I.fCast,{c32(cTRUNC),c32(w),c32(64),si});
                uint64_t sc=kv.second.getZExtValue();
                if(!isNull(si)&&sc!=1) si=B.CreateCall(I.fBin,{c32(oMUL),c32(64),si,iv,I.NullP,c64(sc)});
                Value*mv=sc==1?iv:B.CreateMul(iv,c64(sc));
                add(si,mv);
            }
            if(co!=0) add(I.NullP,c64(co.getZExtValue()));
            set(In,cs); return;
        }
        if(auto*L=dyn_cast<LoadInst>(In)){
            pin(B,sh(L->getPointerOperand()));
            TyK k=tyk(L->getType()); if(k==tNone) return;
            set(In,loadShadow(B,L->getPointerOperand(),L->getType())); return;
        }
        if(auto*St=dyn_cast<StoreInst>(In)){
            pin(B,sh(St->getPointerOperand()));
            Value*s=sh(St->getValueOperand());
            storeShadow(B,St->getPointerOperand(),St->getValueOperand()->getType(),s); return;
        }
        if(auto*Br=dyn_cast<BranchInst>(In)){
            if(Br->isConditional()){ Value*c=sh(Br->getCondition()); if(!isNull(c)) B.CreateCall(I.fBranch,{c,Br->getCondition()}); }
            return;
        }
        if(auto*Sw=dyn_cast<SwitchInst>(In)){
            Value*c=sh(Sw->getCondition()); if(isNull(c)) return;
            if(tyk(Sw->getCondition()->getType())!=tInt){ pin(B,c); return; }
            std::vector<Constant*> cs; for(auto&k:Sw->cases()) cs.push_back(c64(k.getCaseValue()->getZExtValue()));
            auto*AT=ArrayType::get(I.I64,cs.size());
            auto*GV=new GlobalVariable(M,AT,true,GlobalValue::PrivateLinkage,ConstantArray::get(AT,cs),"vxcases");
            B.CreateCall(I.fSwitch,{c,as64(B,Sw->getCondition()),c64(cs.size()),GV}); return;
        }
        if(auto*IB=dyn_cast<IndirectBrInst>(In)){ pin(B,sh(IB->getAddress())); return; }
        if(auto*R=dyn_cast<ReturnInst>(In)){
            if(!R->getReturnValue()) return;
            Value*s=sh(R->getReturnValue());
            if(tyk(R->getReturnValue()->getType())==tOther) return;
            // a concrete return leaves no matching tag: only report symbolic-capable shadows
            if(isNull(s)) B.CreateCall(I.fRet,{&F,I.NullP}); else B.CreateCall(I.fRet,{&F,s});
            return;
        }
        if(auto*EV=dyn_cast<ExtractValueInst>(In)){
            Value*s=sh(EV->getAggregateOperand()); if(isNull(s)) return;
            if(EV->getNumIndices()!=1||tyk(EV->getAggregateOperand()->getType())!=tAgg) return;
            set(In,B.CreateCall(I.fTGet,{s,c32(EV->getIndices()[0])})); return;
        }
        if(auto*IV=dyn_cast<InsertValueInst>(In)){
            Value*s=sh(IV->getAggregateOperand()),*v=sh(IV->getInsertedValueOperand());
            if(isNull(s)&&isNull(v)) return;
            if(IV->getNumIndices()!=1||tyk(IV->getType())!=tAgg){ pin(B,v); return; }
            set(In,B.CreateCall(I.fTSet,{s,c32(IV->getIndices()[0]),v})); return;
        }
        if(auto*A=dyn_cast<AllocaInst>(In)){
            if(!isa<ConstantInt>(A->getArraySize())) pin(B,sh(A->getArraySize()));
            else if(A->getParent()!=&F.getEntryBlock()){
                IRBuilder<> B2(A->getNextNode()); B2.CreateCall(I.fClear,{A,c64(I.DL.getTypeAllocSize(A->getAllocatedType())*cast<ConstantInt>(A->getArraySize())->getZExtValue())});
            }
            return;
        }
        if(auto*CB=dyn_cast<CallBase>(In)){ visitCall(B,CB); return; }
        if(isa<LandingPadInst>(In)||isa<ResumeInst>(In)||isa<UnreachableInst>(In)||isa<FenceInst>(In)) return;
        // anything else: pin symbolic operands
        for(auto&o:In->operands()) pin(B,sh(o));
    }
    void visitBin(IRBuilder<>&B,BinaryOperator*BO){
        Value*a=sh(BO->getOperand(0)),*b=sh(BO->getOperand(1));
        if(isNull(a)&&isNull(b)) return;
        Type*T=BO->getType(); TyK k=tyk(T); int op=-1;
        switch(BO->getOpcode()){
        case Instruction::Add:op=oADD;break;case Instruction::Sub:op=oSUB;break;case Instruction::Mul:op=oMUL;break;
        case Instruction::UDiv:op=oUDIV;break;case Instruction::SDiv:op=oSDIV;break;case Instruction::URem:op=oUREM;break;
        case Instruction::SRem:op=oSREM;break;case Instruction::Shl:op=oSHL;break;case Instruction::LShr:op=oLSHR;break;
        case Instruction::AShr:op=oASHR;break;case Instruction::And:op=oAND;break;case Instruction::Or:op=oOR;break;
        case Instruction::Xor:op=oXOR;break;default:break; }
        if(op>=0&&k==tInt){ set(BO,B.CreateCall(I.fBin,{c32(op),c32(bitw(T)),a,as64(B,BO->getOperand(0)),b,as64(B,BO->getOperand(1))})); return; }
        if(op>=0&&k==tWide){ set(BO,B.CreateCall(I.fBinW,{c32(op),c32(bitw(T)),a,as64(B,BO->getOperand(0)),hi64(B,BO->getOperand(0)),b,as64(B,BO->getOperand(1)),hi64(B,BO->getOperand(1))})); return; }
        if(k==tFp){
            int f=-1; switch(BO->getOpcode()){case Instruction::FAdd:f=fADD;break;case Instruction::FSub:f=fSUB;break;case Instruction::FMul:f=fMUL;break;case Instruction::FDiv:f=fDIV;break;default:break;}
            if(f>=0){ set(BO,B.CreateCall(I.fFBin,{c32(f),c32(bitw(T)),a,as64(B,BO->getOperand(0)),b,as64(B,BO->getOperand(1))})); return; }
        }
        pin(B,a);pin(B,b);
    }
    void visitCast(IRBuilder<>&B,CastInst*CI){
        Value*s=sh(CI->getOperand(0)); if(isNull(s)) return;
        Type*F0=CI->getSrcTy(),*T0=CI->getDestTy(); TyK a=tyk(F0),b=tyk(T0);
        unsigned wf=bitw(F0),wt=bitw(T0);
        bool ok=(a==tInt||a==tWide||a==tPtr||a==tFp)&&(b==tInt||b==tWide||b==tPtr||b==tFp);
        if(!ok){ pin(B,s); return; }
        int c=-1;
        switch(CI->getOpcode()){
        case Instruction::Trunc:c=cTRUNC;break;case Instruction::ZExt:c=cZEXT;break;case Instruction::SExt:c=cSEXT;break;
        case Instruction::SIToFP:c=cSI2FP;break;case Instruction::UIToFP:c=cUI2FP;break;
        case Instruction::FPToSI:c=cFP2SI;break;case Instruction::FPToUI:c=cFP2UI;break;
        case Instruction::FPExt:c=cFPEXT;break;case Instruction::FPTrunc:c=cFPTRUNC;break;
        case Instruction::BitCast:case Instruction::PtrToInt:case Instruction::IntToPtr:
            if(wf==wt){ set(CI,s); return; } c=wf<wt?cZEXT:cTRUNC; break;
        default:break; }
        if(c<0){ pin(B,s); return; }
        set(CI,B.CreateCall(I.fCast,{c32(c),c32(wf),c32(wt),s}));
    }
    Value* intr(IRBuilder<>&B,int id,unsigned w,Value*x,Value*y=nullptr,Value*z=nullptr){
        Value*n=I.NullP; Value*o=c64(0);
        return B.CreateCall(I.fIntr,{c32(id),c32(w),sh(x),as64(B,x),y?sh(y):n,y?as64(B,y):o,z?sh(z):n,z?as64(B,z):o});
    }
    bool visitIntrinsic(IRBuilder<>&B,IntrinsicInst*II){
        auto id=II->getIntrinsicID();
        auto A=[&](unsigned i){return II->getArgOperand(i);};
        bool any=false; for(auto&a:II->args()) if(!isNull(sh(a))) any=true;
        switch(id){
        case Intrinsic::memcpy:case Intrinsic::memmove:case Intrinsic::memcpy_inline:
            pin(B,sh(A(0)));pin(B,sh(A(1)));pin(B,sh(A(2)));
            B.CreateCall(I.fMemcpy,{A(0),A(1),as64(B,A(2))}); return true;
        case Intrinsic::memset:
            pin(B,sh(A(0)));pin(B,sh(A(2)));
            B.CreateCall(I.fMemset,{A(0),sh(A(1)),as64(B,A(2))}); return true;
        case Intrinsic::lifetime_start:{
            auto*N=cast<ConstantInt>(A(0)); if(!N->isMinusOne()) B.CreateCall(I.fClear,{A(1),N}); return true; }
        default:break; }
        if(!any) return true;
        TyK k=tyk(II->getType()); unsigned w=bitw(II->getType());
        if(k==tInt){
            switch(id){
            case Intrinsic::umax:set(II,intr(B,iUMAX,w,A(0),A(1)));return true;
            case Intrinsic::umin:set(II,intr(B,iUMIN,w,A(0),A(1)));return true;
            case Intrinsic::smax:set(II,intr(B,iSMAX,w,A(0),A(1)));return true;
            case Intrinsic::smin:set(II,intr(B,iSMIN,w,A(0),A(1)));return true;
            case Intrinsic::abs:set(II,intr(B,iABS,w,A(0)));return true;
            case Intrinsic::ctpop:set(II,intr(B,iCTPOP,w,A(0)));return true;
            case Intrinsic::ctlz:set(II,intr(B,iCTLZ,w,A(0)));return true;
            case Intrinsic::cttz:set(II,intr(B,iCTTZ,w,A(0)));return true;
            case Intrinsic::bswap:set(II,intr(B,iBSWAP,w,A(0)));return true;
            case Intrinsic::bitreverse:set(II,intr(B,iBITREV,w,A(0)));return true;
            case Intrinsic::fshl:set(II,intr(B,iFSHL,w,A(0),A(1),A(2)));return true;
            case Intrinsic::fshr:set(II,intr(B,iFSHR,w,A(0),A(1),A(2)));return true;
            case Intrinsic::uadd_sat:set(II,intr(B,iUADDSAT,w,A(0),A(1)));return true;
            case Intrinsic::usub_sat:set(II,intr(B,iUSUBSAT,w,A(0),A(1)));return true;
            case Intrinsic::sadd_sat:set(II,intr(B,iSADDSAT,w,A(0),A(1)));return true;
            case Intrinsic::ssub_sat:set(II,intr(B,iSSUBSAT,w,A(0),A(1)));return true;
            case Intrinsic::expect:case Intrinsic::expect_with_probability:case Intrinsic::ssa_copy:set(II,sh(A(0)));return true;
            default:break; }
        }
        if(k==tFp){
            switch(id){
            case Intrinsic::fabs:set(II,intr(B,iFABS,w,A(0)));return true;
            case Intrinsic::floor:set(II,intr(B,iFLOOR,w,A(0)));return true;
            case Intrinsic::ceil:set(II,intr(B,iCEIL,w,A(0)));return true;
            case Intrinsic::trunc:set(II,intr(B,iFTRUNC,w,A(0)));return true;
            case Intrinsic::fmuladd:{
                Value*m=(isNull(sh(A(0)))&&isNull(sh(A(1))))?(Value*)I.NullP:B.CreateCall(I.fFBin,{c32(fMUL),c32(w),sh(A(0)),as64(B,A(0)),sh(A(1)),as64(B,A(1))});
                Value*mv=B.CreateFMul(A(0),A(1));
                set(II,B.CreateCall(I.fFBin,{c32(fADD),c32(w),m,as64(B,mv),sh(A(2)),as64(B,A(2))})); return true; }
            default:break; }
        }
        if(auto*WO=dyn_cast<WithOverflowInst>(II)){
            unsigned ww=bitw(WO->getLHS()->getType());
            if(ww<=64){
                int o=-1; switch(id){case Intrinsic::uadd_with_overflow:o=vUADD;break;case Intrinsic::usub_with_overflow:o=vUSUB;break;case Intrinsic::umul_with_overflow:o=vUMUL;break;
                case Intrinsic::sadd_with_overflow:o=vSADD;break;case Intrinsic::ssub_with_overflow:o=vSSUB;break;case Intrinsic::smul_with_overflow:o=vSMUL;break;default:break;}
                set(II,B.CreateCall(I.fOvf,{c32(o),c32(ww),sh(A(0)),as64(B,A(0)),sh(A(1)),as64(B,A(1))})); return true;
            }
        }
        if(isa<AssumeInst>(II)||isa<DbgInfoIntrinsic>(II)||id==Intrinsic::lifetime_end||id==Intrinsic::is_constant||id==Intrinsic::objectsize
           ||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::launder_invariant_group||id==Intrinsic::strip_invariant_group||id==Intrinsic::prefetch) {
            if(id==Intrinsic::launder_invariant_group||id==Intrinsic::strip_invariant_group) set(II,sh(A(0)));
            return true; }
        for(auto&a:II->args()) pin(B,sh(a));
        return true;
    }
    void visitCall(IRBuilder<>&B,CallBase*CB){
        if(auto*II=dyn_cast<IntrinsicInst>(CB)){ visitIntrinsic(B,II); return; }
        if(CB->isInlineAsm()){ for(auto&a:CB->args()) pin(B,sh(a)); return; }
        Value*cv=CB->getCalledOperand();
        Function*F0=dyn_cast<Function>(cv->stripPointerCasts());
        if(auto*CI=dyn_cast<CallInst>(CB)) CI->setTailCallKind(CallInst::TCK_NoTail);
        StringRef n=F0?F0->getName():"";
        if(n=="vx_assert"){ B.CreateCall(I.fAssert,{sh(CB->getArgOperand(0)),CB->getArgOperand(0),CB->getArgOperand(1)}); if(isa<CallInst>(CB)) CB->eraseFromParent(); return; }
        if(n=="vx_assume"){ B.CreateCall(I.fAssume,{sh(CB->getArgOperand(0)),CB->getArgOperand(0)}); if(isa<CallInst>(CB)) CB->eraseFromParent(); return; }
        if(n.starts_with("vxr_")) return;
        // replace libc memory functions by instrumented / shadow-aware versions
        static const std::set<std::string> repl={"memcpy","memmove","memset","memcmp","bcmp","strlen","strcmp","strncmp","memchr","strchr","strtoul","strtoull","strtol","strtoll"};
        if(F0&&F0->isDeclaration()&&repl.count(n.str())&&!F.getName().starts_with("vxl_")){
            FunctionCallee nf=M.getOrInsertFunction(("vxl_"+n).str(),CB->getFunctionType());
            CB->setCalledFunction(nf); cv=nf.getCallee(); F0=dyn_cast<Function>(cv); n=F0->getName();
        }
        bool ext=F0&&F0->isDeclaration();
        if((ext||!F0)&&!n.starts_with("vx")) B.CreateCall(M.getOrInsertFunction("vxr_leave",FunctionType::get(I.Void,false)));
        bool any=false; unsigned na=CB->arg_size();
        for(auto&a:CB->args()) if(!isNull(sh(a))) any=true;
        bool byv=false; for(unsigned i=0;i<na&&i<32;i++) if(CB->paramHasAttr(i,Attribute::ByVal)) byv=true;
        if(!F0) pin(B,sh(cv));
        if(any||byv){
            for(unsigned i=0;i<na&&i<32;i++){
                Value*a=CB->getArgOperand(i); Value*s=sh(a);
                if(CB->paramHasAttr(i,Attribute::ByVal)) s=a;
                else if(tyk(a->getType())==tOther){ pin(B,s); s=I.NullP; }
                B.CreateStore(s,B.CreateConstInBoundsGEP2_32(I.gArgs->getValueType(),I.gArgs,0,i));
            }
            for(unsigned i=32;i<na;i++) pin(B,sh(CB->getArgOperand(i)));
            // a declared function may live in another instrumented object: tell the runtime, which
            // knows (by registration) whether it is instrumented, and pins if it is not
            if((ext||!F0) && any && !n.starts_with("vxl_") && !extIgnore(n)){
                Constant*nm=B.CreateGlobalStringPtr(n);
                Value*cnt=c64(na<32?na:32); (void)cnt;
                B.CreateCall(M.getOrInsertFunction("vxr_extcall",FunctionType::get(I.Void,{I.P,I.P,I.I64},false)),{cv,nm,c64(na<32?na:32)});
            }
            B.CreateStore(cv,I.gCallee);
        } else B.CreateStore(I.NullP,I.gCallee);
        // allocation: forget stale shadows of the new block
        bool isnew=n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmSt11align_val_t";
        Type*RT=CB->getType(); TyK k=tyk(RT);
        if(k==tNone) return;
        Instruction*ip;
        if(auto*II=dyn_cast<InvokeInst>(CB)) ip=&*II->getNormalDest()->getFirstInsertionPt();
        else if(isa<CallBrInst>(CB)) return;
        else ip=CB->getNextNode();
        IRBuilder<> B2(ip);
        if(isnew){ B2.CreateCall(I.fClear,{CB,as64(B2,CB->getArgOperand(0))}); return; }
        if(k==tOther) return;
        S[CB]=B2.CreateCall(I.fGetRet,{cv});
    }
};

struct VxPass : PassInfoMixin<VxPass> {
    PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
        if(M.getNamedMetadata("vx.done")) return PreservedAnalyses::all();
        M.getOrInsertNamedMetadata("vx.done");
        std::vector<Function*> fs;
        for(auto&F:M) if(!F.isDeclaration()&&!F.getName().starts_with("vxr_")&&!F.getName().starts_with("vxn_")&&!F.hasFnAttribute(Attribute::Naked)&&!F.hasAvailableExternallyLinkage()) fs.push_back(&F);
        for(auto&F:M) if(F.hasAvailableExternallyLinkage()){ F.deleteBody(); }
        Inst I(M);
        for(auto*F:fs){ FnInst fi(I,*F); fi.run();
            // cheap code generation
            F->removeFnAttr(Attribute::AlwaysInline); F->removeFnAttr(Attribute::OptimizeForSize); F->removeFnAttr(Attribute::MinSize); F->addFnAttr(Attribute::NoInline); F->addFnAttr(Attribute::OptimizeNone); }
        // register instrumented functions (address table in a section walked by the runtime)
        std::vector<Constant*> tab; for(auto*F:fs) if(!F->hasFnAttribute("vx.skip")) tab.push_back(F);
        if(!tab.empty()){
            auto*AT=ArrayType::get(PointerType::getUnqual(M.getContext()),tab.size());
            auto*GV=new GlobalVariable(M,AT,true,GlobalValue::PrivateLinkage,ConstantArray::get(AT,tab),"vxfns");
            // keep comdat functions un-pinned: only reference those that survive linking; weak refs resolve to the kept copy
            FunctionCallee reg=M.getOrInsertFunction("vxr_register",FunctionType::get(Type::getVoidTy(M.getContext()),{PointerType::getUnqual(M.getContext()),Type::getInt64Ty(M.getContext())},false));
            Function*ctor=Function::Create(FunctionType::get(Type::getVoidTy(M.getContext()),false),GlobalValue::InternalLinkage,"vxr_ctor",M);
            IRBuilder<> B(BasicBlock::Create(M.getContext(),"e",ctor));
            B.CreateCall(reg,{GV,ConstantInt::get(Type::getInt64Ty(M.getContext()),tab.size())}); B.CreateRetVoid();
            appendToGlobalCtors(M,ctor,0);
        }
        return PreservedAnalyses::none();
    }
    static void appendToGlobalCtors(Module&M,Function*F,int prio);
    static bool isRequired(){return true;}
};
} // namespace
#include "llvm/Transforms/Utils/ModuleUtils.h"
void VxPass::appendToGlobalCtors(Module&M,Function*F,int prio){ llvm::appendToGlobalCtors(M,F,prio); }

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
    return {LLVM_PLUGIN_API_VERSION,"vx","1",[](PassBuilder&PB){
        PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){
            ScalarizerPassOptions o; o.ScalarizeLoadStore=true; o.ScalarizeVariableInsertExtract=true;
            MPM.addPass(createModuleToFunctionPassAdaptor(LowerAtomicPass()));
            MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
            MPM.addPass(VxPass());
        });
    }};
}
