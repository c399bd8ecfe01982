// sxpass: LLVM 18 pass plugin that instruments every function of a module with
// shadow (symbolic) computation.  See DESIGN.md, "Engine".
//
// Every SSA value of scalar type gets a parallel shadow value of type ptr (null =
// concrete).  Aggregates and vectors are flattened into leaves.  Memory shadows
// live in the runtime (sxrt.cpp).  Branch conditions, switch operands, GEP indices
// and allocation sizes with a shadow are routed through the runtime, which decides
// the direction / concretises by enumeration.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

enum TyKind { TK_INT = 1, TK_F32 = 2, TK_F64 = 3, TK_F80 = 4, TK_PTR = 5, TK_BIG = 6 };

struct MathFn { const char* name; int id; int nargs; };
// ids shared with the runtime
static const MathFn mathFns[] = {
	{"sqrt", 1, 1}, {"sin", 2, 1}, {"cos", 3, 1}, {"tan", 4, 1}, {"exp", 5, 1}, {"log", 6, 1}, {"fabs", 7, 1},
	{"floor", 8, 1}, {"ceil", 9, 1}, {"trunc", 10, 1}, {"rint", 11, 1}, {"nearbyint", 11, 1}, {"round", 12, 1},
	{"sinh", 13, 1}, {"cosh", 14, 1}, {"tanh", 15, 1}, {"asin", 16, 1}, {"acos", 17, 1}, {"atan", 18, 1},
	{"log10", 19, 1}, {"cbrt", 20, 1}, {"exp2", 21, 1}, {"log2", 22, 1}, {"log1p", 23, 1}, {"expm1", 24, 1},
	{"erf", 25, 1}, {"erfc", 26, 1}, {"asinh", 27, 1}, {"acosh", 28, 1}, {"atanh", 29, 1}, {"tgamma", 30, 1},
	{"lgamma", 31, 1},
	{"pow", 40, 2}, {"atan2", 41, 2}, {"hypot", 42, 2}, {"fmod", 43, 2}, {"fmin", 44, 2}, {"fmax", 45, 2},
	{"copysign", 46, 2}, {"fdim", 47, 2}, {"powi", 48, 2}, {"ldexp", 49, 2}, {"drem", 50, 2},{"remainder", 50, 2},
	{"fma", 60, 3}, {"fmuladd", 60, 3},
};

static int mathId(StringRef n, int& nargs)
{
	StringRef base = n;
	for(auto& m : mathFns)
		if(base == m.name) { nargs = m.nargs; return m.id; }
	if(base.endswith("f") || base.endswith("l"))
	{
		StringRef b2 = base.drop_back();
		for(auto& m : mathFns)
			if(b2 == m.name) { nargs = m.nargs; return m.id; }
	}
	if(base.starts_with("__") && base.ends_with("_finite"))
	{
		StringRef b2 = base.drop_front(2).drop_back(7);
		for(auto& m : mathFns)
			if(b2 == m.name) { nargs = m.nargs; return m.id; }
	}
	return 0;
}

struct Instrumenter
{
	Module& M;
	LLVMContext& C;
	const DataLayout& DL;
	Type *VoidT, *I1, *I8, *I32, *I64, *PtrT;
	Constant* Null;
	FunctionCallee fBin, fCmp, fCast, fFNeg, fSel, fDecide, fConc, fLoad, fStore, fStoreC, fClear, fCopy, fSet, fEnter,
		fMath, fLeak, fRetPrep, fAssume, fByval, fIntr2, fFree, fArgPtr, fRetGet, fCallee;
	GlobalVariable *gArgs, *gRet;
	std::map<Value*, std::vector<Value*>> sh;
	std::vector<std::pair<PHINode*, std::vector<PHINode*>>> phis;
	Function* F = nullptr;

	Instrumenter(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout())
	{
		VoidT = Type::getVoidTy(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
		I64 = Type::getInt64Ty(C); PtrT = PointerType::getUnqual(C);
		Null = ConstantPointerNull::get(cast<PointerType>(PtrT));
		auto fn = [&](const char* n, Type* r, std::initializer_list<Type*> a) {
				return M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type*>(a.begin(), a.size()), false));
			};
		fBin = fn("__sx_bin", PtrT, {I32, I32, PtrT, I64, PtrT, I64});
		fCmp = fn("__sx_cmp", PtrT, {I32, I32, PtrT, I64, PtrT, I64});
		fCast = fn("__sx_cast", PtrT, {I32, I32, I32, PtrT, I64});
		fFNeg = fn("__sx_fneg", PtrT, {I32, PtrT, I64});
		fSel = fn("__sx_select", PtrT, {PtrT, I32, I32, PtrT, I64, PtrT, I64});
		fDecide = fn("__sx_decide", I32, {PtrT, I32});
		fConc = fn("__sx_conc", I64, {I32, PtrT, I64});
		fLoad = fn("__sx_load", PtrT, {I32, PtrT, I64});
		fStore = fn("__sx_store", VoidT, {I32, PtrT, I64, PtrT});
		fStoreC = fn("__sx_storec", VoidT, {PtrT, I64});
		fClear = fn("__sx_clear", VoidT, {PtrT, I64});
		fCopy = fn("__sx_copy", VoidT, {PtrT, PtrT, I64});
		fSet = fn("__sx_setmem", VoidT, {PtrT, PtrT, I64, I64});
		fEnter = fn("__sx_enter", VoidT, {PtrT, I32});
		fMath = fn("__sx_math", PtrT, {I32, I32, I32, PtrT, I64, PtrT, I64, PtrT, I64});
		fLeak = fn("__sx_leak", VoidT, {PtrT, PtrT, I32, I64});
		fCallee = fn("__sx_callprep", VoidT, {PtrT, I32});
		fRetGet = fn("__sx_retcheck", VoidT, {PtrT, I32});
		fRetPrep = fn("__sx_retprep", VoidT, {PtrT, I32});
		fByval = fn("__sx_byval", VoidT, {PtrT, PtrT, I64});
		fIntr2 = fn("__sx_intr2", PtrT, {I32, I32, PtrT, I64, PtrT, I64});
		fFree = fn("__sx_free", VoidT, {PtrT});
		auto ext = [&](const char* n, Type* t) {
				auto* g = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
				return g;
			};
		gArgs = ext("__sx_args", ArrayType::get(PtrT, 256));
		gRet = ext("__sx_rets", ArrayType::get(PtrT, 256));
	}

	// --- types ---
	int tyCode(Type* t)
	{
		if(t->isIntegerTy())
		{
			unsigned w = t->getIntegerBitWidth();
			if(w > 64) return (TK_BIG << 8) | 0;
			return (TK_INT << 8) | w;
		}
		if(t->isFloatTy()) return (TK_F32 << 8) | 32;
		if(t->isDoubleTy()) return (TK_F64 << 8) | 64;
		if(t->isX86_FP80Ty()) return (TK_F80 << 8) | 80;
		if(t->isPointerTy()) return (TK_PTR << 8) | 64;
		return (TK_BIG << 8);
	}
	void leaves(Type* t, std::vector<Type*>& out)
	{
		if(auto* s = dyn_cast<StructType>(t)) { for(auto* e : s->elements()) leaves(e, out); return; }
		if(auto* a = dyn_cast<ArrayType>(t)) { for(uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out); return; }
		if(auto* v = dyn_cast<FixedVectorType>(t)) { for(unsigned i = 0; i < v->getNumElements(); i++) out.push_back(v->getElementType()); return; }
		if(t->isVoidTy()) return;
		out.push_back(t);
	}
	unsigned nLeaves(Type* t)
	{
		if(auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for(auto* e : s->elements()) n += nLeaves(e); return n; }
		if(auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nLeaves(a->getElementType());
		if(auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
		if(t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
		return 1;
	}
	unsigned leafOffset(Type* t, ArrayRef<unsigned> idx)
	{
		unsigned off = 0;
		for(unsigned i : idx)
		{
			if(auto* s = dyn_cast<StructType>(t)) { for(unsigned k = 0; k < i; k++) off += nLeaves(s->getElementType(k)); t = s->getElementType(i); }
			else if(auto* a = dyn_cast<ArrayType>(t)) { off += i * nLeaves(a->getElementType()); t = a->getElementType(); }
		}
		return off;
	}
	std::vector<Value*>& shadow(Value* v)
	{
		auto it = sh.find(v);
		if(it != sh.end()) return it->second;
		std::vector<Value*> n(nLeaves(v->getType()), Null);
		return sh[v] = n;
	}
	Value* sh1(Value* v)
	{
		auto& s = shadow(v);
		return s.empty() ? Null : s[0];
	}
	bool isNull(Value* v) { return v == Null; }

	Value* bits(IRBuilder<>& B, Value* v)
	{
		Type* t = v->getType();
		if(t->isIntegerTy())
		{
			if(t->getIntegerBitWidth() > 64) return B.CreateTrunc(v, I64);
			return B.CreateZExt(v, I64);
		}
		if(t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
		if(t->isDoubleTy()) return B.CreateBitCast(v, I64);
		if(t->isX86_FP80Ty()) return B.CreateBitCast(B.CreateFPTrunc(v, Type::getDoubleTy(C)), I64);
		if(t->isPointerTy()) return B.CreatePtrToInt(v, I64);
		return ConstantInt::get(I64, 0);
	}
	Value* lane(IRBuilder<>& B, Value* v, unsigned i)
	{
		if(v->getType()->isVectorTy()) return B.CreateExtractElement(v, (uint64_t) i);
		return v;
	}
	Value* c32(int x) { return ConstantInt::get(I32, x); }

	// Leaf concrete values of an aggregate/scalar
	void leafVals(IRBuilder<>& B, Value* v, std::vector<Value*>& out)
	{
		Type* t = v->getType();
		if(isa<StructType>(t) || isa<ArrayType>(t))
		{
			unsigned n = isa<StructType>(t) ? t->getStructNumElements() : t->getArrayNumElements();
			for(unsigned i = 0; i < n; i++) leafVals(B, B.CreateExtractValue(v, i), out);
			return;
		}
		if(auto* vt = dyn_cast<FixedVectorType>(t))
		{
			for(unsigned i = 0; i < vt->getNumElements(); i++) out.push_back(B.CreateExtractElement(v, (uint64_t) i));
			return;
		}
		if(!t->isVoidTy()) out.push_back(v);
	}
	void leafOffsets(Type* t, uint64_t base, std::vector<std::pair<uint64_t, Type*>>& out)
	{
		if(auto* s = dyn_cast<StructType>(t))
		{
			auto* L = DL.getStructLayout(s);
			for(unsigned i = 0; i < s->getNumElements(); i++) leafOffsets(s->getElementType(i), base + L->getElementOffset(i), out);
			return;
		}
		if(auto* a = dyn_cast<ArrayType>(t))
		{
			uint64_t es = DL.getTypeAllocSize(a->getElementType());
			for(uint64_t i = 0; i < a->getNumElements(); i++) leafOffsets(a->getElementType(), base + i * es, out);
			return;
		}
		if(auto* v = dyn_cast<FixedVectorType>(t))
		{
			uint64_t es = DL.getTypeStoreSize(v->getElementType());
			for(unsigned i = 0; i < v->getNumElements(); i++) out.push_back({base + i * es, v->getElementType()});
			return;
		}
		out.push_back({base, t});
	}

	Value* concretize(IRBuilder<>& B, Value* v)
	{
		Value* s = sh1(v);
		if(isNull(s)) return v;
		Type* t = v->getType();
		if(!t->isIntegerTy() && !t->isPointerTy()) return v;
		Value* r = B.CreateCall(fConc, {c32(tyCode(t)), s, bits(B, v)});
		if(t->isPointerTy()) return B.CreateIntToPtr(r, t);
		return B.CreateTruncOrBitCast(r, t);
	}

	Instruction* after(Instruction* I)
	{
		if(auto* inv = dyn_cast<InvokeInst>(I))
		{
			BasicBlock* nd = inv->getNormalDest();
			return &*nd->getFirstInsertionPt();
		}
		return I->getNextNode();
	}

	void setLeaf(Instruction& I, Value* s) { sh[&I] = {s}; }

	void instrument(Function& f)
	{
		F = &f;
		sh.clear(); phis.clear();
		// split invoke normal edges so that the normal destination has a single predecessor
		{
			std::vector<InvokeInst*> invs;
			for(auto& I : instructions(f)) if(auto* i = dyn_cast<InvokeInst>(&I)) invs.push_back(i);
			for(auto* i : invs)
			{
				BasicBlock* nd = i->getNormalDest();
				if(!nd->getSinglePredecessor() || isa<PHINode>(nd->front()))
				{
					// manual edge split: new block with br
					BasicBlock* nb = BasicBlock::Create(C, "sx.inv", &f, nd);
					BranchInst::Create(nd, nb);
					BasicBlock* src = i->getParent();
					for(auto& phi : nd->phis())
					{
						int idx = phi.getBasicBlockIndex(src);
						if(idx >= 0) phi.setIncomingBlock(idx, nb);
					}
					i->setNormalDest(nb);
				}
			}
		}
		removeUnreachableBlocks(f);

		// entry
		std::vector<Instruction*> order;
		{
			ReversePostOrderTraversalWrapper(f, order);
		}
		Instruction* ip = nullptr;
		for(auto& I : f.getEntryBlock()) if(!isa<AllocaInst>(&I)) { ip = &I; break; }
		{
			IRBuilder<> B(ip);
			unsigned n = 0;
			for(auto& a : f.args()) n += nLeaves(a.getType());
			B.CreateCall(fEnter, {&f, c32(std::min(n, 255u))});
			unsigned k = 0;
			for(auto& a : f.args())
			{
				unsigned ln = nLeaves(a.getType());
				std::vector<Value*> v;
				bool bv = a.hasByValAttr();
				for(unsigned i = 0; i < ln; i++, k++)
				{
					if(k >= 255) { v.push_back(Null); continue; }
					Value* L = B.CreateLoad(PtrT, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, k));
					v.push_back(L);
					if(bv)
					{
						// L carries the caller's pointer for byval arguments (tagged by callprep protocol)
						uint64_t sz = DL.getTypeAllocSize(a.getParamByValType());
						B.CreateCall(fByval, {&a, L, ConstantInt::get(I64, sz)});
					}
				}
				if(a.getType()->isPointerTy()) v.assign(ln, Null);
				sh[&a] = v;
			}
		}
		for(Instruction* I : order) visit(*I);
		// fill phis
		for(auto& p : phis)
		{
			PHINode* P = p.first;
			for(unsigned i = 0; i < P->getNumIncomingValues(); i++)
			{
				auto& s = shadow(P->getIncomingValue(i));
				for(unsigned k = 0; k < p.second.size(); k++) p.second[k]->addIncoming(s[k], P->getIncomingBlock(i));
			}
		}
	}

	void ReversePostOrderTraversalWrapper(Function& f, std::vector<Instruction*>& order)
	{
		std::set<BasicBlock*> seen;
		std::vector<BasicBlock*> post;
		std::vector<std::pair<BasicBlock*, unsigned>> st;
		st.push_back({&f.getEntryBlock(), 0});
		seen.insert(&f.getEntryBlock());
		while(!st.empty())
		{
			auto& [b, i] = st.back();
			auto* t = b->getTerminator();
			if(i < t->getNumSuccessors())
			{
				BasicBlock* s = t->getSuccessor(i++);
				if(seen.insert(s).second) st.push_back({s, 0});
			}
			else { post.push_back(b); st.pop_back(); }
		}
		for(auto it = post.rbegin(); it != post.rend(); ++it)
			for(auto& I : **it) order.push_back(&I);
	}

	void visit(Instruction& I)
	{
		if(auto* P = dyn_cast<PHINode>(&I))
		{
			unsigned n = nLeaves(P->getType());
			std::vector<Value*> v; std::vector<PHINode*> ps;
			if(P->getType()->isPointerTy()) { sh[P] = {Null}; return; }
			IRBuilder<> B(P);
			for(unsigned i = 0; i < n; i++)
			{
				PHINode* q = B.CreatePHI(PtrT, P->getNumIncomingValues());
				v.push_back(q); ps.push_back(q);
			}
			sh[P] = v;
			phis.push_back({P, ps});
			return;
		}
		if(auto* BO = dyn_cast<BinaryOperator>(&I)) return visitBin(*BO);
		if(auto* U = dyn_cast<UnaryOperator>(&I))
		{
			auto s = shadow(U->getOperand(0));
			IRBuilder<> B(I.getNextNode());
			std::vector<Value*> r;
			for(unsigned i = 0; i < s.size(); i++)
				r.push_back(isNull(s[i]) ? (Value*) Null : B.CreateCall(fFNeg, {c32(tyCode(U->getType()->getScalarType())), s[i], bits(B, lane(B, U->getOperand(0), i))}));
			sh[&I] = r;
			return;
		}
		if(auto* CI = dyn_cast<CmpInst>(&I))
		{
			auto sa = shadow(CI->getOperand(0)), sb = shadow(CI->getOperand(1));
			IRBuilder<> B(I.getNextNode());
			std::vector<Value*> r;
			Type* st = CI->getOperand(0)->getType()->getScalarType();
			for(unsigned i = 0; i < sa.size(); i++)
			{
				if(isNull(sa[i]) && isNull(sb[i])) { r.push_back(Null); continue; }
				r.push_back(B.CreateCall(fCmp, {c32(CI->getPredicate()), c32(tyCode(st)), sa[i], bits(B, lane(B, CI->getOperand(0), i)), sb[i], bits(B, lane(B, CI->getOperand(1), i))}));
			}
			sh[&I] = r;
			return;
		}
		if(auto* CI = dyn_cast<CastInst>(&I)) return visitCast(*CI);
		if(auto* S = dyn_cast<SelectInst>(&I)) return visitSelect(*S);
		if(auto* L = dyn_cast<LoadInst>(&I)) return visitLoad(*L);
		if(auto* S = dyn_cast<StoreInst>(&I)) return visitStore(*S);
		if(auto* G = dyn_cast<GetElementPtrInst>(&I))
		{
			IRBuilder<> B(G);
			for(unsigned i = 1; i < G->getNumOperands(); i++)
			{
				Value* op = G->getOperand(i);
				if(op->getType()->isIntegerTy() && !isNull(sh1(op))) G->setOperand(i, concretize(B, op));
			}
			sh[&I] = std::vector<Value*>(nLeaves(G->getType()), Null);
			return;
		}
		if(auto* Br = dyn_cast<BranchInst>(&I))
		{
			if(Br->isConditional())
			{
				Value* s = sh1(Br->getCondition());
				if(!isNull(s))
				{
					IRBuilder<> B(Br);
					Value* d = B.CreateCall(fDecide, {s, B.CreateZExt(Br->getCondition(), I32)});
					Br->setCondition(B.CreateTrunc(d, I1));
				}
			}
			return;
		}
		if(auto* S = dyn_cast<SwitchInst>(&I))
		{
			if(!isNull(sh1(S->getCondition())))
			{
				IRBuilder<> B(S);
				S->setCondition(concretize(B, S->getCondition()));
			}
			return;
		}
		if(auto* R = dyn_cast<ReturnInst>(&I))
		{
			Value* v = R->getReturnValue();
			if(!v) return;
			unsigned n = nLeaves(v->getType());
			if(n == 0 || n > 255) return;
			if(v->getType()->isPointerTy()) return;
			IRBuilder<> B(R);
			auto s = shadow(v);
			// a musttail call must be directly followed by ret
			if(auto* pc = dyn_cast_or_null<CallInst>(R->getPrevNode())) if(pc->isMustTailCall()) return;
			B.CreateCall(fRetPrep, {F, c32(n)});
			for(unsigned i = 0; i < n; i++)
				B.CreateStore(s[i], B.CreateConstInBoundsGEP2_64(gRet->getValueType(), gRet, 0, i));
			return;
		}
		if(auto* E = dyn_cast<ExtractValueInst>(&I))
		{
			auto s = shadow(E->getAggregateOperand());
			unsigned off = leafOffset(E->getAggregateOperand()->getType(), E->getIndices());
			unsigned n = nLeaves(E->getType());
			sh[&I] = std::vector<Value*>(s.begin() + off, s.begin() + off + n);
			return;
		}
		if(auto* E = dyn_cast<InsertValueInst>(&I))
		{
			auto s = shadow(E->getAggregateOperand());
			auto t = shadow(E->getInsertedValueOperand());
			unsigned off = leafOffset(E->getType(), E->getIndices());
			for(unsigned i = 0; i < t.size(); i++) s[off + i] = t[i];
			sh[&I] = s;
			return;
		}
		if(auto* E = dyn_cast<ExtractElementInst>(&I))
		{
			auto s = shadow(E->getVectorOperand());
			if(auto* ci = dyn_cast<ConstantInt>(E->getIndexOperand()))
			{
				uint64_t k = ci->getZExtValue();
				sh[&I] = {k < s.size() ? s[k] : Null};
				return;
			}
			IRBuilder<> B(I.getNextNode());
			Value* r = Null;
			for(unsigned i = 0; i < s.size(); i++)
				if(!isNull(s[i])) r = B.CreateSelect(B.CreateICmpEQ(E->getIndexOperand(), ConstantInt::get(E->getIndexOperand()->getType(), i)), s[i], r);
			sh[&I] = {r};
			return;
		}
		if(auto* E = dyn_cast<InsertElementInst>(&I))
		{
			auto s = shadow(E->getOperand(0));
			Value* v = sh1(E->getOperand(1));
			if(auto* ci = dyn_cast<ConstantInt>(E->getOperand(2)))
			{
				uint64_t k = ci->getZExtValue();
				if(k < s.size()) s[k] = v;
				sh[&I] = s;
				return;
			}
			IRBuilder<> B(I.getNextNode());
			for(unsigned i = 0; i < s.size(); i++)
				s[i] = B.CreateSelect(B.CreateICmpEQ(E->getOperand(2), ConstantInt::get(E->getOperand(2)->getType(), i)), v, s[i]);
			sh[&I] = s;
			return;
		}
		if(auto* E = dyn_cast<ShuffleVectorInst>(&I))
		{
			auto a = shadow(E->getOperand(0)), b = shadow(E->getOperand(1));
			std::vector<Value*> r;
			for(int m : E->getShuffleMask())
			{
				if(m < 0) r.push_back(Null);
				else if((unsigned) m < a.size()) r.push_back(a[m]);
				else r.push_back(b[m - a.size()]);
			}
			sh[&I] = r;
			return;
		}
		if(auto* Fz = dyn_cast<FreezeInst>(&I)) { sh[&I] = shadow(Fz->getOperand(0)); return; }
		if(auto* A = dyn_cast<AllocaInst>(&I))
		{
			IRBuilder<> B(A->getNextNode());
			Value* n = ConstantInt::get(I64, DL.getTypeAllocSize(A->getAllocatedType()));
			if(A->isArrayAllocation()) n = B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), I64), n);
			B.CreateCall(fClear, {A, n});
			sh[&I] = {Null};
			return;
		}
		if(auto* CB = dyn_cast<CallBase>(&I)) return visitCall(*CB);
		if(auto* RMW = dyn_cast<AtomicRMWInst>(&I))
		{
			IRBuilder<> B(I.getNextNode());
			B.CreateCall(fStoreC, {RMW->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(RMW->getValOperand()->getType()))});
		}
		// anything else: concrete
		if(!I.getType()->isVoidTy()) sh[&I] = std::vector<Value*>(nLeaves(I.getType()), Null);
	}

	void visitBin(BinaryOperator& I)
	{
		auto sa = shadow(I.getOperand(0)), sb = shadow(I.getOperand(1));
		Instruction* nx = I.getNextNode();
		IRBuilder<> B(nx);
		std::vector<Value*> r;
		Type* st = I.getType()->getScalarType();
		for(unsigned i = 0; i < sa.size(); i++)
		{
			if(isNull(sa[i]) && isNull(sb[i])) { r.push_back(Null); continue; }
			r.push_back(B.CreateCall(fBin, {c32(I.getOpcode()), c32(tyCode(st)), sa[i], bits(B, lane(B, I.getOperand(0), i)), sb[i], bits(B, lane(B, I.getOperand(1), i))}));
		}
		sh[&I] = r;
	}

	void visitCast(CastInst& I)
	{
		Type *s = I.getSrcTy(), *d = I.getDestTy();
		auto ss = shadow(I.getOperand(0));
		std::vector<Value*> r;
		if(d->isPointerTy() || s->isPointerTy())
		{
			if(isa<IntToPtrInst>(&I) && !isNull(ss[0]))
			{
				IRBuilder<> B(&I);
				I.setOperand(0, concretize(B, I.getOperand(0)));
			}
			sh[&I] = std::vector<Value*>(nLeaves(d), Null);
			return;
		}
		if(nLeaves(s) != nLeaves(d))
		{
			sh[&I] = std::vector<Value*>(nLeaves(d), Null); // vector<->scalar bitcast: shadow dropped, flagged
			IRBuilder<> B(I.getNextNode());
			for(unsigned i = 0; i < ss.size(); i++)
				if(!isNull(ss[i])) B.CreateCall(fLeak, {B.CreateGlobalStringPtr("vector-bitcast"), ss[i], c32(tyCode(s->getScalarType())), bits(B, lane(B, I.getOperand(0), i))});
			return;
		}
		IRBuilder<> B(I.getNextNode());
		for(unsigned i = 0; i < ss.size(); i++)
		{
			if(isNull(ss[i])) { r.push_back(Null); continue; }
			r.push_back(B.CreateCall(fCast, {c32(I.getOpcode()), c32(tyCode(s->getScalarType())), c32(tyCode(d->getScalarType())), ss[i], bits(B, lane(B, I.getOperand(0), i))}));
		}
		sh[&I] = r;
	}

	void visitSelect(SelectInst& S)
	{
		Value* c = S.getCondition();
		auto st = shadow(S.getTrueValue()), sf = shadow(S.getFalseValue());
		unsigned n = st.size();
		std::vector<Value*> r;
		if(c->getType()->isVectorTy())
		{
			auto sc = shadow(c);
			IRBuilder<> B(&S);
			Value* nc = c;
			for(unsigned i = 0; i < n; i++)
			{
				Value* ci = B.CreateExtractElement(nc, (uint64_t) i);
				if(!isNull(sc[i]))
				{
					ci = B.CreateTrunc(B.CreateCall(fDecide, {sc[i], B.CreateZExt(ci, I32)}), I1);
					nc = B.CreateInsertElement(nc, ci, (uint64_t) i);
				}
				r.push_back(isNull(st[i]) && isNull(sf[i]) ? (Value*) Null : B.CreateSelect(ci, st[i], sf[i]));
			}
			S.setCondition(nc);
			sh[&S] = r;
			return;
		}
		Value* sc = sh1(c);
		Type* t = S.getType();
		bool scalarInt = t->isIntegerTy() && t->getIntegerBitWidth() <= 64;
		if(!isNull(sc) && scalarInt)
		{
			// ite
			IRBuilder<> B(S.getNextNode());
			Value* v = B.CreateCall(fSel, {sc, B.CreateZExt(c, I32), c32(tyCode(t)), st[0], bits(B, S.getTrueValue()), sf[0], bits(B, S.getFalseValue())});
			// when the condition is concrete at run time the runtime returns the chosen shadow
			sh[&S] = {v};
			return;
		}
		IRBuilder<> B(&S);
		if(!isNull(sc))
		{
			Value* d = B.CreateTrunc(B.CreateCall(fDecide, {sc, B.CreateZExt(c, I32)}), I1);
			S.setCondition(d);
			c = d;
		}
		for(unsigned i = 0; i < n; i++)
			r.push_back(isNull(st[i]) && isNull(sf[i]) ? (Value*) Null : B.CreateSelect(c, st[i], sf[i]));
		sh[&S] = r;
	}

	void visitLoad(LoadInst& L)
	{
		if(L.getType()->isPointerTy()) { sh[&L] = {Null}; return; }
		std::vector<std::pair<uint64_t, Type*>> lo;
		leafOffsets(L.getType(), 0, lo);
		std::vector<Value*> r;
		IRBuilder<> B(L.getNextNode());
		for(auto& [off, t] : lo)
		{
			if(t->isPointerTy()) { r.push_back(Null); continue; }
			Value* p = L.getPointerOperand();
			if(off) p = B.CreateConstGEP1_64(I8, p, off);
			r.push_back(B.CreateCall(fLoad, {c32(tyCode(t)), p, ConstantInt::get(I64, DL.getTypeStoreSize(t))}));
		}
		sh[&L] = r;
	}

	void visitStore(StoreInst& S)
	{
		Value* v = S.getValueOperand();
		auto s = shadow(v);
		IRBuilder<> B(S.getNextNode());
		bool any = false;
		for(auto* x : s) if(!isNull(x)) any = true;
		if(!any)
		{
			B.CreateCall(fStoreC, {S.getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(v->getType()))});
			return;
		}
		std::vector<std::pair<uint64_t, Type*>> lo;
		leafOffsets(v->getType(), 0, lo);
		for(unsigned i = 0; i < lo.size(); i++)
		{
			Value* p = S.getPointerOperand();
			if(lo[i].first) p = B.CreateConstGEP1_64(I8, p, lo[i].first);
			uint64_t sz = DL.getTypeStoreSize(lo[i].second);
			if(isNull(s[i])) B.CreateCall(fStoreC, {p, ConstantInt::get(I64, sz)});
			else B.CreateCall(fStore, {c32(tyCode(lo[i].second)), p, ConstantInt::get(I64, sz), s[i]});
		}
	}

	void mathCall(CallBase& I, int id, int nargs)
	{
		IRBuilder<> B(after(&I));
		std::vector<Value*> args; bool any = false;
		Type* rt = I.getType();
		unsigned n = nLeaves(rt);
		std::vector<Value*> r;
		for(unsigned l = 0; l < n; l++)
		{
			std::vector<Value*> a;
			any = false;
			for(int k = 0; k < 3; k++)
			{
				if(k < nargs)
				{
					Value* op = I.getArgOperand(k);
					auto& s = shadow(op);
					unsigned li = s.size() == 1 ? 0 : l;
					if(!isNull(s[li])) any = true;
					a.push_back(s[li]);
					a.push_back(bits(B, lane(B, op, l)));
				}
				else { a.push_back(Null); a.push_back(ConstantInt::get(I64, 0)); }
			}
			if(!any) { r.push_back(Null); continue; }
			int t2 = nargs > 1 ? tyCode(I.getArgOperand(1)->getType()->getScalarType()) : 0;
			r.push_back(B.CreateCall(fMath, {c32(id), c32(tyCode(rt->getScalarType())), c32(t2), a[0], a[1], a[2], a[3], a[4], a[5]}));
		}
		sh[&I] = r;
	}

	void visitCall(CallBase& I)
	{
		unsigned nret = nLeaves(I.getType());
		auto setNull = [&] { if(!I.getType()->isVoidTy()) sh[&I] = std::vector<Value*>(nret, Null); };
		if(I.isInlineAsm()) { setNull(); return; }
		Function* callee = dyn_cast<Function>(I.getCalledOperand()->stripPointerCasts());
		if(callee && callee->getName().starts_with("__sx_")) { setNull(); return; }
		if(auto* MI = dyn_cast<MemTransferInst>(&I))
		{
			IRBuilder<> B0(&I);
			if(!isNull(sh1(MI->getLength()))) I.setArgOperand(2, concretize(B0, MI->getLength()));
			// copy shadows before the concrete copy (the concrete bytes are read from the source)
			B0.CreateCall(fCopy, {MI->getRawDest(), MI->getRawSource(), B0.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
			return;
		}
		if(auto* MS = dyn_cast<MemSetInst>(&I))
		{
			IRBuilder<> B0(&I);
			if(!isNull(sh1(MS->getLength()))) I.setArgOperand(2, concretize(B0, MS->getLength()));
			IRBuilder<> B(I.getNextNode());
			B.CreateCall(fSet, {MS->getRawDest(), sh1(MS->getValue()), bits(B, MS->getValue()), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
			return;
		}
		if(auto* II = dyn_cast<IntrinsicInst>(&I))
		{
			switch(II->getIntrinsicID())
			{
			case Intrinsic::sqrt: return mathCall(I, 1, 1);
			case Intrinsic::sin: return mathCall(I, 2, 1);
			case Intrinsic::cos: return mathCall(I, 3, 1);
			case Intrinsic::exp: return mathCall(I, 5, 1);
			case Intrinsic::log: return mathCall(I, 6, 1);
			case Intrinsic::fabs: return mathCall(I, 7, 1);
			case Intrinsic::floor: return mathCall(I, 8, 1);
			case Intrinsic::ceil: return mathCall(I, 9, 1);
			case Intrinsic::trunc: return mathCall(I, 10, 1);
			case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return mathCall(I, 11, 1);
			case Intrinsic::round: return mathCall(I, 12, 1);
			case Intrinsic::log10: return mathCall(I, 19, 1);
			case Intrinsic::exp2: return mathCall(I, 21, 1);
			case Intrinsic::log2: return mathCall(I, 22, 1);
			case Intrinsic::pow: return mathCall(I, 40, 2);
			case Intrinsic::powi: return mathCall(I, 48, 2);
			case Intrinsic::ldexp: return mathCall(I, 49, 2);
			case Intrinsic::minnum: case Intrinsic::minimum: return mathCall(I, 44, 2);
			case Intrinsic::maxnum: case Intrinsic::maximum: return mathCall(I, 45, 2);
			case Intrinsic::copysign: return mathCall(I, 46, 2);
			case Intrinsic::fma: case Intrinsic::fmuladd: return mathCall(I, 60, 3);
			case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
			case Intrinsic::uadd_sat: case Intrinsic::usub_sat:
			{
				auto sa = shadow(I.getArgOperand(0)), sb = shadow(I.getArgOperand(1));
				IRBuilder<> B(I.getNextNode());
				std::vector<Value*> r;
				for(unsigned i = 0; i < sa.size(); i++)
				{
					if(isNull(sa[i]) && isNull(sb[i])) { r.push_back(Null); continue; }
					int id = 0;
					switch(II->getIntrinsicID())
					{
					case Intrinsic::smax: id = 1; break;
					case Intrinsic::smin: id = 2; break;
					case Intrinsic::umax: id = 3; break;
					case Intrinsic::umin: id = 4; break;
					case Intrinsic::uadd_sat: id = 6; break;
					default: id = 7; break;
					}
					r.push_back(B.CreateCall(fIntr2, {c32(id), c32(tyCode(I.getType()->getScalarType())), sa[i], bits(B, lane(B, I.getArgOperand(0), i)), sb[i], bits(B, lane(B, I.getArgOperand(1), i))}));
				}
				sh[&I] = r;
				return;
			}
			case Intrinsic::abs:
			{
				auto sa = shadow(I.getArgOperand(0));
				IRBuilder<> B(I.getNextNode());
				std::vector<Value*> r;
				for(unsigned i = 0; i < sa.size(); i++)
					r.push_back(isNull(sa[i]) ? (Value*) Null : B.CreateCall(fIntr2, {c32(5), c32(tyCode(I.getType()->getScalarType())), sa[i], bits(B, lane(B, I.getArgOperand(0), i)), Null, ConstantInt::get(I64, 0)}));
				sh[&I] = r;
				return;
			}
			case Intrinsic::is_fpclass:
			{
				Value* s = sh1(I.getArgOperand(0));
				if(isNull(s)) { setNull(); return; }
				IRBuilder<> B(I.getNextNode());
				sh[&I] = {B.CreateCall(fIntr2, {c32(10), c32(tyCode(I.getArgOperand(0)->getType())), s, bits(B, I.getArgOperand(0)), Null, bits(B, I.getArgOperand(1))})};
				return;
			}
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
			{
				auto* sz = dyn_cast<ConstantInt>(I.getArgOperand(0));
				IRBuilder<> B(I.getNextNode());
				if(sz && !sz->isMinusOne()) B.CreateCall(fClear, {I.getArgOperand(1), ConstantInt::get(I64, sz->getZExtValue())});
				return;
			}
			case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
				sh[&I] = shadow(I.getArgOperand(0));
				return;
			default: break;
			}
			// other intrinsics: concretise any symbolic operand
			IRBuilder<> B(&I);
			for(unsigned i = 0; i < I.arg_size(); i++)
			{
				Value* op = I.getArgOperand(i);
				if(op->getType()->isMetadataTy()) continue;
				for(auto* s : shadow(op))
					if(!isNull(s))
					{
						if(op->getType()->isIntegerTy() && op->getType()->getIntegerBitWidth() <= 64 && !isa<ConstantInt>(op)) I.setArgOperand(i, concretize(B, op));
						else if(!op->getType()->isAggregateType() && !op->getType()->isVectorTy())
							B.CreateCall(fLeak, {B.CreateGlobalStringPtr(callee->getName()), s, c32(tyCode(op->getType())), bits(B, op)});
					}
			}
			setNull();
			return;
		}
		StringRef name = callee ? callee->getName() : "";
		if(callee && callee->isDeclaration())
		{
			int na = 0;
			int id = mathId(name, na);
			if(id && (int) I.arg_size() == na && I.getType()->isFloatingPointTy()) return mathCall(I, id, na);
			// allocation
			if(name == "malloc" || name == "_Znwm" || name == "_Znam" || name == "_ZnwmSt11align_val_t" || name == "_ZnamSt11align_val_t" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t" || name == "__cxa_allocate_exception")
			{
				IRBuilder<> B0(&I);
				if(!isNull(sh1(I.getArgOperand(0)))) I.setArgOperand(0, concretize(B0, I.getArgOperand(0)));
				IRBuilder<> B(after(&I));
				B.CreateCall(fClear, {&I, I.getArgOperand(0)});
				sh[&I] = {Null};
				return;
			}
			if(name == "memcpy" || name == "memmove")
			{
				IRBuilder<> B0(&I);
				if(!isNull(sh1(I.getArgOperand(2)))) I.setArgOperand(2, concretize(B0, I.getArgOperand(2)));
				B0.CreateCall(fCopy, {I.getArgOperand(0), I.getArgOperand(1), I.getArgOperand(2)});
				sh[&I] = {Null};
				return;
			}
			if(name == "memset")
			{
				IRBuilder<> B(after(&I));
				B.CreateCall(fSet, {I.getArgOperand(0), sh1(I.getArgOperand(1)), bits(B, I.getArgOperand(1)), I.getArgOperand(2)});
				sh[&I] = {Null};
				return;
			}
			static const std::set<std::string> models = {"memcmp", "bcmp", "strlen", "memchr", "strcmp", "strncmp", "strchr", "tolower", "toupper", "isspace", "isdigit", "__divdc3", "cabs", "carg", "cexp", "csqrt"};
			if(models.count(name.str()))
			{
				FunctionCallee m = M.getOrInsertFunction(("__sxm_" + name).str(), I.getFunctionType());
				I.setCalledFunction(m);
				callee = cast<Function>(m.getCallee());
				name = callee->getName();
			}
		}
		bool mayBeInstrumented = !callee || !callee->isDeclaration() || true;
		// arguments
		IRBuilder<> B(&I);
		unsigned k = 0;
		bool any = false;
		std::vector<std::pair<unsigned, Value*>> st;
		FunctionType* FT = I.getFunctionType();
		for(unsigned i = 0; i < I.arg_size() && i < FT->getNumParams(); i++)
		{
			Value* op = I.getArgOperand(i);
			if(I.isByValArgument(i)) { st.push_back({k, op}); any = true; k++; continue; }
			auto& s = shadow(op);
			for(auto* x : s)
			{
				if(k < 255) { st.push_back({k, x}); if(!isNull(x)) any = true; }
				k++;
			}
		}
		if(mayBeInstrumented && !I.isMustTailCall())
		{
			if(any)
			{
				for(auto& [i, x] : st) B.CreateStore(x, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, i));
				B.CreateCall(fCallee, {I.getCalledOperand(), c32(std::min(k, 255u))});
			}
			else B.CreateCall(fCallee, {Null, c32(0)}); // clears the token
			// leak detection for known-external callees is done in retcheck (token still armed = not instrumented)
			IRBuilder<> A(after(&I));
			bool wantRet = nret > 0 && nret <= 255 && !I.getType()->isPointerTy();
			if(any || wantRet)
			{
				A.CreateCall(fRetGet, {I.getCalledOperand(), c32(wantRet ? nret : 0)});
			}
			if(wantRet)
			{
				std::vector<Value*> r;
				for(unsigned i = 0; i < nret; i++)
					r.push_back(A.CreateLoad(PtrT, A.CreateConstInBoundsGEP2_64(gRet->getValueType(), gRet, 0, i)));
				// pointer leaves are never symbolic
				std::vector<Type*> lt; leaves(I.getType(), lt);
				for(unsigned i = 0; i < nret; i++) if(lt[i]->isPointerTy()) r[i] = Null;
				sh[&I] = r;
			}
			else setNull();
			// varargs: flag symbolic values
			for(unsigned i = FT->getNumParams(); i < I.arg_size(); i++)
				for(auto* x : shadow(I.getArgOperand(i)))
					if(!isNull(x)) { /* printf-like output only */ }
			return;
		}
		setNull();
	}
};

// comparisons of |x| with infinity (isfinite, isinf) as tests of the class of x, which need no case distinction on the sign
static void absInfToClass(Function& F)
{
	std::vector<FCmpInst*> cs;
	for(auto& I : instructions(F)) if(auto* c = dyn_cast<FCmpInst>(&I)) if(c->getOperand(0)->getType()->isDoubleTy()) cs.push_back(c);
	for(auto* c : cs)
	{
		auto* k = dyn_cast<ConstantFP>(c->getOperand(1)); auto* a = dyn_cast<CallInst>(c->getOperand(0));
		if(!k || !a || !k->getValueAPF().isInfinity() || k->getValueAPF().isNegative() || !a->getCalledFunction()) continue;
		if(a->getCalledFunction()->getIntrinsicID() != Intrinsic::fabs && a->getCalledFunction()->getName() != "fabs") continue;
		unsigned mask;
		switch(c->getPredicate())
		{
		case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ONE: mask = 0x1f8; break;
		case FCmpInst::FCMP_ULT: case FCmpInst::FCMP_UNE: mask = 0x1fb; break;
		case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_OGE: mask = 0x204; break;
		case FCmpInst::FCMP_UEQ: case FCmpInst::FCMP_UGE: mask = 0x207; break;
		default: continue;
		}
		IRBuilder<> B(c);
		Value* v = B.CreateIntrinsic(Intrinsic::is_fpclass, {a->getArgOperand(0)->getType()}, {a->getArgOperand(0), B.getInt32(mask)});
		c->replaceAllUsesWith(v); c->eraseFromParent();
		if(a->use_empty()) a->eraseFromParent();
	}
}

struct SxPass : PassInfoMixin<SxPass>
{
	PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
	{
		if(M.getModuleFlag("sx.done")) return PreservedAnalyses::all();
		M.addModuleFlag(Module::Override, "sx.done", 1);
		std::vector<Function*> fs;
		for(auto& F : M)
		{
			if(F.isDeclaration()) continue;
			if(F.getName().starts_with("__sx_")) continue;
			if(F.hasAvailableExternallyLinkage()) continue;
			fs.push_back(&F);
		}
		// available_externally bodies are dropped so that calls go to real definitions
		for(auto& F : M) if(F.hasAvailableExternallyLinkage()) F.deleteBody();
		Instrumenter ins(M);
		for(auto* F : fs)
		{
			absInfToClass(*F);
			F->removeFnAttr(Attribute::Memory);
			F->removeFnAttr(Attribute::WillReturn);
			F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::NoSync);
			ins.instrument(*F);
		}
		for(auto& F : M)
		{
			if(F.isIntrinsic()) continue;
			F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn);
		}
		for(auto* F : fs) for(auto& I : instructions(*F)) if(auto* cb = dyn_cast<CallBase>(&I)) { if(!isa<IntrinsicInst>(cb)) { cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::WillReturn);} }
		// function table: {ptr fn, ptr name}
		if(!fs.empty())
		{
			LLVMContext& C = M.getContext();
			Type* P = PointerType::getUnqual(C);
			std::vector<Constant*> ent;
			StructType* ST = StructType::get(P, P);
			for(auto* F : fs)
			{
				if(F->hasComdat() || F->hasLinkOnceLinkage() || F->hasWeakLinkage())
				{
					// keep: linker picks one definition
				}
				Constant* s = ConstantDataArray::getString(C, F->getName());
				auto* g = new GlobalVariable(M, s->getType(), true, GlobalValue::PrivateLinkage, s, "sx.name");
				ent.push_back(ConstantStruct::get(ST, {F, g}));
			}
			ArrayType* AT = ArrayType::get(ST, ent.size());
			auto* tab = new GlobalVariable(M, AT, false, GlobalValue::InternalLinkage, ConstantArray::get(AT, ent), "sx.fntab");
			Type* I32 = Type::getInt32Ty(C);
			FunctionCallee reg = M.getOrInsertFunction("__sx_register", FunctionType::get(Type::getVoidTy(C), {P, I32}, false));
			Function* ctor = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::InternalLinkage, "__sx_modctor", &M);
			IRBuilder<> B(BasicBlock::Create(C, "", ctor));
			B.CreateCall(reg, {tab, ConstantInt::get(I32, ent.size())});
			B.CreateRetVoid();
			appendToGlobalCtors(M, ctor, 0);
		}
		return PreservedAnalyses::none();
	}
	static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
	return {LLVM_PLUGIN_API_VERSION, "sxpass", "1", [](PassBuilder& PB) {
				PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
				PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
					if(N == "sx") { MPM.addPass(SxPass()); return true; }
					return false;
				});
			}};
}
