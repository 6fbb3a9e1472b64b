// sympass: clang-18 pass plugin. Adds symbolic shadow propagation to every
// instruction of the code under test, so that running the real compiled code
// builds solver expressions over the symbolic inputs (see DESIGN.md, "Engine").
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/raw_ostream.h"
#include <vector>
#include <map>
using namespace llvm;

namespace {

using Leaves = SmallVector<Value*, 2>;

struct Sym {
	Module& M;
	LLVMContext& C;
	const DataLayout& DL;
	Type *I1, *I8, *I32, *I64, *Ptr, *Void, *Dbl;
	Constant* Null;
	GlobalVariable *GArgs, *GRet, *GCallee, *GNArgs;
	static constexpr unsigned MAXL = 64;

	Sym(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
		I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
		Ptr = PointerType::getUnqual(C); Void = Type::getVoidTy(C); Dbl = Type::getDoubleTy(C);
		Null = ConstantPointerNull::get(cast<PointerType>(Ptr));
		auto g = [&](const char* n, Type* t) {
			return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
		};
		GArgs = g("__sym_args", ArrayType::get(Ptr, MAXL));
		GRet = g("__sym_ret", ArrayType::get(Ptr, MAXL));
		GCallee = g("__sym_callee", Ptr);
		GNArgs = g("__sym_nargs", I64);
		for(auto* v : { GArgs, GRet, GCallee, GNArgs })
			v->setDSOLocal(true);
	}

	template<typename... A> FunctionCallee rt(const char* n, Type* r, A... a) {
		auto fc = M.getOrInsertFunction(n, FunctionType::get(r, { a... }, false));
		if(auto* f = dyn_cast<Function>(fc.getCallee())) { f->setDoesNotThrow(); f->setDSOLocal(true); }
		return fc;
	}

	unsigned nleaves(Type* t) {
		if(auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for(auto* e : s->elements()) n += nleaves(e); return n; }
		if(auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nleaves(a->getElementType());
		if(auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
		if(t->isVoidTy()) return 0;
		return 1;
	}
	// Offset (bytes) and scalar type of each leaf.
	void leafInfo(Type* t, uint64_t off, SmallVectorImpl<std::pair<uint64_t, Type*>>& out) {
		if(auto* s = dyn_cast<StructType>(t)) {
			auto* sl = DL.getStructLayout(s);
			for(unsigned i = 0; i < s->getNumElements(); ++i) leafInfo(s->getElementType(i), off + sl->getElementOffset(i), out);
		} else if(auto* a = dyn_cast<ArrayType>(t)) {
			uint64_t es = DL.getTypeAllocSize(a->getElementType());
			for(unsigned i = 0; i < a->getNumElements(); ++i) leafInfo(a->getElementType(), off + i * es, out);
		} else if(auto* v = dyn_cast<FixedVectorType>(t)) {
			uint64_t es = DL.getTypeStoreSize(v->getElementType());
			for(unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({ off + i * es, v->getElementType() });
		} else
			out.push_back({ off, t });
	}
	bool okInt(Type* t) { return t->isIntegerTy() && t->getIntegerBitWidth() <= 64; }
	bool okScalar(Type* t) { return okInt(t) || t->isDoubleTy(); }

	// Per function state
	DenseMap<Value*, Leaves> sh;
	Leaves shadow(Value* v) {
		auto it = sh.find(v);
		if(it != sh.end()) return it->second;
		return Leaves(nleaves(v->getType()), Null);
	}
	static bool allNull(const Leaves& l) {
		for(auto* v : l) if(!isa<ConstantPointerNull>(v)) return false;
		return true;
	}
	Value* bits(IRBuilder<>& B, Value* v) { // scalar to i64 bits
		Type* t = v->getType();
		if(t->isDoubleTy()) return B.CreateBitCast(v, I64);
		if(t->isPointerTy()) return B.CreatePtrToInt(v, I64);
		if(okInt(t)) return B.CreateZExtOrTrunc(v, I64);
		return ConstantInt::get(I64, 0);
	}
	Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) {
		return B.CreateConstInBoundsGEP2_64(cast<ArrayType>(g->getValueType()), g, 0, i);
	}
	ConstantInt* c32(uint64_t v) { return ConstantInt::get(cast<IntegerType>(I32), v); }
	ConstantInt* c64(uint64_t v) { return ConstantInt::get(cast<IntegerType>(I64), v); }

	void concretize(IRBuilder<>& B, Value* s, Value* v) {
		if(isa<ConstantPointerNull>(s)) return;
		B.CreateCall(rt("__sym_conc", Void, Ptr, I64), { s, bits(B, v) });
	}
	void concretizeAll(IRBuilder<>& B, Value* v) {
		for(auto* s : shadow(v))
			if(!isa<ConstantPointerNull>(s))
				B.CreateCall(rt("__sym_conc_any", Void, Ptr), { s });
	}

	Constant* str(StringRef s) {
		auto* cd = ConstantDataArray::getString(C, s);
		auto* g = new GlobalVariable(M, cd->getType(), true, GlobalValue::PrivateLinkage, cd, ".symstr");
		g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
		return g;
	}

	static const char* redirect(StringRef n) {
		static const StringMap<const char*> map = {
			{ "ceil", "__symw_ceil" }, { "floor", "__symw_floor" }, { "sqrt", "__symw_sqrt" }, { "pow", "__symw_pow" },
			{ "atan2", "__symw_atan2" }, { "cos", "__symw_cos" }, { "sin", "__symw_sin" },
			{ "round", "__symw_round" }, { "trunc", "__symw_trunc" },
			{ "memcpy", "__symw_memcpy" }, { "memmove", "__symw_memmove" }, { "memset", "__symw_memset" },
			{ "memcmp", "__symw_memcmp" }, { "bcmp", "__symw_memcmp" }, { "strlen", "__symw_strlen" },
			{ "_ZSt10from_charsPKcS0_RdSt12chars_format", "__symw_from_chars" },
			{ "_ZSt8to_charsPcS_d", "__symw_to_chars" }, { "_ZNSt7__cxx119to_stringEd", "__symw_to_string" },
			{ "_ZNK4pugi13xml_attribute9as_doubleEd", "__symw_pugi_as_double" },
			{ "_ZNK4pugi13xml_attribute7as_uintEj", "__symw_pugi_as_uint" },
			{ "_ZNK4pugi13xml_attribute7as_boolEb", "__symw_pugi_as_bool" },
			{ "_ZN4pugi13xml_attribute9set_valueEd", "__symw_pugi_set_double" },
			{ "_ZN4pugi13xml_attribute9set_valueEm", "__symw_pugi_set_ulong" },
		};
		auto it = map.find(n);
		return it == map.end() ? nullptr : it->second;
	}

	static bool skipName(StringRef n) {
		return n.starts_with("__sym") || n.starts_with("sym_") || n.starts_with("llvm.");
	}

	std::vector<std::pair<PHINode*, SmallVector<PHINode*, 2>>> phis;

	void doFunction(Function& F, Constant* desc) {
		sh.clear(); phis.clear();
		// Every invoke gets a normal destination of its own.
		{
			std::vector<InvokeInst*> iv;
			for(auto& bb : F) if(auto* i = dyn_cast<InvokeInst>(bb.getTerminator())) iv.push_back(i);
			for(auto* i : iv) if(!i->getNormalDest()->getSinglePredecessor()) SplitEdge(i->getParent(), i->getNormalDest());
		}
		// Snapshot of instructions, in RPO.
		std::vector<Instruction*> insts;
		{
			ReversePostOrderTraversal<Function*> rpo(&F);
			for(auto* bb : rpo) for(auto& i : *bb) insts.push_back(&i);
		}
		// PHI shadows first.
		for(auto* i : insts) if(auto* p = dyn_cast<PHINode>(i)) {
			unsigned n = nleaves(p->getType());
			SmallVector<PHINode*, 2> ps; Leaves l;
			if(p->getType()->isPointerTy()) { sh[p] = Leaves(1, Null); continue; }
			for(unsigned k = 0; k < n; ++k) { auto* q = PHINode::Create(Ptr, p->getNumIncomingValues(), "", p); ps.push_back(q); l.push_back(q); }
			sh[p] = l; phis.push_back({ p, ps });
		}
		// Entry: parameters.
		BasicBlock& E = F.getEntryBlock();
		Instruction* ip = &*E.getFirstInsertionPt();
		{
			IRBuilder<> B(ip);
			B.CreateCall(rt("__sym_enter", Void, Ptr), { desc });
			unsigned k = 0;
			Value* ok = nullptr;
			bool any = F.arg_size() > 0;
			if(any) {
				auto* cal = B.CreateLoad(Ptr, GCallee);
				ok = B.CreateICmpEQ(cal, &F);
			}
			B.CreateStore(Null, GCallee);
			for(auto& a : F.args()) {
				unsigned n = nleaves(a.getType());
				Leaves l;
				for(unsigned i = 0; i < n; ++i, ++k) {
					if(k >= MAXL) { l.push_back(Null); continue; }
					if(a.getType()->isPointerTy()) {
						if(a.hasByValAttr()) {
							auto* src = B.CreateSelect(ok, B.CreateLoad(Ptr, slot(B, GArgs, k)), Null);
							B.CreateCall(rt("__sym_byval", Void, Ptr, Ptr, I64), { &a, src, c64(DL.getTypeAllocSize(a.getParamByValType())) });
						}
						l.push_back(Null);
					} else
						l.push_back(B.CreateSelect(ok, B.CreateLoad(Ptr, slot(B, GArgs, k)), Null));
				}
				sh[&a] = l;
			}
		}
		for(auto* i : insts) doInst(i);
		// Fill phis.
		for(auto& [p, ps] : phis)
			for(unsigned in = 0; in < p->getNumIncomingValues(); ++in) {
				auto l = shadow(p->getIncomingValue(in));
				for(unsigned k = 0; k < ps.size(); ++k) ps[k]->addIncoming(l[k], p->getIncomingBlock(in));
			}
	}

	Value* leafLoad(IRBuilder<>& B, Value* p, uint64_t off, Type* t) {
		Value* a = off ? B.CreateConstInBoundsGEP1_64(I8, p, off) : p;
		if(!okScalar(t) && !t->isPointerTy()) {
			B.CreateCall(rt("__sym_load_unsup", Void, Ptr, I64), { a, c64(DL.getTypeStoreSize(t)) });
			return Null;
		}
		if(t->isPointerTy()) {
			// Pointers are always concrete: pin whatever symbolic bytes are there.
			B.CreateCall(rt("__sym_load_unsup", Void, Ptr, I64), { a, c64(8) });
			return Null;
		}
		return B.CreateCall(rt("__sym_load", Ptr, Ptr, I64, I32, I32), { a, c64(DL.getTypeStoreSize(t)), c32(t->isDoubleTy()), c32(t->isDoubleTy() ? 64 : t->getIntegerBitWidth()) });
	}

	void doCall(CallBase* cb) {
		Instruction* I = cb;
		IRBuilder<> B(I);
		if(cb->isInlineAsm()) {
			for(auto& a : cb->args()) concretizeAll(B, a);
			return;
		}
		Function* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
		if(auto* ii = dyn_cast<IntrinsicInst>(cb)) { doIntrinsic(ii); return; }
		if(callee && callee->isDeclaration()) {
			if(auto* r = redirect(callee->getName())) {
				auto fc = M.getOrInsertFunction(r, callee->getFunctionType());
				cb->setCalledFunction(cast<Function>(fc.getCallee()));
				callee = cast<Function>(fc.getCallee());
				// attributes like readnone must not survive the redirection
				cb->setAttributes(AttributeList());
				if(isa<CallInst>(cb)) cast<CallInst>(cb)->setTailCall(false);
			}
		}
		// arguments
		unsigned k = 0; bool anyArg = false;
		bool musttail = isa<CallInst>(cb) && cast<CallInst>(cb)->isMustTailCall();
		for(unsigned ai = 0; ai < cb->arg_size(); ++ai) {
			Value* a = cb->getArgOperand(ai);
			if(a->getType()->isMetadataTy()) continue;
			auto l = shadow(a);
			for(unsigned i = 0; i < l.size(); ++i, ++k) {
				if(k >= MAXL) continue;
				Value* v = l[i];
				if(cb->isByValArgument(ai)) v = a;
				B.CreateStore(v, slot(B, GArgs, k));
				if(!isa<ConstantPointerNull>(v)) anyArg = true;
			}
		}
		B.CreateStore(cb->getCalledOperand(), GCallee);
		B.CreateStore(c64(k < MAXL ? k : MAXL), GNArgs);
		unsigned nr = nleaves(cb->getType());
		if(nr > MAXL) nr = MAXL;
		for(unsigned i = 0; i < nr; ++i) B.CreateStore(Null, slot(B, GRet, i));
		if(musttail) return;
		// after
		Instruction* after;
		if(auto* inv = dyn_cast<InvokeInst>(cb)) {
			BasicBlock* nd = inv->getNormalDest();
			after = &*nd->getFirstInsertionPt(); // edges are split beforehand
		} else
			after = cb->getNextNode();
		IRBuilder<> A(after);
		if(anyArg) {
			Constant* nm = callee ? str(callee->getName()) : Null;
			A.CreateCall(rt("__sym_after", Void, Ptr, Ptr), { cb->getCalledOperand(), nm });
		}
		if(nr) {
			Leaves l;
			SmallVector<std::pair<uint64_t, Type*>, 4> li; leafInfo(cb->getType(), 0, li);
			for(unsigned i = 0; i < nleaves(cb->getType()); ++i)
				l.push_back(i < nr && okScalar(li[i].second) ? (Value*) A.CreateLoad(Ptr, slot(A, GRet, i)) : (Value*) Null);
			sh[cb] = l;
		}
	}

	void doIntrinsic(IntrinsicInst* ii) {
		auto id = ii->getIntrinsicID();
		IRBuilder<> B(ii);
		IRBuilder<> A(ii->getNextNode() ? ii->getNextNode() : ii);
		switch(id) {
		case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
			concretizeAll(B, ii->getArgOperand(2));
			A.CreateCall(rt("__sym_memcpy", Void, Ptr, Ptr, I64), { ii->getArgOperand(0), ii->getArgOperand(1), A.CreateZExtOrTrunc(ii->getArgOperand(2), I64) });
			// For overlapping memmove the shadow copy is done by the runtime with a temporary.
			return;
		}
		case Intrinsic::memset: case Intrinsic::memset_inline:
			concretizeAll(B, ii->getArgOperand(2));
			concretizeAll(B, ii->getArgOperand(1));
			A.CreateCall(rt("__sym_clear", Void, Ptr, I64), { ii->getArgOperand(0), A.CreateZExtOrTrunc(ii->getArgOperand(2), I64) });
			return;
		case Intrinsic::lifetime_start: {
			auto* n = dyn_cast<ConstantInt>(ii->getArgOperand(0));
			if(n && !n->isMinusOne())
				A.CreateCall(rt("__sym_clear", Void, Ptr, I64), { ii->getArgOperand(1), n });
			return;
		}
		case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
		case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for:
		case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::objectsize:
		case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::is_constant:
		case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::threadlocal_address:
			return;
		case Intrinsic::expect:
			sh[ii] = shadow(ii->getArgOperand(0));
			return;
		default: break;
		}
		bool any = false;
		for(auto& a : ii->args()) if(!a->getType()->isMetadataTy() && !allNull(shadow(a))) any = true;
		if(!any) return;
		Type* t = ii->getType();
		auto un = [&](const char* n) {
			auto* a = ii->getArgOperand(0);
			sh[ii] = { B.CreateCall(rt(n, Ptr, Ptr, I64), { shadow(a)[0], bits(B, a) }) };
		};
		if(t->isDoubleTy()) {
			switch(id) {
			case Intrinsic::fabs: un("__sym_fabs"); return;
			case Intrinsic::ceil: un("__sym_ceil"); return;
			case Intrinsic::floor: un("__sym_floor"); return;
			case Intrinsic::trunc: un("__sym_trunc"); return;
			case Intrinsic::sqrt: un("__sym_sqrt"); return;
			case Intrinsic::minnum: case Intrinsic::maxnum: {
				auto* a = ii->getArgOperand(0); auto* b = ii->getArgOperand(1);
				sh[ii] = { B.CreateCall(rt("__sym_fminmax", Ptr, I32, Ptr, I64, Ptr, I64), { c32(id == Intrinsic::maxnum), shadow(a)[0], bits(B, a), shadow(b)[0], bits(B, b) }) };
				return;
			}
			default: break;
			}
		}
		if(okInt(t)) {
			unsigned w = t->getIntegerBitWidth();
			int op = -1;
			switch(id) {
			case Intrinsic::umin: op = 0; break;
			case Intrinsic::umax: op = 1; break;
			case Intrinsic::smin: op = 2; break;
			case Intrinsic::smax: op = 3; break;
			case Intrinsic::abs: op = 4; break;
			case Intrinsic::usub_sat: op = 5; break;
			case Intrinsic::ctpop: op = 6; break;
			default: break;
			}
			if(op >= 0) {
				auto* a = ii->getArgOperand(0); auto* b = (op == 4 || op == 6) ? a : ii->getArgOperand(1);
				sh[ii] = { B.CreateCall(rt("__sym_iintr", Ptr, I32, I32, Ptr, I64, Ptr, I64), { c32(op), c32(w), shadow(a)[0], bits(B, a), shadow(b)[0], bits(B, b) }) };
				return;
			}
		}
		if(auto* wo = dyn_cast<WithOverflowInst>(ii); wo && okInt(wo->getLHS()->getType())) {
			auto* a = wo->getLHS(); auto* b = wo->getRHS();
			unsigned w = a->getType()->getIntegerBitWidth();
			auto* r = B.CreateCall(rt("__sym_bin", Ptr, I32, I32, Ptr, I64, Ptr, I64), { c32(wo->getBinaryOp()), c32(w), shadow(a)[0], bits(B, a), shadow(b)[0], bits(B, b) });
			auto* o = B.CreateCall(rt("__sym_ovf", Ptr, I32, I32, I32, Ptr, I64, Ptr, I64), { c32(wo->getBinaryOp()), c32(wo->isSigned()), c32(w), shadow(a)[0], bits(B, a), shadow(b)[0], bits(B, b) });
			sh[ii] = { r, o };
			return;
		}
		// Unknown: pin the operands.
		B.CreateCall(rt("__sym_unsup", Void, Ptr), { str(ii->getCalledFunction()->getName()) });
		for(auto& a : ii->args()) if(!a->getType()->isMetadataTy()) concretizeAll(B, a);
	}

	void doInst(Instruction* I) {
		if(isa<PHINode>(I)) return;
		IRBuilder<> B(I);
		if(auto* cb = dyn_cast<CallBase>(I)) { doCall(cb); return; }
		if(auto* ld = dyn_cast<LoadInst>(I)) {
			IRBuilder<> A(I->getNextNode());
			SmallVector<std::pair<uint64_t, Type*>, 4> li; leafInfo(ld->getType(), 0, li);
			Leaves l;
			// Loads of pointers are concrete. Only atomics and rare types need care.
			for(auto& [off, t] : li) l.push_back(t->isPointerTy() ? (Value*) Null : leafLoad(A, ld->getPointerOperand(), off, t));
			sh[ld] = l;
			return;
		}
		if(auto* st = dyn_cast<StoreInst>(I)) {
			IRBuilder<> A(I->getNextNode());
			Value* v = st->getValueOperand();
			SmallVector<std::pair<uint64_t, Type*>, 4> li; leafInfo(v->getType(), 0, li);
			auto l = shadow(v);
			if(allNull(l)) {
				A.CreateCall(rt("__sym_clear", Void, Ptr, I64), { st->getPointerOperand(), c64(DL.getTypeStoreSize(v->getType())) });
				return;
			}
			for(unsigned k = 0; k < li.size(); ++k) {
				Value* a = li[k].first ? A.CreateConstInBoundsGEP1_64(I8, st->getPointerOperand(), li[k].first) : st->getPointerOperand();
				A.CreateCall(rt("__sym_store", Void, Ptr, I64, Ptr), { a, c64(DL.getTypeStoreSize(li[k].second)), l[k] });
			}
			return;
		}
		if(auto* bo = dyn_cast<BinaryOperator>(I)) {
			auto *a = bo->getOperand(0), *b = bo->getOperand(1);
			auto la = shadow(a), lb = shadow(b);
			if(allNull(la) && allNull(lb)) return;
			Type* t = bo->getType();
			if(okInt(t))
				sh[I] = { B.CreateCall(rt("__sym_bin", Ptr, I32, I32, Ptr, I64, Ptr, I64), { c32(bo->getOpcode()), c32(t->getIntegerBitWidth()), la[0], bits(B, a), lb[0], bits(B, b) }) };
			else if(t->isDoubleTy()) {
				sh[I] = { B.CreateCall(rt("__sym_fbin", Ptr, I32, Ptr, I64, Ptr, I64), { c32(bo->getOpcode()), la[0], bits(B, a), lb[0], bits(B, b) }) };
			} else unsup(B, I);
			return;
		}
		if(auto* uo = dyn_cast<UnaryOperator>(I)) {
			auto* a = uo->getOperand(0);
			auto la = shadow(a);
			if(allNull(la)) return;
			if(uo->getType()->isDoubleTy())
				sh[I] = { B.CreateCall(rt("__sym_fneg", Ptr, Ptr, I64), { la[0], bits(B, a) }) };
			else unsup(B, I);
			return;
		}
		if(auto* ic = dyn_cast<ICmpInst>(I)) {
			auto *a = ic->getOperand(0), *b = ic->getOperand(1);
			if(!okInt(a->getType())) { if(!a->getType()->isPointerTy()) unsup(B, I); return; }
			auto la = shadow(a), lb = shadow(b);
			if(allNull(la) && allNull(lb)) return;
			sh[I] = { B.CreateCall(rt("__sym_icmp", Ptr, I32, I32, Ptr, I64, Ptr, I64), { c32(ic->getPredicate()), c32(a->getType()->getIntegerBitWidth()), la[0], bits(B, a), lb[0], bits(B, b) }) };
			return;
		}
		if(auto* fc = dyn_cast<FCmpInst>(I)) {
			auto *a = fc->getOperand(0), *b = fc->getOperand(1);
			if(!a->getType()->isDoubleTy()) { unsup(B, I); return; }
			auto la = shadow(a), lb = shadow(b);
			if(allNull(la) && allNull(lb)) return;
			sh[I] = { B.CreateCall(rt("__sym_fcmp", Ptr, I32, Ptr, I64, Ptr, I64), { c32(fc->getPredicate()), la[0], bits(B, a), lb[0], bits(B, b) }) };
			return;
		}
		if(auto* ci = dyn_cast<CastInst>(I)) {
			auto* a = ci->getOperand(0);
			auto la = shadow(a);
			if(allNull(la)) return;
			Type *s = a->getType(), *d = ci->getType();
			bool ok = okScalar(s) && okScalar(d);
			if(!ok) { unsup(B, I); return; }
			sh[I] = { B.CreateCall(rt("__sym_cast", Ptr, I32, I32, I32, I32, I32, Ptr, I64), {
				c32(ci->getOpcode()), c32(s->isDoubleTy()), c32(s->isDoubleTy() ? 64 : s->getIntegerBitWidth()),
				c32(d->isDoubleTy()), c32(d->isDoubleTy() ? 64 : d->getIntegerBitWidth()), la[0], bits(B, a) }) };
			return;
		}
		if(auto* se = dyn_cast<SelectInst>(I)) {
			auto *c = se->getCondition(), *a = se->getTrueValue(), *b = se->getFalseValue();
			auto la = shadow(a), lb = shadow(b);
			if(!c->getType()->isIntegerTy(1)) { unsup(B, I); return; }
			auto lc = shadow(c);
			if(allNull(lc) && allNull(la) && allNull(lb)) return;
			if(okScalar(se->getType())) {
				sh[I] = { B.CreateCall(rt("__sym_select", Ptr, I32, I32, Ptr, I1, Ptr, I64, Ptr, I64), {
					c32(se->getType()->isDoubleTy()), c32(se->getType()->isDoubleTy() ? 64 : se->getType()->getIntegerBitWidth()),
					lc[0], c, la[0], bits(B, a), lb[0], bits(B, b) }) };
			} else {
				if(!allNull(lc)) B.CreateCall(rt("__sym_branch", Void, Ptr, I1), { lc[0], c });
				Leaves l;
				for(unsigned k = 0; k < la.size(); ++k)
					l.push_back(isa<ConstantPointerNull>(la[k]) && isa<ConstantPointerNull>(lb[k]) ? (Value*) Null : B.CreateSelect(c, la[k], lb[k]));
				sh[I] = l;
			}
			return;
		}
		if(auto* ge = dyn_cast<GetElementPtrInst>(I)) {
			for(auto& ix : ge->indices()) {
				auto l = shadow(ix);
				if(!allNull(l)) concretize(B, l[0], ix);
			}
			return;
		}
		if(auto* ev = dyn_cast<ExtractValueInst>(I)) {
			auto l = shadow(ev->getAggregateOperand());
			unsigned off = leafOffset(ev->getAggregateOperand()->getType(), ev->getIndices());
			unsigned n = nleaves(ev->getType());
			sh[I] = Leaves(l.begin() + off, l.begin() + off + n);
			return;
		}
		if(auto* iv = dyn_cast<InsertValueInst>(I)) {
			auto l = shadow(iv->getAggregateOperand());
			unsigned off = leafOffset(iv->getType(), iv->getIndices());
			auto v = shadow(iv->getInsertedValueOperand());
			for(unsigned k = 0; k < v.size(); ++k) l[off + k] = v[k];
			sh[I] = l;
			return;
		}
		if(auto* ee = dyn_cast<ExtractElementInst>(I)) {
			if(auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) sh[I] = { shadow(ee->getVectorOperand())[ci->getZExtValue()] };
			else unsup(B, I);
			return;
		}
		if(auto* ie = dyn_cast<InsertElementInst>(I)) {
			if(auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) {
				auto l = shadow(ie->getOperand(0)); l[ci->getZExtValue()] = shadow(ie->getOperand(1))[0]; sh[I] = l;
			} else unsup(B, I);
			return;
		}
		if(auto* sv = dyn_cast<ShuffleVectorInst>(I)) {
			auto a = shadow(sv->getOperand(0)), b = shadow(sv->getOperand(1));
			Leaves l;
			for(int m : sv->getShuffleMask()) l.push_back(m < 0 ? (Value*) Null : (unsigned) m < a.size() ? a[m] : b[m - a.size()]);
			sh[I] = l;
			return;
		}
		if(auto* fr = dyn_cast<FreezeInst>(I)) { sh[I] = shadow(fr->getOperand(0)); return; }
		if(auto* br = dyn_cast<BranchInst>(I)) {
			if(!br->isConditional()) return;
			auto l = shadow(br->getCondition());
			if(allNull(l)) return;
			B.CreateCall(rt("__sym_branch", Void, Ptr, I1), { l[0], br->getCondition() });
			return;
		}
		if(auto* sw = dyn_cast<SwitchInst>(I)) {
			auto* v = sw->getCondition();
			auto l = shadow(v);
			if(allNull(l)) return;
			if(!okInt(v->getType())) { unsup(B, I); return; }
			SmallVector<Constant*, 8> cs;
			for(auto& c : sw->cases()) cs.push_back(c64(c.getCaseValue()->getZExtValue()));
			auto* at = ArrayType::get(I64, cs.size());
			auto* g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), ".symcases");
			B.CreateCall(rt("__sym_switch", Void, Ptr, I64, I32, Ptr), { l[0], bits(B, v), c32(cs.size()), g });
			return;
		}
		if(auto* re = dyn_cast<ReturnInst>(I)) {
			if(Value* v = re->getReturnValue()) {
				if(auto* ci = I->getPrevNode(); ci && isa<CallInst>(ci) && cast<CallInst>(ci)->isMustTailCall()) return;
				auto l = shadow(v);
				for(unsigned k = 0; k < l.size() && k < MAXL; ++k) B.CreateStore(l[k], slot(B, GRet, k));
			}
			return;
		}
		if(auto* al = dyn_cast<AllocaInst>(I)) {
			if(auto* n = al->getArraySize(); !isa<Constant>(n)) { auto l = shadow(n); if(!allNull(l)) concretize(B, l[0], n); }
			IRBuilder<> A(I->getNextNode());
			if(isa<ConstantInt>(al->getArraySize())) {
				if(auto sz = al->getAllocationSize(DL)) {
					// static allocas may not be first: keep the block of allocas together
					Instruction* p = I; while(isa<AllocaInst>(p)) p = p->getNextNode();
					IRBuilder<> A2(p);
					A2.CreateCall(rt("__sym_clear", Void, Ptr, I64), { al, c64(sz->getFixedValue()) });
				}
			}
			return;
		}
		if(auto* rmw = dyn_cast<AtomicRMWInst>(I)) {
			concretizeAll(B, rmw->getValOperand());
			IRBuilder<> A(I->getNextNode());
			A.CreateCall(rt("__sym_clear", Void, Ptr, I64), { rmw->getPointerOperand(), c64(DL.getTypeStoreSize(rmw->getType())) });
			return;
		}
		if(auto* cx = dyn_cast<AtomicCmpXchgInst>(I)) {
			concretizeAll(B, cx->getCompareOperand()); concretizeAll(B, cx->getNewValOperand());
			IRBuilder<> A(I->getNextNode());
			A.CreateCall(rt("__sym_clear", Void, Ptr, I64), { cx->getPointerOperand(), c64(DL.getTypeStoreSize(cx->getNewValOperand()->getType())) });
			return;
		}
		// landingpad, resume, unreachable, fence, va_arg...: concrete.
	}
	unsigned leafOffset(Type* t, ArrayRef<unsigned> idx) {
		unsigned off = 0;
		for(unsigned i : idx) {
			if(auto* s = dyn_cast<StructType>(t)) {
				for(unsigned k = 0; k < i; ++k) off += nleaves(s->getElementType(k));
				t = s->getElementType(i);
			} else {
				auto* a = cast<ArrayType>(t);
				off += i * nleaves(a->getElementType());
				t = a->getElementType();
			}
		}
		return off;
	}
	void unsup(IRBuilder<>& B, Instruction* I) {
		bool any = false;
		for(auto& op : I->operands()) if(!isa<BasicBlock>(op) && !op->getType()->isMetadataTy() && !allNull(shadow(op))) any = true;
		if(!any) return;
		for(auto& op : I->operands()) if(!isa<BasicBlock>(op) && !op->getType()->isMetadataTy()) concretizeAll(B, op);
	}

	bool run() {
		std::vector<Function*> fs;
		for(auto& F : M) if(!F.isDeclaration() && !skipName(F.getName()) && !F.hasFnAttribute("nosym") && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
		// { char const* name; uint64_t index }
		auto* dt = StructType::get(Ptr, I64);
		for(auto* F : fs) {
			auto* init = ConstantStruct::get(dt, { str(F->getName()), c64(0) });
			auto* desc = new GlobalVariable(M, dt, false, GlobalValue::PrivateLinkage, init, ".symfn");
			desc->setSection("symfn");
			desc->setAlignment(Align(8));
			if(auto* cmd = F->getComdat()) desc->setComdat(cmd);
			// memory attributes no longer hold once instrumented
			F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::WillReturn);
			F->removeFnAttr(Attribute::Speculatable);
			F->removeFnAttr(Attribute::AllocSize);
			for(auto& a : F->args()) { a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::WriteOnly); }
			doFunction(*F, desc);
		}
		// Call-site memory attributes too.
		for(auto* F : fs) for(auto& I : instructions(*F)) if(auto* cb = dyn_cast<CallBase>(&I)) {
			if(isa<IntrinsicInst>(cb)) continue;
			cb->removeFnAttr(Attribute::Memory);
			if(auto* ci = dyn_cast<CallInst>(cb); ci && !ci->isMustTailCall()) ci->setTailCall(false);
			for(unsigned i = 0; i < cb->arg_size(); ++i) { cb->removeParamAttr(i, Attribute::ReadOnly); cb->removeParamAttr(i, Attribute::ReadNone); cb->removeParamAttr(i, Attribute::WriteOnly); }
		}
		for(auto& F : M) if(F.isDeclaration() && !F.isIntrinsic()) { F.removeFnAttr(Attribute::Memory); }
		return true;
	}
};

struct SymPass : PassInfoMixin<SymPass> {
	PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
		Sym(M).run();
		return PreservedAnalyses::none();
	}
	static bool isRequired() { return true; }
};

// Inline library functions that are redirected must still be calls then.
struct KeepPass : PassInfoMixin<KeepPass> {
	PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
		if(auto* F = M.getFunction("_ZNSt7__cxx119to_stringEd")) if(!F->isDeclaration()) { F->deleteBody(); F->setComdat(nullptr); F->setLinkage(GlobalValue::ExternalLinkage); }
		return PreservedAnalyses::none();
	}
	static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
	return { LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder& PB) {
		PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(KeepPass()); });
		PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
	} };
}
