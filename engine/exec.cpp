// instruction interpreter
#include "exec.h"
#include <algorithm>
#include <cstdio>
#include <sstream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/Demangle/Demangle.h>

using namespace llvm;

namespace sym
{
	// ------------------------------------------------------------------ scalar ops
	static E overshift(E r, E b, E poison)
	{
		E ok = mkUlt(b, mkConst(b->w, b->w));
		return mkIte(ok, r, poison);
	}
	E Executor::binop(State& s, unsigned op, E a, E b, const Instruction* I)
	{
		(void)I;
		auto shiftOk = [&] { return known(b).getMaxValue().ult(a->w); };
		switch (op)
		{
			case Instruction::Add: return mkAdd(a, b);
			case Instruction::Sub: return mkSub(a, b);
			case Instruction::Mul: return mkMul(a, b);
			case Instruction::UDiv:
			case Instruction::SDiv:
			case Instruction::URem:
			case Instruction::SRem:
			{
				E nz = mkNe(b, mkConst(b->w, 0));
				checkProp(s, nz, "ub", "division by zero");
				if (op == Instruction::SDiv || op == Instruction::SRem)
				{
					E ov = mkAnd(mkEq(a, mkConst(APInt::getSignedMinValue(a->w))), mkEq(b, mkConst(APInt::getAllOnes(b->w))));
					checkProp(s, mkNot(ov), "ub", "signed division overflow");
				}
				return op == Instruction::UDiv	 ? mkUDiv(a, b)
					 : op == Instruction::SDiv ? mkSDiv(a, b)
					 : op == Instruction::URem ? mkURem(a, b)
											   : mkSRem(a, b);
			}
			case Instruction::And: return mkAnd(a, b);
			case Instruction::Or: return mkOr(a, b);
			case Instruction::Xor: return mkXor(a, b);
			case Instruction::Shl: return shiftOk() ? mkShl(a, b) : overshift(mkShl(a, b), b, fresh(s, a->w, "poison"));
			case Instruction::LShr: return shiftOk() ? mkLShr(a, b) : overshift(mkLShr(a, b), b, fresh(s, a->w, "poison"));
			case Instruction::AShr: return shiftOk() ? mkAShr(a, b) : overshift(mkAShr(a, b), b, fresh(s, a->w, "poison"));
			case Instruction::FAdd: return mkFAdd(a, b);
			case Instruction::FSub: return mkFSub(a, b);
			case Instruction::FMul: return mkFMul(a, b);
			case Instruction::FDiv: return mkFDiv(a, b);
			case Instruction::FRem: return mkFRem(a, b);
			default: break;
		}
		fprintf(stderr, "binop %u\n", op);
		abort();
	}
	E Executor::icmp(CmpInst::Predicate p, E a, E b)
	{
		switch (p)
		{
			case CmpInst::ICMP_EQ: return mkEq(a, b);
			case CmpInst::ICMP_NE: return mkNe(a, b);
			case CmpInst::ICMP_ULT: return mkUlt(a, b);
			case CmpInst::ICMP_ULE: return mkUle(a, b);
			case CmpInst::ICMP_UGT: return mkUlt(b, a);
			case CmpInst::ICMP_UGE: return mkUle(b, a);
			case CmpInst::ICMP_SLT: return mkSlt(a, b);
			case CmpInst::ICMP_SLE: return mkSle(a, b);
			case CmpInst::ICMP_SGT: return mkSlt(b, a);
			case CmpInst::ICMP_SGE: return mkSle(b, a);
			default: abort();
		}
	}
	E Executor::fcmp(CmpInst::Predicate p, E a, E b)
	{
		auto uno = [&] { return mkOr(mkFIsNaN(a), mkFIsNaN(b)); };
		switch (p)
		{
			case CmpInst::FCMP_FALSE: return mkBool(false);
			case CmpInst::FCMP_TRUE: return mkBool(true);
			case CmpInst::FCMP_OEQ: return mkFOEq(a, b);
			case CmpInst::FCMP_OGT: return mkFOLt(b, a);
			case CmpInst::FCMP_OGE: return mkFOLe(b, a);
			case CmpInst::FCMP_OLT: return mkFOLt(a, b);
			case CmpInst::FCMP_OLE: return mkFOLe(a, b);
			case CmpInst::FCMP_ONE: return mkOr(mkFOLt(a, b), mkFOLt(b, a));
			case CmpInst::FCMP_ORD: return mkNot(uno());
			case CmpInst::FCMP_UNO: return uno();
			case CmpInst::FCMP_UEQ: return mkNot(mkOr(mkFOLt(a, b), mkFOLt(b, a)));
			case CmpInst::FCMP_UGT: return mkNot(mkFOLe(a, b));
			case CmpInst::FCMP_UGE: return mkNot(mkFOLt(a, b));
			case CmpInst::FCMP_ULT: return mkNot(mkFOLe(b, a));
			case CmpInst::FCMP_ULE: return mkNot(mkFOLt(b, a));
			case CmpInst::FCMP_UNE: return mkNot(mkFOEq(a, b));
			default: abort();
		}
	}
	E Executor::fminmax(E a, E b, bool isMin, bool propagateNaN)
	{
		E lt = isMin ? mkFOLt(a, b) : mkFOLt(b, a);
		E r	 = mkIte(lt, a, b);
		if (propagateNaN)
		{
			// -0 < +0 and NaN propagates
			E z	 = mkFOEq(a, b);
			E s	 = isMin ? mkOr(a, b) : mkAnd(a, b);
			r	 = mkIte(z, s, r);
			r	 = mkIte(mkFIsNaN(a), a, mkIte(mkFIsNaN(b), b, r));
		}
		else
			r = mkIte(mkFIsNaN(a), b, mkIte(mkFIsNaN(b), a, r));
		return r;
	}

	E Executor::toRaw(const Val& v, Type* t)
	{
		(void)t;
		E r = nullptr;
		for (E e : v)
			r = r ? mkConcat(e, r) : e;
		return r;
	}
	Val Executor::fromRaw(E raw, Type* t)
	{
		Val v;
		uint32_t pos = 0;
		auto& T		 = ti(t);
		for (auto& l : T.leaves)
		{
			v.push_back(mkExtract(raw, pos, l.w));
			pos += l.w;
		}
		return v;
	}
	Val Executor::castOp(State& s, unsigned op, const Val& v, Type* from, Type* to)
	{
		if (op == Instruction::BitCast)
		{
			auto &a = ti(from), &b = ti(to);
			if (a.leaves.size() == b.leaves.size())
				return v;
			return fromRaw(toRaw(v, from), to);
		}
		uint32_t w = bits(to);
		Val r;
		for (E e : v)
		{
			switch (op)
			{
				case Instruction::Trunc: r.push_back(mkTrunc(e, w)); break;
				case Instruction::ZExt: r.push_back(mkZExt(e, w)); break;
				case Instruction::SExt: r.push_back(mkSExt(e, w)); break;
				case Instruction::PtrToInt:
				case Instruction::IntToPtr: r.push_back(mkZExtOrTrunc(e, w)); break;
				case Instruction::AddrSpaceCast: r.push_back(e); break;
				case Instruction::FPTrunc:
				case Instruction::FPExt: r.push_back(mkFCvt(e, w)); break;
				case Instruction::SIToFP: r.push_back(mkSIToF(e, w)); break;
				case Instruction::UIToFP: r.push_back(mkUIToF(e, w)); break;
				case Instruction::FPToSI:
				case Instruction::FPToUI:
				{
					bool sg = op == Instruction::FPToSI;
					E x		= sg ? mkFToSI(e, w) : mkFToUI(e, w);
					if (x->k == K::FToSI || x->k == K::FToUI || e->isConst())
					{
						// out of range: unspecified
						const fltSemantics& fs = sem(e->w);
						APFloat lo(fs), hi(fs);
						APInt iv = sg ? APInt::getSignedMinValue(w) : APInt(w, 0);
						APInt hv = APInt::getOneBitSet(w + 2, sg ? w - 1 : w);
						auto s1	 = lo.convertFromAPInt(iv, sg, RoundingMode::NearestTiesToEven);
						auto s2	 = hi.convertFromAPInt(hv, false, RoundingMode::NearestTiesToEven);
						(void)s1;
						bool hiOverflow = hi.isInfinity() || (s2 & APFloat::opOverflow);
						E ok;
						E loE = mkConst(lo.bitcastToAPInt());
						if (sg)
							ok = lo.isInfinity() ? mkFOLt(loE, e) : mkFOLe(loE, e); // values in (lo-1, lo) truncate to lo too, ignored (needs > p bits for wide ints)
						else
							ok = mkFOLt(mkConst(APFloat(fs, "-1").bitcastToAPInt()), e);
						if (!hiOverflow)
							ok = mkAnd(ok, mkFOLt(e, mkConst(hi.bitcastToAPInt())));
						else
							ok = mkAnd(ok, mkFOLt(e, mkConst(APFloat::getInf(fs).bitcastToAPInt())));
						if (sg && !hiOverflow && !lo.isInfinity() && w < e->w)
						{
							// lo - 1 < e
							APFloat lom1 = lo;
							lom1.subtract(APFloat(fs, "1"), RoundingMode::NearestTiesToEven);
							if (lom1.compare(lo) == APFloat::cmpLessThan)
								ok = mkAnd(mkFOLt(mkConst(lom1.bitcastToAPInt()), e), mkFOLt(e, mkConst(hi.bitcastToAPInt())));
						}
						if (!ok->isTrue())
							x = mkIte(ok, x, fresh(s, w, "poison"));
					}
					r.push_back(x);
					break;
				}
				default: fprintf(stderr, "cast %u\n", op); abort();
			}
		}
		return r;
	}

	static E ctlzE(E x, uint32_t outw)
	{
		uint32_t w = x->w;
		if (w == 1)
			return mkZExt(mkNot(x), outw);
		uint32_t lo = 1;
		while (lo * 2 < w)
			lo *= 2;
		uint32_t hi = w - lo;
		E H = mkExtract(x, lo, hi), L = mkExtract(x, 0, lo);
		return mkIte(mkEq(H, mkConst(hi, 0)), mkAdd(ctlzE(L, outw), mkConst(outw, hi)), ctlzE(H, outw));
	}
	static E cttzE(E x, uint32_t outw)
	{
		uint32_t w = x->w;
		if (w == 1)
			return mkZExt(mkNot(x), outw);
		uint32_t lo = 1;
		while (lo * 2 < w)
			lo *= 2;
		E H = mkExtract(x, lo, w - lo), L = mkExtract(x, 0, lo);
		return mkIte(mkEq(L, mkConst(lo, 0)), mkAdd(cttzE(H, outw), mkConst(outw, lo)), cttzE(L, outw));
	}
	static E popE(E x)
	{
		// returns minimal width
		if (x->w == 1)
			return mkZExt(x, 2);
		uint32_t h = x->w / 2;
		E a = popE(mkExtract(x, h, x->w - h)), b = popE(mkExtract(x, 0, h));
		uint32_t w = std::max(a->w, b->w) + 1;
		return mkAdd(mkZExt(a, w), mkZExt(b, w));
	}

	// ------------------------------------------------------------------ bulk memory
	Executor::R Executor::memCopy(State& s, E dst, E src, E len, bool move)
	{
		(void)move;
		uint64_t n = concretize(s, len, "memcpy length").getLimitedValue();
		if (n == 0)
			return R::Next;
		Res2 a = resolve(s, src, n, false);
		Res2 b = resolve(s, dst, n, true);
		if (a.off->isConst() && b.off->isConst())
		{
			uint64_t so = a.off->u64(), d0 = b.off->u64();
			if (s.th.size() > 1)
			{
				checkRace(s, a.o->base + so, n, false);
				checkRace(s, b.o->base + d0, n, true);
			}
			std::vector<MByte> tmp(a.o->d.begin() + (long)so, a.o->d.begin() + (long)(so + n));
			uint64_t base = b.o->base;
			a.o = b.o = nullptr;
			ObjP t	  = find(s, base);
			ObjP w	  = writable(s, t);
			std::copy(tmp.begin(), tmp.end(), w->d.begin() + (long)d0);
			return R::Next;
		}
		if (n <= 64)
		{
			std::vector<E> tmp;
			for (uint64_t i = 0; i < n; i++)
				tmp.push_back(loadN(s, mkAdd(src, mkConst(64, i)), 1));
			for (uint64_t i = 0; i < n; i++)
				storeN(s, mkAdd(dst, mkConst(64, i)), tmp[i]);
			return R::Next;
		}
		if (!a.off->isConst())
			concretize(s, src, "memcpy source");
		if (!b.off->isConst())
			concretize(s, dst, "memcpy destination");
		E s2 = a.off->isConst() ? src : mkConst(concretize(s, src, "")), d2 = b.off->isConst() ? dst : mkConst(concretize(s, dst, ""));
		return memCopy(s, d2, s2, mkConst(64, n), move);
	}
	Executor::R Executor::memSet(State& s, E dst, E val, E len)
	{
		uint64_t n = concretize(s, len, "memset length").getLimitedValue();
		if (n == 0)
			return R::Next;
		val	   = mkTrunc(val, 8);
		Res2 b = resolve(s, dst, n, true);
		if (b.off->isConst())
		{
			if (s.th.size() > 1)
				checkRace(s, b.o->base + b.off->u64(), n, true);
			uint64_t base = b.o->base;
			b.o			  = nullptr;
			ObjP t		  = find(s, base);
			ObjP w		  = writable(s, t);
			for (uint64_t i = 0; i < n; i++)
				w->d[b.off->u64() + i] = { val, 0 };
			return R::Next;
		}
		for (uint64_t i = 0; i < n; i++)
			storeN(s, mkAdd(dst, mkConst(64, i)), val);
		return R::Next;
	}
	E Executor::memCmp(State& s, E a, E b, uint64_t n)
	{
		E r = mkConst(32, 0);
		std::vector<std::pair<E, E>> v;
		for (uint64_t i = 0; i < n; i++)
			v.emplace_back(loadN(s, mkAdd(a, mkConst(64, i)), 1), loadN(s, mkAdd(b, mkConst(64, i)), 1));
		for (size_t i = n; i-- > 0;)
			r = mkIte(mkEq(v[i].first, v[i].second), r, mkIte(mkUlt(v[i].first, v[i].second), mkConst(32, 0xffffffffu), mkConst(32, 1)));
		return r;
	}
	std::string Executor::readCStr(State& s, E p)
	{
		std::string r;
		if (!p->isConst())
			return "?";
		uint64_t a = p->u64();
		for (int i = 0; i < 400; i++)
		{
			ObjP o = find(s, a + (uint64_t)i);
			if (!o || a + (uint64_t)i >= o->base + o->size)
				break;
			E c = readBytes(s, *o, a + (uint64_t)i - o->base, 1);
			if (!c->isConst() || c->isZero())
				break;
			r.push_back((char)c->u64());
		}
		return r;
	}

	// ------------------------------------------------------------------ control flow
	void Executor::pushFrame(State& s, Function* f, std::vector<Val> args, CallBase* site)
	{
		Thread& t = s.th[(size_t)s.cur];
		if (t.fr.size() > 400)
		{
			incompleteAt(s, "call depth exceeded");
			throw Killed{};
		}
		t.fr.emplace_back();
		Frame& n = t.fr.back();
		n.f		 = f;
		n.info	 = &fi(f);
		n.regs.resize(n.info->n);
		n.site = site;
		size_t i = 0;
		for (auto& a : f->args())
		{
			Val v = args[i];
			if (a.hasByValAttr())
			{
				Type* bt   = a.getParamByValType();
				uint64_t sz = DL.getTypeAllocSize(bt);
				uint64_t al = std::max<uint64_t>(a.getParamAlign() ? a.getParamAlign()->value() : 1, 8);
				uint64_t addr = (s.stackNext + GUARD_() + al - 1) / al * al;
				s.stackNext	  = addr + sz;
				auto o		  = std::make_shared<Obj>();
				o->base		  = addr;
				o->size		  = sz;
				o->kind		  = sym::OK::Stack;
				o->name		  = "byval argument";
				o->d.resize(sz);
				s.mem[addr] = o;
				o			= nullptr;
				n.allocas.push_back(addr);
				E src = v[0];
				// copy raw bytes
				Res2 r = resolve(s, src, sz, false);
				if (!r.off->isConst())
				{
					incompleteAt(s, "byval copy from symbolic address");
					throw Killed{};
				}
				std::vector<MByte> tmp(r.o->d.begin() + (long)r.off->u64(), r.o->d.begin() + (long)(r.off->u64() + sz));
				s.mem[addr]->d = tmp;
				v			   = Val{ mkConst(64, addr) };
			}
			n.regs[n.info->idx.lookup(&a)] = std::move(v);
			i++;
		}
		for (; i < args.size(); i++)
			n.varargs.push_back(args[i]);
		n.bb = &f->getEntryBlock();
		n.it = n.bb->begin();
		if (!f->getName().starts_with("harness"))
			; // coverage is tracked per instruction
	}

	void Executor::popFrameObjects(State& s, Frame& f)
	{
		for (uint64_t a : f.allocas)
			s.mem.erase(a);
	}

	void Executor::transfer(State& s, BasicBlock* to)
	{
		Frame& f = top(s);
		f.prev	 = f.bb;
		f.bb	 = to;
		f.it	 = to->begin();
		// PHIs in parallel
		std::vector<std::pair<uint32_t, Val>> vals;
		while (auto* phi = dyn_cast<PHINode>(&*f.it))
		{
			vals.emplace_back(f.info->idx.lookup(phi), get(s, phi->getIncomingValueForBlock(f.prev)));
			cover(phi);
			st.instrs++;
			++f.it;
		}
		for (auto& v : vals)
			f.regs[v.first] = std::move(v.second);
	}

	Executor::R Executor::branchOn(State& s, Instruction* I, E cond, BasicBlock* t, BasicBlock* f)
	{
		if (cond->isConst() || t == f)
		{
			transfer(s, t == f || cond->isOne() ? t : f);
			return R::Stay;
		}
		if (isKnownTrue(s, cond))
		{
			transfer(s, t);
			return R::Stay;
		}
		E nc = mkNot(cond);
		if (isKnownTrue(s, nc))
		{
			transfer(s, f);
			return R::Stay;
		}
		bool mv = eval(cond, *s.model).isOne();
		E mine = mv ? cond : nc, other = mv ? nc : cond;
		Model m;
		Res r = feasible(s, other, m);
		if (r == Res::Unsat)
		{
			transfer(s, mv ? t : f);
			return R::Stay;
		}
		BasicBlock* stop = nullptr;
		bool mg			 = O.merge && s.th.size() == 1 && mergeRegion(s, I, stop);
		if (mg)
		{
			auto g		= std::make_shared<MergeGroup>();
			g->stop		= stop;
			g->depth	= s.th[0].fr.size();
			g->pending	= 1;
			g->pcPrefix = s.pc.size();
			s.merges.push_back(g);
		}
		StateP n = clone(s);
		if (r == Res::Sat)
			n->model = std::make_shared<Model>(std::move(m));
		addPC(*n, other);
		addPC(s, mine);
		transfer(*n, mv ? f : t);
		transfer(s, mv ? t : f);
		pushState(std::move(n));
		return R::Stay;
	}

	Executor::R Executor::finishCall(State& s, CallBase* cb, const Val& v)
	{
		if (!cb->getType()->isVoidTy())
			setReg(s, cb, v);
		if (auto* inv = dyn_cast<InvokeInst>(cb))
		{
			transfer(s, inv->getNormalDest());
			return R::Stay;
		}
		return R::Next;
	}

	Executor::R Executor::doReturn(State& s, std::optional<Val> v)
	{
		Thread& t	   = s.th[(size_t)s.cur];
		CallBase* site = t.fr.back().site;
		// leaving a frame in which a merge was pending
		while (!s.merges.empty() && s.merges.back()->depth >= t.fr.size() && s.th.size() == 1)
		{
			auto g = s.merges.back();
			s.merges.pop_back();
			g->pending--;
			if (g->pending > 0 && (int)g->arrived.size() == g->pending)
				releaseGroup(g);
		}
		popFrameObjects(s, t.fr.back());
		t.fr.pop_back();
		if (t.fr.empty())
		{
			if (s.cur == 0)
			{
				endPath(s);
				return R::Dead;
			}
			threadDone(s);
			return R::Stay;
		}
		if (!site)
			return R::Stay; // stacked start frames of a thread / destructor calls: continue where the frame below is
		Frame& f = t.fr.back();
		(void)f;
		if (!site->getType()->isVoidTy() && v)
			setReg(s, site, *v);
		if (auto* inv = dyn_cast<InvokeInst>(site))
		{
			transfer(s, inv->getNormalDest());
			return R::Stay;
		}
		++top(s).it;
		return R::Stay;
	}

	uint64_t Executor::typeInfoMatch(State& s, uint64_t thrown, uint64_t want)
	{
		if (thrown == want)
			return 1;
		auto it = lazyGlobals.find(thrown);
		if (it == lazyGlobals.end() || !it->second->hasInitializer())
		{
			// external type_info (std exceptions): treat std::exception as base of everything named std::*
			auto iw = lazyGlobals.find(want);
			if (it != lazyGlobals.end() && iw != lazyGlobals.end() && iw->second->getName() == "_ZTISt9exception"
				&& it->second->getName().starts_with("_ZTISt"))
				return 1;
			return 0;
		}
		auto* init = it->second->getInitializer();
		for (unsigned i = 1; i < init->getNumOperands(); i++)
			if (auto* g = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts()))
				if (g->getName().starts_with("_ZTI") && typeInfoMatch(s, gaddr[g], want))
					return 1;
		return 0;
	}

	Executor::R Executor::unwind(State& s, uint64_t ex)
	{
		Thread& t	   = s.th[(size_t)s.cur];
		uint64_t tinfo = s.exc[ex].tinfo;
		// unwinding may leave merge regions
		while (true)
		{
			Frame& f	= t.fr.back();
			auto* inv	= dyn_cast<InvokeInst>(&*f.it);
			if (inv)
			{
				LandingPadInst* lp = inv->getLandingPadInst();
				bool enter		   = lp->isCleanup();
				uint64_t sel	   = 0;
				for (unsigned i = 0; i < lp->getNumClauses(); i++)
				{
					Constant* c = lp->getClause(i);
					if (!lp->isCatch(i))
					{
						// filter (noexcept specification): empty filter matches everything
						if (c->getType()->isArrayTy() && c->getType()->getArrayNumElements() == 0)
						{
							enter = true;
							sel	  = (uint64_t)-1;
							break;
						}
						continue;
					}
					E ce	   = constScalar(c->stripPointerCasts());
					uint64_t w = ce->u64();
					if (w == 0 || typeInfoMatch(s, tinfo, w))
					{
						enter = true;
						sel	  = w & 0x7fffffff;
						if (w == 0)
							sel = 1;
						break;
					}
				}
				if (enter)
				{
					while (!s.merges.empty() && (s.merges.back()->depth > t.fr.size()))
						leaveGroup(s, false);
					transfer(s, inv->getUnwindDest());
					Frame& f2 = top(s);
					// landingpad is the first non-phi
					Instruction* li = &*f2.it;
					setReg(s, li, Val{ mkConst(64, ex), mkConst(32, sel) });
					++f2.it;
					return R::Stay;
				}
			}
			if (f.f->doesNotThrow())
			{
				violation(s, "terminate", "exception escapes a noexcept function");
				throw Killed{};
			}
			popFrameObjects(s, f);
			t.fr.pop_back();
			while (!s.merges.empty() && s.merges.back()->depth > t.fr.size())
				leaveGroup(s, false);
			if (t.fr.empty())
			{
				// recreate an empty report location
				Violation v;
				v.kind = "exception";
				v.msg  = "uncaught exception leaves the entry point";
				for (auto& in : s.inputs)
					v.inputs.emplace_back(in.name, eval(in.e, *s.model));
				v.sched = s.sched;
				if (violKeys.insert(v.kind).second)
					violations.push_back(v);
				throw Killed{};
			}
		}
	}

	void Executor::endPath(State& s)
	{
		st.paths++;
		if (!s.allowLeaks)
		{
			for (auto& kv : s.mem)
				if (kv.second->kind == sym::OK::Heap && kv.second->alloc < 3)
				{
					// re-create a frame-less report
					Violation v;
					v.kind = "leak";
					v.msg  = "heap block of " + std::to_string(kv.second->size) + " byte(s) never released (" + kv.second->name + ")";
					for (auto& in : s.inputs)
						v.inputs.emplace_back(in.name, eval(in.e, *s.model));
					v.sched = s.sched;
					if (violKeys.insert(v.kind + v.msg).second)
					{
						violations.push_back(v);
						if (violations.size() >= O.maxViolations)
							stopAll = true;
					}
					break;
				}
		}
		bool take = samples.size() < O.maxSamples;
		if (!take && (st.paths & (st.paths - 1)) == 0 && !samples.empty())
		{
			samples.erase(samples.begin() + (long)(st.paths % samples.size()));
			take = true;
		}
		if (take)
		{
			PathSample ps;
			for (auto& in : s.inputs)
				ps.inputs.emplace_back(in.name, eval(in.e, *s.model));
			for (auto& o : s.observed)
				ps.observed.emplace_back(o.first, eval(o.second, *s.model));
			samples.push_back(std::move(ps));
		}
	}

	// ------------------------------------------------------------------ main loop
	void Executor::run()
	{
		t0			= nowSec();
		Function* F = M.getFunction(O.entry);
		if (!F || F->isDeclaration())
		{
			incomplete["entry function not found: " + O.entry]++;
			return;
		}
		auto s0		  = std::make_unique<State>();
		s0->id		  = nextStateId++;
		s0->model	  = std::make_shared<Model>();
		s0->heapNext  = 0x500000000000ull;
		s0->stackNext = 0x7f0000000000ull;
		s0->th.emplace_back();
		s0->th[0].vc.inc(0);
		pushFrame(*s0, F, {}, nullptr);
		s0->th[0].fr.back().site = nullptr;
		// global constructors run first (stacked above the entry frame, in reverse order)
		if (auto* gc = M.getGlobalVariable("llvm.global_ctors"))
			if (gc->hasInitializer())
				if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
				{
					std::vector<std::pair<uint64_t, Function*>> cs;
					for (auto& op : arr->operands())
					{
						auto* st = cast<ConstantStruct>(op);
						auto* cf = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
						if (cf && !cf->isDeclaration())
							cs.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cf);
					}
					std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
					for (auto it = cs.rbegin(); it != cs.rend(); ++it)
					{
						if (it->second->getName().contains("iostream"))
							continue;
						pushFrame(*s0, it->second, {}, nullptr);
					}
				}
		pushState(std::move(s0));
		while (!work.empty() && !stopAll)
		{
			if (nowSec() - t0 > O.budget)
			{
				incomplete["time budget exhausted with " + std::to_string(work.size()) + " pending path(s)"]++;
				break;
			}
			if (st.paths > O.maxPaths)
			{
				incomplete["path budget exhausted"]++;
				break;
			}
			StateP s = std::move(work.back());
			work.pop_back();
			runState(std::move(s));
		}
		if (!stopAll && work.empty())
			; // exhaustive within the bounds
		wall = nowSec() - t0;
	}

	void Executor::runState(StateP sp)
	{
		State& s = *sp;
		uint64_t tick = 0;
		try
		{
			while (true)
			{
				Frame& f = top(s);
				// reached a merge point?
				if (!s.merges.empty() && s.th.size() == 1 && s.merges.back()->depth == s.th[0].fr.size() && s.merges.back()->stop == f.bb
					&& (f.it == f.bb->begin() || isa<PHINode>(&*std::prev(f.it))))
				{
					arrive(std::move(sp));
					return;
				}
				Instruction* I = &*f.it;
				st.instrs++;
				s.steps++;
				if ((++tick & 0xfff) == 0)
				{
					if (nowSec() - t0 > O.budget)
					{
						incompleteAt(s, "time budget exhausted");
						stopAll = true;
						throw Killed{};
					}
					if (s.steps > O.maxSteps)
					{
						incompleteAt(s, "step budget exhausted (loop bound)");
						throw Killed{};
					}
				}
				cover(I);
				R r = step(s, I);
				if (r == R::Next)
					++top(s).it;
				else if (r == R::Dead)
				{
					leaveGroup(s, true);
					return;
				}
				if (stopAll)
					return;
			}
		}
		catch (Killed&)
		{
			st.killedInfeasible++;
			leaveGroup(s, true);
		}
	}

	static bool isAtomicOp(Instruction* I)
	{
		if (auto* l = dyn_cast<LoadInst>(I))
			return l->isAtomic();
		if (auto* l = dyn_cast<StoreInst>(I))
			return l->isAtomic();
		return isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I);
	}

	Executor::R Executor::step(State& s, Instruction* I)
	{
		if (s.th.size() > 1 && isAtomicOp(I))
		{
			if (visibleOp(s))
				return R::Stay;
			s.schedDone = false;
		}
		unsigned op = I->getOpcode();
		if (auto* bo = dyn_cast<BinaryOperator>(I))
		{
			Val a = get(s, bo->getOperand(0)), b = get(s, bo->getOperand(1)), r;
			for (size_t i = 0; i < a.size(); i++)
				r.push_back(binop(s, op, a[i], b[i], I));
			setReg(s, I, r);
			return R::Next;
		}
		if (isa<CastInst>(I))
		{
			setReg(s, I, castOp(s, op, get(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType()));
			return R::Next;
		}
		switch (op)
		{
			case Instruction::FNeg:
			{
				Val a = get(s, I->getOperand(0)), r;
				for (E e : a)
					r.push_back(mkFNeg(e));
				setReg(s, I, r);
				return R::Next;
			}
			case Instruction::ICmp:
			case Instruction::FCmp:
			{
				auto* c = cast<CmpInst>(I);
				Val a = get(s, c->getOperand(0)), b = get(s, c->getOperand(1)), r;
				for (size_t i = 0; i < a.size(); i++)
					r.push_back(op == Instruction::ICmp ? icmp(c->getPredicate(), a[i], b[i]) : fcmp(c->getPredicate(), a[i], b[i]));
				setReg(s, I, r);
				return R::Next;
			}
			case Instruction::Select:
			{
				Val c = get(s, I->getOperand(0)), a = get(s, I->getOperand(1)), b = get(s, I->getOperand(2)), r;
				for (size_t i = 0; i < a.size(); i++)
					r.push_back(mkIte(c.size() == a.size() ? c[i] : c[0], a[i], b[i]));
				setReg(s, I, r);
				return R::Next;
			}
			case Instruction::Freeze: setReg(s, I, get(s, I->getOperand(0))); return R::Next;
			case Instruction::Alloca:
			{
				auto* ai	= cast<AllocaInst>(I);
				uint64_t n	= concretize(s, get1(s, ai->getArraySize()), "alloca size").getLimitedValue();
				uint64_t sz = n * DL.getTypeAllocSize(ai->getAllocatedType());
				uint64_t al = ai->getAlign().value();
				uint64_t a	= (s.stackNext + GUARD_() + al - 1) / al * al;
				if (a % (al * 2) == 0)
					a += al;
				s.stackNext = a + sz;
				auto o		= std::make_shared<Obj>();
				o->base		= a;
				o->size		= sz;
				o->kind		= sym::OK::Stack;
				o->align	= (uint32_t)al;
				o->name		= "stack " + (ai->hasName() ? ai->getName().str() : std::string("object"));
				o->d.resize(sz);
				s.mem[a] = o;
				top(s).allocas.push_back(a);
				setReg(s, I, Val{ mkConst(64, a) });
				return R::Next;
			}
			case Instruction::Load:
			{
				auto* l = cast<LoadInst>(I);
				E addr	= get1(s, l->getPointerOperand());
				if (addr->isConst() && l->getAlign().value() > 1 && addr->u64() % l->getAlign().value() != 0)
				{
					violation(s, "align", "misaligned load (requires " + std::to_string(l->getAlign().value()) + ")");
					throw Killed{};
				}
				setReg(s, I, loadTy(s, addr, l->getType()));
				if (l->isAtomic() && s.th.size() > 1 && isAcquireOrStronger(l->getOrdering()) && addr->isConst())
					acquire(s, addr->u64());
				return R::Next;
			}
			case Instruction::Store:
			{
				auto* l = cast<StoreInst>(I);
				E addr	= get1(s, l->getPointerOperand());
				if (addr->isConst() && l->getAlign().value() > 1 && addr->u64() % l->getAlign().value() != 0)
				{
					violation(s, "align", "misaligned store (requires " + std::to_string(l->getAlign().value()) + ")");
					throw Killed{};
				}
				Val v = get(s, l->getValueOperand());
				if (l->isAtomic() && s.th.size() > 1 && addr->isConst())
				{
					s.syncClk.erase(addr->u64());
					if (isReleaseOrStronger(l->getOrdering()))
						release(s, addr->u64());
					s.idleYields = 0;
					size_t save	 = s.th.size();
					(void)save;
					// no race recording for the atomic access itself
					Res2 r		  = resolve(s, addr, DL.getTypeStoreSize(l->getValueOperand()->getType()), true);
					uint64_t base = r.o->base;
					r.o			  = nullptr;
					ObjP t		  = find(s, base);
					ObjP w		  = writable(s, t);
					writeBytes(*w, r.off->u64(), mkZExt(v[0], (uint32_t)DL.getTypeStoreSize(l->getValueOperand()->getType()) * 8));
					return R::Next;
				}
				storeTy(s, addr, l->getValueOperand()->getType(), v);
				return R::Next;
			}
			case Instruction::AtomicRMW:
			{
				auto* a	   = cast<AtomicRMWInst>(I);
				E addr	   = get1(s, a->getPointerOperand());
				Type* t	   = a->getValOperand()->getType();
				uint64_t n = DL.getTypeStoreSize(t);
				E v		   = get1(s, a->getValOperand());
				Res2 r	   = resolve(s, addr, n, true);
				if (!r.off->isConst())
				{
					incompleteAt(s, "atomic on symbolic address");
					throw Killed{};
				}
				E old = mkTrunc(readBytes(s, *r.o, r.off->u64(), n), v->w);
				E nw;
				switch (a->getOperation())
				{
					case AtomicRMWInst::Xchg: nw = v; break;
					case AtomicRMWInst::Add: nw = mkAdd(old, v); break;
					case AtomicRMWInst::Sub: nw = mkSub(old, v); break;
					case AtomicRMWInst::And: nw = mkAnd(old, v); break;
					case AtomicRMWInst::Nand: nw = mkNot(mkAnd(old, v)); break;
					case AtomicRMWInst::Or: nw = mkOr(old, v); break;
					case AtomicRMWInst::Xor: nw = mkXor(old, v); break;
					case AtomicRMWInst::Max: nw = mkIte(mkSlt(old, v), v, old); break;
					case AtomicRMWInst::Min: nw = mkIte(mkSlt(v, old), v, old); break;
					case AtomicRMWInst::UMax: nw = mkIte(mkUlt(old, v), v, old); break;
					case AtomicRMWInst::UMin: nw = mkIte(mkUlt(v, old), v, old); break;
					default: incompleteAt(s, "atomicrmw kind"); throw Killed{};
				}
				uint64_t base = r.o->base;
				r.o			  = nullptr;
				ObjP tt		  = find(s, base);
				ObjP w		  = writable(s, tt);
				writeBytes(*w, r.off->u64(), mkZExt(nw, (uint32_t)n * 8));
				if (s.th.size() > 1 && addr->isConst())
				{
					if (isAcquireOrStronger(a->getOrdering()))
						acquire(s, addr->u64());
					if (isReleaseOrStronger(a->getOrdering()))
						release(s, addr->u64());
					if (old != nw)
						s.idleYields = 0;
				}
				setReg(s, I, Val{ old });
				return R::Next;
			}
			case Instruction::AtomicCmpXchg:
			{
				auto* a	   = cast<AtomicCmpXchgInst>(I);
				E addr	   = get1(s, a->getPointerOperand());
				E cmp = get1(s, a->getCompareOperand()), nv = get1(s, a->getNewValOperand());
				uint64_t n = DL.getTypeStoreSize(a->getNewValOperand()->getType());
				Res2 r	   = resolve(s, addr, n, true);
				if (!r.off->isConst())
				{
					incompleteAt(s, "atomic on symbolic address");
					throw Killed{};
				}
				E old  = mkTrunc(readBytes(s, *r.o, r.off->u64(), n), cmp->w);
				bool ok = decide(s, mkEq(old, cmp));
				if (ok)
				{
					uint64_t base = r.o->base;
					r.o			  = nullptr;
					ObjP tt		  = find(s, base);
					ObjP w		  = writable(s, tt);
					writeBytes(*w, r.off->u64(), mkZExt(nv, (uint32_t)n * 8));
					s.idleYields = 0;
				}
				if (s.th.size() > 1 && addr->isConst())
				{
					auto o = ok ? a->getSuccessOrdering() : a->getFailureOrdering();
					if (isAcquireOrStronger(o))
						acquire(s, addr->u64());
					if (ok && isReleaseOrStronger(o))
						release(s, addr->u64());
				}
				setReg(s, I, Val{ old, mkBool(ok) });
				return R::Next;
			}
			case Instruction::Fence: return R::Next;
			case Instruction::GetElementPtr:
			{
				auto* gep = cast<GetElementPtrInst>(I);
				if (gep->getType()->isVectorTy())
				{
					incompleteAt(s, "vector gep");
					throw Killed{};
				}
				E a = get1(s, gep->getPointerOperand());
				APInt coff(64, 0);
				for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi)
				{
					Value* ix = gi.getOperand();
					if (StructType* stt = gi.getStructTypeOrNull())
					{
						coff += DL.getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
						continue;
					}
					uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
					E x			= get1(s, ix);
					x			= x->w < 64 ? mkSExt(x, 64) : mkTrunc(x, 64);
					if (x->isConst())
						coff += *x->c * APInt(64, sz);
					else
						a = mkAdd(a, mkMul(x, mkConst(64, sz)));
				}
				setReg(s, I, Val{ mkAdd(a, mkConst(coff)) });
				return R::Next;
			}
			case Instruction::Br:
			{
				auto* b = cast<BranchInst>(I);
				if (b->isUnconditional())
				{
					transfer(s, b->getSuccessor(0));
					return R::Stay;
				}
				return branchOn(s, I, get1(s, b->getCondition()), b->getSuccessor(0), b->getSuccessor(1));
			}
			case Instruction::Switch:
			{
				auto* sw = cast<SwitchInst>(I);
				E v		 = get1(s, sw->getCondition());
				if (v->isConst())
				{
					BasicBlock* d = sw->getDefaultDest();
					for (auto& c : sw->cases())
						if (c.getCaseValue()->getValue() == *v->c)
						{
							d = c.getCaseSuccessor();
							break;
						}
					transfer(s, d);
					return R::Stay;
				}
				// group by successor
				std::vector<std::pair<BasicBlock*, E>> g;
				E any = mkBool(false);
				for (auto& c : sw->cases())
				{
					E eq = mkEq(v, mkConst(c.getCaseValue()->getValue()));
					any	 = mkOr(any, eq);
					bool f = false;
					for (auto& x : g)
						if (x.first == c.getCaseSuccessor())
						{
							x.second = mkOr(x.second, eq);
							f		 = true;
						}
					if (!f)
						g.emplace_back(c.getCaseSuccessor(), eq);
				}
				bool f = false;
				for (auto& x : g)
					if (x.first == sw->getDefaultDest())
					{
						x.second = mkOr(x.second, mkNot(any));
						f		 = true;
					}
				if (!f)
					g.emplace_back(sw->getDefaultDest(), mkNot(any));
				std::vector<std::pair<size_t, std::shared_ptr<Model>>> feas;
				for (size_t i = 0; i < g.size(); i++)
				{
					if (g[i].second->isFalse())
						continue;
					Model m;
					Res r = feasible(s, g[i].second, m);
					if (r == Res::Unsat)
						continue;
					std::shared_ptr<Model> mp = s.model;
					if (r == Res::Sat && !eval(g[i].second, *s.model).isOne())
						mp = std::make_shared<Model>(std::move(m));
					feas.emplace_back(i, mp);
				}
				if (feas.empty())
					throw Killed{};
				BasicBlock* stop = nullptr;
				if (feas.size() > 1 && O.merge && s.th.size() == 1 && mergeRegion(s, I, stop))
				{
					auto mg		 = std::make_shared<MergeGroup>();
					mg->stop	 = stop;
					mg->depth	 = s.th[0].fr.size();
					mg->pending	 = 1;
					mg->pcPrefix = s.pc.size();
					s.merges.push_back(mg);
				}
				for (size_t k = 1; k < feas.size(); k++)
				{
					StateP n = clone(s);
					n->model = feas[k].second;
					addPC(*n, g[feas[k].first].second);
					transfer(*n, g[feas[k].first].first);
					pushState(std::move(n));
				}
				s.model = feas[0].second;
				addPC(s, g[feas[0].first].second);
				transfer(s, g[feas[0].first].first);
				return R::Stay;
			}
			case Instruction::Ret:
			{
				auto* r = cast<ReturnInst>(I);
				if (r->getReturnValue())
					return doReturn(s, get(s, r->getReturnValue()));
				return doReturn(s, std::nullopt);
			}
			case Instruction::Unreachable:
				violation(s, "unreachable", "unreachable code reached");
				throw Killed{};
			case Instruction::ExtractValue:
			{
				auto* ev = cast<ExtractValueInst>(I);
				Val a	 = get(s, ev->getAggregateOperand());
				Type* t	 = ev->getAggregateOperand()->getType();
				size_t lo = 0;
				for (unsigned ix : ev->indices())
				{
					for (unsigned j = 0; j < ix; j++)
						lo += ti(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()).leaves.size();
					t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
				}
				size_t n = ti(t).leaves.size();
				setReg(s, I, Val(a.begin() + (long)lo, a.begin() + (long)(lo + n)));
				return R::Next;
			}
			case Instruction::InsertValue:
			{
				auto* iv = cast<InsertValueInst>(I);
				Val a	 = get(s, iv->getAggregateOperand());
				Val v	 = get(s, iv->getInsertedValueOperand());
				Type* t	 = iv->getAggregateOperand()->getType();
				size_t lo = 0;
				for (unsigned ix : iv->indices())
				{
					for (unsigned j = 0; j < ix; j++)
						lo += ti(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()).leaves.size();
					t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
				}
				for (size_t i = 0; i < v.size(); i++)
					a[lo + i] = v[i];
				setReg(s, I, a);
				return R::Next;
			}
			case Instruction::ExtractElement:
			{
				Val a = get(s, I->getOperand(0));
				E ix  = get1(s, I->getOperand(1));
				if (ix->isConst())
				{
					uint64_t k = ix->u64();
					setReg(s, I, Val{ k < a.size() ? a[k] : fresh(s, a[0]->w, "poison") });
				}
				else
				{
					E r = a.back();
					for (size_t i = a.size() - 1; i-- > 0;)
						r = mkIte(mkEq(ix, mkConst(ix->w, i)), a[i], r);
					setReg(s, I, Val{ r });
				}
				return R::Next;
			}
			case Instruction::InsertElement:
			{
				Val a = get(s, I->getOperand(0));
				E v	  = get1(s, I->getOperand(1));
				E ix  = get1(s, I->getOperand(2));
				for (size_t i = 0; i < a.size(); i++)
					a[i] = mkIte(mkEq(ix, mkConst(ix->w, i)), v, a[i]);
				setReg(s, I, a);
				return R::Next;
			}
			case Instruction::ShuffleVector:
			{
				auto* sv = cast<ShuffleVectorInst>(I);
				Val a = get(s, sv->getOperand(0)), b = get(s, sv->getOperand(1)), r;
				for (int k : sv->getShuffleMask())
				{
					if (k < 0)
						r.push_back(mkVar(a[0]->w, "$undef" + std::to_string(a[0]->w)));
					else
						r.push_back((size_t)k < a.size() ? a[(size_t)k] : b[(size_t)k - a.size()]);
				}
				setReg(s, I, r);
				return R::Next;
			}
			case Instruction::Call:
			case Instruction::Invoke: return doCall(s, cast<CallBase>(I));
			case Instruction::LandingPad:
				incompleteAt(s, "landingpad reached unexpectedly");
				throw Killed{};
			case Instruction::Resume:
			{
				Val v = get(s, I->getOperand(0));
				// resume from this frame: pop to the caller and continue unwinding
				Thread& t	= s.th[(size_t)s.cur];
				uint64_t ex = v[0]->u64();
				if (top(s).f->doesNotThrow())
				{
					violation(s, "terminate", "exception escapes a noexcept function");
					throw Killed{};
				}
				popFrameObjects(s, t.fr.back());
				t.fr.pop_back();
				while (!s.merges.empty() && s.merges.back()->depth > t.fr.size())
					leaveGroup(s, false);
				if (t.fr.empty())
				{
					Violation vi;
					vi.kind = "exception";
					vi.msg	= "uncaught exception leaves the entry point";
					for (auto& in : s.inputs)
						vi.inputs.emplace_back(in.name, eval(in.e, *s.model));
					vi.sched = s.sched;
					if (violKeys.insert(vi.kind).second)
						violations.push_back(vi);
					throw Killed{};
				}
				return unwind(s, ex);
			}
			case Instruction::VAArg:
			default: break;
		}
		std::string n = I->getOpcodeName();
		incompleteAt(s, "unsupported instruction " + n);
		throw Killed{};
	}

	// ------------------------------------------------------------------ calls
	Executor::R Executor::doCall(State& s, CallBase* cb)
	{
		if (auto* ii = dyn_cast<IntrinsicInst>(cb))
			return intrinsic(s, ii);
		if (cb->isInlineAsm())
		{
			auto* ia = cast<InlineAsm>(cb->getCalledOperand());
			if (ia->getAsmString().empty())
			{
				// compiler barrier; tied operands pass through
				if (!cb->getType()->isVoidTy())
				{
					if (cb->arg_size() >= 1)
						setReg(s, cb, get(s, cb->getArgOperand(0)));
					else
						setReg(s, cb, Val{ fresh(s, bits(cb->getType()), "asm") });
				}
				return R::Next;
			}
			incompleteAt(s, "inline assembly");
			throw Killed{};
		}
		Function* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
		if (!f)
		{
			if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
				f = dyn_cast<Function>(ga->getAliaseeObject());
		}
		if (!f)
		{
			E p = get1(s, cb->getCalledOperand());
			if (!p->isConst())
				p = simplifyWithPC(s, p);
			APInt v = concretize(s, p, "function pointer");
			auto it = funcs.find(v.getZExtValue());
			if (it == funcs.end())
			{
				violation(s, "memory", v.isZero() ? "call through null function pointer" : "call through invalid function pointer");
				throw Killed{};
			}
			f = it->second;
		}
		std::vector<Val> args;
		for (auto& a : cb->args())
			args.push_back(get(s, a.get()));
		return callFunction(s, cb, f, std::move(args));
	}

	Executor::R Executor::callFunction(State& s, CallBase* cb, Function* f, std::vector<Val> args)
	{
		R r;
		std::string name = f->getName().str();
		if (external(s, cb, f, name, args, r))
			return r;
		if (f->isDeclaration())
		{
			incompleteAt(s, "call to unmodelled function " + llvm::demangle(name));
			throw Killed{};
		}
		pushFrame(s, f, std::move(args), cb);
		return R::Stay;
	}

	Executor::R Executor::intrinsic(State& s, IntrinsicInst* ii)
	{
		auto A	 = [&](unsigned i) { return get1(s, ii->getArgOperand(i)); };
		auto AV	 = [&](unsigned i) { return get(s, ii->getArgOperand(i)); };
		auto ret = [&](E e) {
			setReg(s, ii, Val{ e });
			return finishCallNext(s, ii);
		};
		auto map1 = [&](auto fn) {
			Val a = AV(0), r;
			for (E e : a)
				r.push_back(fn(e));
			setReg(s, ii, r);
			return R::Next;
		};
		auto map2 = [&](auto fn) {
			Val a = AV(0), b = AV(1), r;
			for (size_t i = 0; i < a.size(); i++)
				r.push_back(fn(a[i], b[i]));
			setReg(s, ii, r);
			return R::Next;
		};
		auto map3 = [&](auto fn) {
			Val a = AV(0), b = AV(1), c = AV(2), r;
			for (size_t i = 0; i < a.size(); i++)
				r.push_back(fn(a[i], b[i], c[i]));
			setReg(s, ii, r);
			return R::Next;
		};
		Intrinsic::ID id = ii->getIntrinsicID();
		switch (id)
		{
			case Intrinsic::dbg_declare:
			case Intrinsic::dbg_value:
			case Intrinsic::dbg_label:
			case Intrinsic::dbg_assign:
			case Intrinsic::lifetime_start:
			case Intrinsic::lifetime_end:
			case Intrinsic::invariant_start:
			case Intrinsic::invariant_end:
			case Intrinsic::donothing:
			case Intrinsic::prefetch:
			case Intrinsic::sideeffect:
			case Intrinsic::experimental_noalias_scope_decl:
			case Intrinsic::var_annotation:
			case Intrinsic::assume:
				if (id == Intrinsic::assume)
					checkProp(s, A(0), "assume", "compiler assumption violated (undefined behaviour)");
				if (!ii->getType()->isVoidTy())
					setReg(s, ii, Val{ fresh(s, bits(ii->getType()), "intr") });
				return R::Next;
			case Intrinsic::expect:
			case Intrinsic::expect_with_probability:
			case Intrinsic::launder_invariant_group:
			case Intrinsic::strip_invariant_group:
			case Intrinsic::ssa_copy:
			case Intrinsic::arithmetic_fence:
			case Intrinsic::ptr_annotation: setReg(s, ii, AV(0)); return R::Next;
			case Intrinsic::ptrmask: return map2([](E a, E b) { return mkAnd(a, b); });
			case Intrinsic::is_constant: return ret(mkBool(false));
			case Intrinsic::objectsize:
				return ret(mkConst(bits(ii->getType()), cast<ConstantInt>(ii->getArgOperand(1))->isOne() ? 0 : ~0ull));
			case Intrinsic::memcpy:
			case Intrinsic::memcpy_inline: return memCopy(s, A(0), A(1), A(2), false);
			case Intrinsic::memmove: return memCopy(s, A(0), A(1), A(2), true);
			case Intrinsic::memset: return memSet(s, A(0), A(1), A(2));
			case Intrinsic::trap:
			case Intrinsic::ubsantrap:
			case Intrinsic::debugtrap: violation(s, "trap", "trap reached"); throw Killed{};
			case Intrinsic::stacksave: return ret(mkConst(64, 0));
			case Intrinsic::stackrestore: return R::Next;
			case Intrinsic::ctpop: return map1([](E e) { E p = popE(e); return mkZExtOrTrunc(p, e->w); });
			case Intrinsic::ctlz:
			case Intrinsic::cttz:
			{
				bool poison = cast<ConstantInt>(ii->getArgOperand(1))->isOne();
				return map1([&](E e) {
					E r = id == Intrinsic::ctlz ? ctlzE(e, e->w) : cttzE(e, e->w);
					if (poison)
					{
						E z = mkEq(e, mkConst(e->w, 0));
						if (!z->isFalse())
							r = mkIte(z, fresh(s, e->w, "poison"), r);
					}
					return r;
				});
			}
			case Intrinsic::bswap:
				return map1([](E e) {
					E r = nullptr;
					for (uint32_t i = 0; i < e->w / 8; i++)
					{
						E b = mkExtract(e, i * 8, 8);
						r	= r ? mkConcat(r, b) : b;
					}
					return r;
				});
			case Intrinsic::bitreverse:
				return map1([](E e) {
					E r = nullptr;
					for (uint32_t i = 0; i < e->w; i++)
					{
						E b = mkExtract(e, i, 1);
						r	= r ? mkConcat(r, b) : b;
					}
					return r;
				});
			case Intrinsic::fshl:
			case Intrinsic::fshr:
				return map3([&](E a, E b, E c) {
					uint32_t w = a->w;
					c		   = mkURem(c, mkConst(w, w));
					E cat	   = mkConcat(a, b);
					E sh	   = mkZExt(c, 2 * w);
					if (id == Intrinsic::fshl)
						return mkExtract(mkShl(cat, sh), w, w);
					return mkExtract(mkLShr(cat, sh), 0, w);
				});
			case Intrinsic::abs: return map1([](E e) { return mkIte(mkSlt(e, mkConst(e->w, 0)), mkNeg(e), e); });
			case Intrinsic::smax: return map2([](E a, E b) { return mkIte(mkSlt(b, a), a, b); });
			case Intrinsic::smin: return map2([](E a, E b) { return mkIte(mkSlt(a, b), a, b); });
			case Intrinsic::umax: return map2([](E a, E b) { return mkIte(mkUlt(b, a), a, b); });
			case Intrinsic::umin: return map2([](E a, E b) { return mkIte(mkUlt(a, b), a, b); });
			case Intrinsic::uadd_with_overflow:
			case Intrinsic::sadd_with_overflow:
			case Intrinsic::usub_with_overflow:
			case Intrinsic::ssub_with_overflow:
			case Intrinsic::umul_with_overflow:
			case Intrinsic::smul_with_overflow:
			{
				E a = A(0), b = A(1);
				uint32_t w = a->w;
				bool sg	   = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
				uint32_t W = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? 2 * w : w + 1;
				E x = sg ? mkSExt(a, W) : mkZExt(a, W), y = sg ? mkSExt(b, W) : mkZExt(b, W);
				E r;
				switch (id)
				{
					case Intrinsic::uadd_with_overflow:
					case Intrinsic::sadd_with_overflow: r = mkAdd(x, y); break;
					case Intrinsic::usub_with_overflow:
					case Intrinsic::ssub_with_overflow: r = mkSub(x, y); break;
					default: r = mkMul(x, y);
				}
				E t	 = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? mkAdd(a, b)
					 : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? mkSub(a, b)
																									 : mkMul(a, b);
				E ov = mkNe(sg ? mkSExt(t, W) : mkZExt(t, W), r);
				if (id == Intrinsic::usub_with_overflow)
					ov = mkUlt(a, b);
				if (id == Intrinsic::uadd_with_overflow)
					ov = mkUlt(t, a);
				setReg(s, ii, Val{ t, ov });
				return R::Next;
			}
			case Intrinsic::uadd_sat: return map2([](E a, E b) { E r = mkAdd(a, b); return mkIte(mkUlt(r, a), mkConst(APInt::getAllOnes(a->w)), r); });
			case Intrinsic::usub_sat: return map2([](E a, E b) { return mkIte(mkUlt(a, b), mkConst(a->w, 0), mkSub(a, b)); });
			case Intrinsic::sadd_sat:
			case Intrinsic::ssub_sat:
				return map2([&](E a, E b) {
					uint32_t w = a->w;
					E x		   = mkSExt(a, w + 1), y = mkSExt(b, w + 1);
					E r		   = id == Intrinsic::sadd_sat ? mkAdd(x, y) : mkSub(x, y);
					E mx = mkConst(APInt::getSignedMaxValue(w)), mn = mkConst(APInt::getSignedMinValue(w));
					return mkIte(mkSlt(mkSExt(mx, w + 1), r), mx, mkIte(mkSlt(r, mkSExt(mn, w + 1)), mn, mkTrunc(r, w)));
				});
			case Intrinsic::fabs: return map1([](E e) { return mkFAbs(e); });
			case Intrinsic::sqrt: return map1([](E e) { return mkFSqrt(e); });
			case Intrinsic::floor: return map1([](E e) { return mkFRint(e, 3); });
			case Intrinsic::ceil: return map1([](E e) { return mkFRint(e, 2); });
			case Intrinsic::trunc: return map1([](E e) { return mkFRint(e, 1); });
			case Intrinsic::rint:
			case Intrinsic::nearbyint:
			case Intrinsic::roundeven: return map1([](E e) { return mkFRint(e, 0); });
			case Intrinsic::round: return map1([](E e) { return mkFRint(e, 4); });
			case Intrinsic::fma: return map3([](E a, E b, E c) { return mkFFma(a, b, c); });
			case Intrinsic::fmuladd: return map3([](E a, E b, E c) { return mkFAdd(mkFMul(a, b), c); });
			case Intrinsic::minnum: return map2([&](E a, E b) { return fminmax(a, b, true, false); });
			case Intrinsic::maxnum: return map2([&](E a, E b) { return fminmax(a, b, false, false); });
			case Intrinsic::minimum: return map2([&](E a, E b) { return fminmax(a, b, true, true); });
			case Intrinsic::maximum: return map2([&](E a, E b) { return fminmax(a, b, false, true); });
			case Intrinsic::copysign:
				return map2([](E a, E b) { return mkConcat(mkExtract(b, b->w - 1, 1), mkExtract(a, 0, a->w - 1)); });
			case Intrinsic::is_fpclass:
			{
				uint64_t mask = cast<ConstantInt>(ii->getArgOperand(1))->getZExtValue();
				return map1([&](E e) {
					const fltSemantics& fs = sem(e->w);
					E nan = mkFIsNaN(e);
					E a	  = mkFAbs(e);
					E sg  = mkExtract(e, e->w - 1, 1);
					E inf = mkFOEq(a, mkConst(APFloat::getInf(fs).bitcastToAPInt()));
					E zero = mkFOEq(a, mkConst(e->w, 0));
					E sub  = mkAnd(mkNot(zero), mkFOLt(a, mkConst(APFloat::getSmallestNormalized(fs).bitcastToAPInt())));
					E nrm  = mkNot(mkOr(mkOr(nan, inf), mkOr(zero, sub)));
					E r	   = mkBool(false);
					auto add = [&](E c, unsigned neg, unsigned pos) {
						bool n = mask & (1u << neg), p = mask & (1u << pos);
						if (n && p)
							r = mkOr(r, c);
						else if (n)
							r = mkOr(r, mkAnd(c, sg));
						else if (p)
							r = mkOr(r, mkAnd(c, mkNot(sg)));
					};
					if (mask & 3)
						r = nan;
					add(inf, 2, 9);
					add(nrm, 3, 8);
					add(sub, 4, 7);
					add(zero, 5, 6);
					return r;
				});
			}
			case Intrinsic::convert_from_fp16: return map1([&](E e) { return mkFCvt(e, bits(ii->getType())); });
			case Intrinsic::convert_to_fp16: return map1([&](E e) { return mkFCvt(e, 16); });
			case Intrinsic::eh_typeid_for:
				return ret(mkConst(32, A(0)->u64() & 0x7fffffff));
			case Intrinsic::threadlocal_address:
			{
				auto* g = dyn_cast<GlobalVariable>(ii->getArgOperand(0)->stripPointerCasts());
				if (!g || s.th.size() == 1 || s.cur == 0)
				{
					setReg(s, ii, AV(0));
					return R::Next;
				}
				auto& tls = s.th[(size_t)s.cur].tls;
				auto it	  = tls.find(g);
				if (it == tls.end())
				{
					ObjP init	= find(s, gaddr[g]);
					ObjP base	= globals.count(gaddr[g]) ? globals[gaddr[g]] : init;
					uint64_t a	= allocHeap(s, base->size, base->align, 4, "tls " + g->getName().str());
					s.mem[a]->d = base->d;
					it			= tls.emplace(g, a).first;
				}
				return ret(mkConst(64, it->second));
			}
			case Intrinsic::vastart:
			case Intrinsic::vaend: return R::Next;
			case Intrinsic::vector_reduce_add:
			case Intrinsic::vector_reduce_or:
			case Intrinsic::vector_reduce_and:
			case Intrinsic::vector_reduce_xor:
			case Intrinsic::vector_reduce_mul:
			case Intrinsic::vector_reduce_smax:
			case Intrinsic::vector_reduce_smin:
			case Intrinsic::vector_reduce_umax:
			case Intrinsic::vector_reduce_umin:
			{
				Val a = AV(0);
				E r	  = a[0];
				for (size_t i = 1; i < a.size(); i++)
					switch (id)
					{
						case Intrinsic::vector_reduce_add: r = mkAdd(r, a[i]); break;
						case Intrinsic::vector_reduce_or: r = mkOr(r, a[i]); break;
						case Intrinsic::vector_reduce_and: r = mkAnd(r, a[i]); break;
						case Intrinsic::vector_reduce_xor: r = mkXor(r, a[i]); break;
						case Intrinsic::vector_reduce_mul: r = mkMul(r, a[i]); break;
						case Intrinsic::vector_reduce_smax: r = mkIte(mkSlt(r, a[i]), a[i], r); break;
						case Intrinsic::vector_reduce_smin: r = mkIte(mkSlt(a[i], r), a[i], r); break;
						case Intrinsic::vector_reduce_umax: r = mkIte(mkUlt(r, a[i]), a[i], r); break;
						default: r = mkIte(mkUlt(a[i], r), a[i], r); break;
					}
				return ret(r);
			}
			case Intrinsic::sin:
			case Intrinsic::cos:
			case Intrinsic::exp:
			case Intrinsic::exp2:
			case Intrinsic::log:
			case Intrinsic::log2:
			case Intrinsic::log10:
			{
				stubs.insert("uninterpreted " + Intrinsic::getBaseName(id).str());
				return map1([&](E e) { return mkVar(e->w, "$uf_" + std::to_string((int)id) + "_" + std::to_string(e->id)); });
			}
			case Intrinsic::pow:
				stubs.insert("uninterpreted pow");
				return map2([&](E a, E b) { return mkVar(a->w, "$pow_" + std::to_string(a->id) + "_" + std::to_string(b->id)); });
			case Intrinsic::x86_sse2_pause: return pauseOp(s) ? R::Stay : R::Next;
			case Intrinsic::x86_vcvtps2ph_128:
			case Intrinsic::x86_vcvtps2ph_256:
			{
				Val a = AV(0), r;
				uint64_t imm = A(1)->u64();
				uint32_t rm	 = (imm & 4) ? 0 : (imm & 3) == 0 ? 0 : (imm & 3) == 1 ? 3 : (imm & 3) == 2 ? 2 : 1;
				for (E e : a)
					r.push_back(mkFCvt(e, 16, rm));
				while (r.size() < ti(ii->getType()).leaves.size())
					r.push_back(mkConst(16, 0));
				setReg(s, ii, r);
				return R::Next;
			}
			case Intrinsic::x86_bmi_bextr_32:
			case Intrinsic::x86_bmi_bextr_64:
			default: break;
		}
		incompleteAt(s, "unsupported intrinsic " + Intrinsic::getBaseName(id).str());
		throw Killed{};
	}
}
