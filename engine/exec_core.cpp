// memory, path conditions, constants, merging, scheduling
#include "exec.h"
#include <algorithm>
#include <cstdio>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>

using namespace llvm;

namespace sym
{
	static const uint64_t GUARD = 256;

	Executor::Executor(Module& m, Solver& s, ExecOpts o)
		: M(m),
		  DL(m.getDataLayout()),
		  S(s),
		  O(o)
	{
		assignGlobals();
	}

	// ------------------------------------------------------------------ types
	uint32_t Executor::bits(Type* t)
	{
		if (t->isPointerTy())
			return 64;
		if (t->isX86_FP80Ty())
			return 80;
		return (uint32_t)t->getScalarSizeInBits();
	}

	static void flatten(const DataLayout& DL, Type* t, uint64_t off, TypeInfo& out)
	{
		if (auto* st = dyn_cast<StructType>(t))
		{
			auto* sl = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); i++)
				flatten(DL, st->getElementType(i), off + sl->getElementOffset(i), out);
			return;
		}
		if (auto* at = dyn_cast<ArrayType>(t))
		{
			uint64_t sz = DL.getTypeAllocSize(at->getElementType());
			for (uint64_t i = 0; i < at->getNumElements(); i++)
				flatten(DL, at->getElementType(), off + i * sz, out);
			return;
		}
		if (auto* vt = dyn_cast<FixedVectorType>(t))
		{
			Type* et = vt->getElementType();
			if (et->isIntegerTy(1))
				out.bitVector = true;
			uint64_t sz = DL.getTypeStoreSize(et);
			for (uint64_t i = 0; i < vt->getNumElements(); i++)
				flatten(DL, et, off + (out.bitVector ? 0 : i * sz), out);
			return;
		}
		Leaf l;
		l.ty	= t;
		l.off	= off;
		l.w		= t->isPointerTy() ? 64 : (uint32_t)t->getPrimitiveSizeInBits();
		l.bytes = (uint32_t)DL.getTypeStoreSize(t);
		out.leaves.push_back(l);
	}

	const TypeInfo& Executor::ti(Type* t)
	{
		auto& p = tinfo[t];
		if (!p)
		{
			auto n = std::make_unique<TypeInfo>();
			if (!t->isVoidTy())
			{
				flatten(DL, t, 0, *n);
				n->alloc = DL.getTypeAllocSize(t);
			}
			p = std::move(n);
		}
		return *p;
	}

	FnInfo& Executor::fi(Function* f)
	{
		auto& p = finfo[f];
		if (!p)
		{
			p = std::make_unique<FnInfo>();
			for (auto& a : f->args())
				p->idx[&a] = p->n++;
			for (auto& bb : *f)
				for (auto& i : bb)
					if (!i.getType()->isVoidTy())
						p->idx[&i] = p->n++;
		}
		return *p;
	}

	// ------------------------------------------------------------------ globals
	void Executor::assignGlobals()
	{
		uint64_t a = 0x400000;
		for (auto& f : M)
		{
			gaddr[&f] = a;
			funcs[a]  = &f;
			a += 16;
		}
		a = 0x10000000;
		for (auto& g : M.globals())
		{
			uint64_t al = std::max<uint64_t>(g.getAlign() ? g.getAlign()->value() : 1, DL.getPrefTypeAlign(g.getValueType()).value());
			uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(g.getValueType()) : 64;
			if (g.isDeclaration())
				sz = std::max<uint64_t>(sz, 64);
			a += GUARD;
			a = (a + al - 1) / al * al;
			gaddr[&g]		= a;
			lazyGlobals[a] = &g;
			a += sz;
		}
	}

	void Executor::initBytes(Obj& o, uint64_t off, const Constant* c)
	{
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue())
		{
			uint64_t n = DL.getTypeAllocSize(c->getType());
			E z		   = mkConst(8, 0);
			for (uint64_t i = 0; i < n; i++)
				o.d[off + i] = { z, 0 };
			return;
		}
		if (auto* ds = dyn_cast<ConstantDataSequential>(c))
		{
			uint64_t es = DL.getTypeAllocSize(ds->getElementType());
			for (unsigned i = 0; i < ds->getNumElements(); i++)
			{
				APInt v = ds->getElementType()->isIntegerTy() ? ds->getElementAsAPInt(i)
															  : ds->getElementAsAPFloat(i).bitcastToAPInt();
				writeBytes(o, off + i * es, mkConst(v));
			}
			return;
		}
		if (auto* st = dyn_cast<ConstantStruct>(c))
		{
			auto* sl   = DL.getStructLayout(st->getType());
			uint64_t n = DL.getTypeAllocSize(c->getType());
			E z		   = mkConst(8, 0);
			for (uint64_t i = 0; i < n; i++)
				o.d[off + i] = { z, 0 };
			for (unsigned i = 0; i < st->getNumOperands(); i++)
				initBytes(o, off + sl->getElementOffset(i), st->getOperand(i));
			return;
		}
		if (isa<ConstantArray>(c) || isa<ConstantVector>(c))
		{
			Type* et = isa<ConstantArray>(c) ? cast<ArrayType>(c->getType())->getElementType()
											 : cast<VectorType>(c->getType())->getElementType();
			uint64_t es = DL.getTypeAllocSize(et);
			for (unsigned i = 0; i < c->getNumOperands(); i++)
				initBytes(o, off + i * es, cast<Constant>(c->getOperand(i)));
			return;
		}
		Val v = evalConst(c);
		auto& t = ti(c->getType());
		for (size_t i = 0; i < t.leaves.size(); i++)
			writeBytes(o, off + t.leaves[i].off, mkZExt(v[i], t.leaves[i].bytes * 8));
	}

	ObjP Executor::materialize(GlobalVariable* g, uint64_t addr)
	{
		auto o	 = std::make_shared<Obj>();
		o->base	 = addr;
		o->size	 = g->getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(g->getValueType()) : 64;
		o->name	 = "global " + g->getName().str();
		o->ro	 = g->isConstant();
		o->align = (uint32_t)(g->getAlign() ? g->getAlign()->value() : 1);
		if (g->isDeclaration())
			o->size = std::max<uint64_t>(o->size, 64);
		o->d.resize(o->size);
		if (g->hasInitializer())
			initBytes(*o, 0, g->getInitializer());
		else
		{
			E z = mkConst(8, 0);
			for (auto& b : o->d)
				b = { z, 0 };
		}
		globals[addr] = o;
		return o;
	}

	// ------------------------------------------------------------------ constants
	E Executor::constScalar(const Constant* c)
	{
		if (auto* ci = dyn_cast<ConstantInt>(c))
			return mkConst(ci->getValue());
		if (auto* cf = dyn_cast<ConstantFP>(c))
			return mkConst(cf->getValueAPF().bitcastToAPInt());
		if (isa<ConstantPointerNull>(c))
			return mkConst(64, 0);
		if (isa<UndefValue>(c))
			return mkVar(bits(c->getType()), "$undef" + std::to_string(bits(c->getType())));
		if (auto* gv = dyn_cast<GlobalVariable>(c))
			return mkConst(64, gaddr[gv]);
		if (auto* f = dyn_cast<Function>(c))
			return mkConst(64, gaddr[f]);
		if (auto* ga = dyn_cast<GlobalAlias>(c))
			return constScalar(ga->getAliasee());
		if (auto* ce = dyn_cast<ConstantExpr>(c))
		{
			switch (ce->getOpcode())
			{
				case Instruction::GetElementPtr:
				{
					auto* gep = cast<GEPOperator>(ce);
					APInt off(64, 0);
					E base = constScalar(cast<Constant>(gep->getPointerOperand()));
					if (!gep->accumulateConstantOffset(DL, off))
					{
						fprintf(stderr, "non constant gep constexpr\n");
						abort();
					}
					return mkAdd(base, mkConst(off));
				}
				case Instruction::PtrToInt:
				case Instruction::IntToPtr: return mkZExtOrTrunc(constScalar(ce->getOperand(0)), bits(ce->getType()));
				case Instruction::BitCast:
				case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
				case Instruction::Trunc: return mkTrunc(constScalar(ce->getOperand(0)), bits(ce->getType()));
				case Instruction::Add: return mkAdd(constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)));
				case Instruction::Sub: return mkSub(constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)));
				case Instruction::Xor: return mkXor(constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)));
				case Instruction::ICmp:
					return icmp((CmpInst::Predicate)ce->getPredicate(), constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)));
				default: break;
			}
			fprintf(stderr, "unsupported constexpr %s\n", ce->getOpcodeName());
			abort();
		}
		fprintf(stderr, "unsupported constant\n");
		c->print(errs());
		abort();
	}
	Val Executor::evalConst(const Constant* c)
	{
		auto it = constCache.find(c);
		if (it != constCache.end())
			return it->second;
		Val v;
		Type* t = c->getType();
		if (t->isAggregateType() || t->isVectorTy())
		{
			if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
			{
				for (auto& l : ti(t).leaves)
					v.push_back(isa<UndefValue>(c) ? mkVar(l.w, "$undef" + std::to_string(l.w)) : mkConst(l.w, 0));
			}
			else
			{
				uint64_t n = t->isStructTy() ? t->getStructNumElements()
						   : t->isArrayTy()	 ? t->getArrayNumElements()
											 : cast<FixedVectorType>(t)->getNumElements();
				for (uint64_t i = 0; i < n; i++)
				{
					Constant* e = c->getAggregateElement((unsigned)i);
					Val x		= evalConst(e);
					v.append(x.begin(), x.end());
				}
			}
		}
		else
			v.push_back(constScalar(c));
		constCache[c] = v;
		return v;
	}

	E Executor::fresh(State& s, uint32_t w, const char* why)
	{
		return mkVar(w, std::string("$") + why + std::to_string(s.freshCount++) + "_" + std::to_string(w));
	}

	const Val Executor::get(State& s, const Value* v)
	{
		if (auto* c = dyn_cast<Constant>(v))
			return evalConst(c);
		Frame& f = top(s);
		auto it	 = f.info->idx.find(v);
		if (it == f.info->idx.end())
		{
			if (isa<MetadataAsValue>(v))
				return {};
			fprintf(stderr, "no register for value\n");
			v->print(errs());
			abort();
		}
		return f.regs[it->second];
	}
	E Executor::get1(State& s, const Value* v)
	{
		if (auto* ci = dyn_cast<ConstantInt>(v))
			return mkConst(ci->getValue());
		Val x = get(s, v);
		if (x.size() != 1 || !x[0])
		{
			fprintf(stderr, "get1: bad value (%zu lanes) in %s\n", x.size(), where(s).c_str());
			v->print(errs());
			abort();
		}
		return x[0];
	}
	void Executor::setReg(State& s, const Instruction* i, Val v)
	{
		Frame& f = top(s);
		f.regs[f.info->idx.lookup(i)] = std::move(v);
	}

	// ------------------------------------------------------------------ memory
	ObjP Executor::find(State& s, uint64_t addr)
	{
		auto it = s.mem.upper_bound(addr);
		if (it != s.mem.begin())
		{
			--it;
			if (addr <= it->second->base + it->second->size)
			{
				if (addr < it->second->base + it->second->size || it->second->size == 0 || true)
					return it->second;
			}
		}
		auto g = globals.upper_bound(addr);
		if (g != globals.begin())
		{
			--g;
			if (addr <= g->second->base + g->second->size)
				return g->second;
		}
		auto l = lazyGlobals.upper_bound(addr);
		if (l != lazyGlobals.begin())
		{
			--l;
			uint64_t sz = l->second->getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(l->second->getValueType()) : 64;
			if (l->second->isDeclaration())
				sz = std::max<uint64_t>(sz, 64);
			if (addr <= l->first + sz)
				return materialize(l->second, l->first);
		}
		return nullptr;
	}
	ObjP Executor::writable(State& s, const ObjP& o)
	{
		auto it = s.mem.find(o->base);
		if (it != s.mem.end() && it->second == o)
		{
			// references: map + our local copy
			if (o.use_count() <= 2)
				return o;
			auto n		= std::make_shared<Obj>(*o);
			it->second = n;
			return n;
		}
		auto n			 = std::make_shared<Obj>(*o);
		s.mem[o->base] = n;
		return n;
	}
	uint64_t Executor::allocHeap(State& s, uint64_t size, uint64_t align, uint8_t kind, const std::string& name)
	{
		uint64_t a = s.heapNext + GUARD;
		if (align < 16)
			align = 16;
		a = (a + align - 1) / align * align;
		if (a % (align * 2) == 0)
			a += align; // not over-aligned
		auto o	 = std::make_shared<Obj>();
		o->base	 = a;
		o->size	 = size;
		o->kind	 = sym::OK::Heap;
		o->alloc = kind;
		o->align = (uint32_t)align;
		o->name	 = name;
		o->d.resize(size);
		s.mem[a]   = o;
		s.heapNext = a + size;
		return a;
	}
	void Executor::freeHeap(State& s, uint64_t addr, uint8_t kind)
	{
		if (!addr)
			return;
		auto it = s.mem.find(addr);
		if (it == s.mem.end() || it->second->kind != sym::OK::Heap)
		{
			violation(s, "memory", s.heapFreed.count(addr) ? "double free" : "invalid free");
			throw Killed{};
		}
		if (it->second->alloc != kind)
		{
			violation(s, "memory", "mismatched allocation/deallocation functions");
			throw Killed{};
		}
		if (s.th.size() > 1)
			checkRace(s, addr, it->second->size, true);
		s.mem.erase(it);
		s.heapFreed.insert(addr);
	}

	E Executor::readBytes(State& s, Obj& o, uint64_t off, uint64_t n)
	{
		MByte* d = &o.d[off];
		if (d[0].e && d[0].off == 0 && d[0].e->w == 8 * n)
		{
			bool whole = true;
			for (uint64_t i = 1; i < n && whole; i++)
				whole = d[i].e == d[0].e && d[i].off == i;
			if (whole)
				return d[0].e;
		}
		E r = nullptr;
		for (uint64_t i = 0; i < n;)
		{
			E p;
			if (!d[i].e)
			{
				// uninitialised byte: an arbitrary value, fixed from now on (copies share it)
				static uint64_t uninitCount = 0;
				E v	 = mkVar(8, "$uninit" + std::to_string(uninitCount++));
				d[i] = { v, 0 };
				p	 = v;
				i++;
			}
			else
			{
				uint64_t j = i + 1;
				while (j < n && d[j].e == d[i].e && d[j].off == d[i].off + (j - i))
					j++;
				p = mkExtract(d[i].e, d[i].off * 8, (uint32_t)(j - i) * 8);
				i = j;
			}
			r = r ? mkConcat(p, r) : p;
		}
		return r;
	}
	void Executor::writeBytes(Obj& o, uint64_t off, E v)
	{
		uint64_t n = v->w / 8;
		if (v->isConst() || v->k == K::Concat)
		{
			// keep single bytes simple when possible
			if (n == 1)
			{
				o.d[off] = { v, 0 };
				return;
			}
		}
		for (uint64_t i = 0; i < n; i++)
			o.d[off + i] = { v, (uint32_t)i };
	}

	static void findIteTerm(E e, E& out, int depth)
	{
		if (out || depth > 6)
			return;
		if (e->k == K::Ite)
		{
			out = e;
			return;
		}
		if (e->k == K::Add || (e->k == K::Mul && e->op[0]->isConst()) || e->k == K::Concat || e->k == K::Extract || e->k == K::SExt || e->k == K::Not)
			for (uint32_t i = 0; i < e->n; i++)
				findIteTerm(e->op[i], out, depth + 1);
	}

	E Executor::simplifyWithPC(State& s, E e)
	{
		// replace boolean sub-terms known from the path condition, and concretised expressions
		if (e->isConst())
			return e;
		std::unordered_map<E, E> m, memo;
		for (auto& kv : s.conc)
			m[kv.first] = mkConst(kv.second);
		for (E c : s.pc)
		{
			if (c->k == K::Not)
				m[c->op[0]] = mkBool(false);
			else
				m[c] = mkBool(true);
		}
		return substitute(e, m, memo);
	}

	Executor::Res2 Executor::resolve(State& s, E addr, uint64_t n, bool write)
	{
		auto inb = [&](Obj& o, uint64_t a) { return a >= o.base && n <= o.size && a - o.base <= o.size - n; };
		for (int guard = 0; guard < 64; guard++)
		{
			if (addr->isConst())
			{
				uint64_t a = addr->u64();
				ObjP o	   = find(s, a);
				if (!o || !inb(*o, a))
				{
					char buf[160];
					if (o)
						snprintf(buf, sizeof buf, "out-of-bounds %s of %llu byte(s) at offset %lld of %s (size %llu)", write ? "write" : "read",
								 (unsigned long long)n, (long long)(a - o->base), o->name.substr(0, 50).c_str(), (unsigned long long)o->size);
					else
						snprintf(buf, sizeof buf, "%s of %llu byte(s) at %s address", write ? "write" : "read", (unsigned long long)n,
								 a < 4096 ? "null" : "invalid or dangling");
					violation(s, "memory", buf);
					throw Killed{};
				}
				if (write && o->ro)
				{
					violation(s, "memory", "write to constant object " + o->name);
					throw Killed{};
				}
				return { o, mkConst(64, a - o->base) };
			}
			// known facts
			E simp = simplifyWithPC(s, addr);
			if (simp != addr)
			{
				addr = simp;
				continue;
			}
			// pick intended object from the constant part
			E ite = nullptr;
			APInt cpart(64, 0);
			{
				E zeroed = addr;
				// constant addend: evaluate linear constant
				if (addr->k == K::Add && addr->op[addr->n - 1]->isConst())
					cpart = *addr->op[addr->n - 1]->c;
				else if (addr->k == K::Concat || addr->k == K::Or)
				{
					KnownBits kb = known(addr);
					cpart		 = kb.One;
				}
				(void)zeroed;
			}
			uint64_t C = cpart.getZExtValue();
			ObjP o	   = nullptr;
			if (C > 0x1000)
			{
				o = find(s, C);
				if (!o)
					for (uint64_t d = 8; d <= 96 && !o; d += 8)
					{
						o = find(s, C + d);
						if (!o)
							o = find(s, C - d);
					}
			}
			if (!o)
			{
				findIteTerm(addr, ite, 0);
				if (ite)
				{
					decide(s, ite->op[0]);
					E known = simplifyWithPC(s, addr);
					if (known == addr)
					{
						// implied but not syntactically present: substitute ourselves
						bool v = eval(ite->op[0], *s.model).isOne();
						std::unordered_map<E, E> m{ { ite->op[0], mkBool(v) } }, memo;
						addr = substitute(addr, m, memo);
					}
					else
						addr = known;
					continue;
				}
				// fall back: concretise
				APInt v = concretize(s, addr, "pointer");
				addr	= mkConst(v);
				continue;
			}
			E off = mkSub(addr, mkConst(64, o->base));
			if (n > o->size)
			{
				violation(s, "memory", "access larger than object " + o->name);
				throw Killed{};
			}
			E ok = mkUle(off, mkConst(64, o->size - n));
			if (!ok->isTrue())
			{
				Model m = *s.model;
				Res r	= feasible(s, mkNot(ok), m);
				if (r == Res::Sat)
				{
					violation(s, "memory",
							  std::string("out-of-bounds ") + (write ? "write to " : "read from ") + o->name.substr(0, 60) + " (size " + std::to_string(o->size) + ")",
							  &m);
					if (!tryAssume(s, ok))
						throw Killed{};
				}
				else if (r == Res::Unknown)
				{
					incompleteAt(s, "bounds check undecided");
					if (!tryAssume(s, ok))
						throw Killed{};
				}
				else
					addPC(s, ok); // implied; remember to avoid repeating the query
			}
			if (write && o->ro)
			{
				violation(s, "memory", "write to constant object " + o->name);
				throw Killed{};
			}
			return { o, off };
		}
		incompleteAt(s, "pointer resolution did not converge");
		throw Killed{};
	}

	static E muxRead(const std::vector<E>& vals, E idx, size_t lo, size_t n, int bit)
	{
		// select vals[lo + (idx mod 2^bit...)]
		if (n == 1 || bit < 0)
			return vals[lo];
		size_t half = (size_t)1 << bit;
		if (n <= half)
			return muxRead(vals, idx, lo, n, bit - 1);
		E a = muxRead(vals, idx, lo, half, bit - 1);
		E b = muxRead(vals, idx, lo + half, n - half, bit - 1);
		return mkIte(mkExtract(idx, (uint32_t)bit, 1), b, a);
	}

	E Executor::loadN(State& s, E addr, uint64_t n)
	{
		Res2 r = resolve(s, addr, n, false);
		if (r.off->isConst())
		{
			if (s.th.size() > 1)
				checkRace(s, r.o->base + r.off->u64(), n, false);
			return readBytes(s, *r.o, r.off->u64(), n);
		}
		// symbolic offset
		unsigned tz	  = known(r.off).countMinTrailingZeros();
		uint64_t step = tz >= 12 ? 4096 : (1ull << tz);
		uint64_t cnt  = (r.o->size - n) / step + 1;
		// restrict by range
		uint64_t maxOff = range(r.off).getUnsignedMax().getLimitedValue();
		cnt				= std::min<uint64_t>(cnt - 1, maxOff / step) + 1;
		if (cnt > 70000)
		{
			incompleteAt(s, "symbolic read over a very large object");
			throw Killed{};
		}
		std::vector<E> vals;
		vals.reserve(cnt);
		for (uint64_t i = 0; i < cnt; i++)
		{
			ObjP o = find(s, r.o->base);
			vals.push_back(readBytes(s, *o, i * step, n));
		}
		E idx	= mkLShr(r.off, mkConst(64, tz));
		int bit = 0;
		while (((size_t)1 << bit) < cnt)
			bit++;
		return muxRead(vals, idx, 0, vals.size(), bit - 1);
	}
	void Executor::storeN(State& s, E addr, E v)
	{
		uint64_t n = v->w / 8;
		Res2 r	   = resolve(s, addr, n, true);
		if (r.off->isConst() && s.th.size() > 1)
			checkRace(s, r.o->base + r.off->u64(), n, true);
		uint64_t base = r.o->base;
		r.o			  = nullptr;
		ObjP t		  = find(s, base);
		ObjP o		  = writable(s, t);
		t			  = nullptr;
		if (r.off->isConst())
		{
			writeBytes(*o, r.off->u64(), v);
			return;
		}
		unsigned tz	  = known(r.off).countMinTrailingZeros();
		uint64_t step = tz >= 12 ? 4096 : (1ull << tz);
		uint64_t cnt  = (o->size - n) / step + 1;
		uint64_t maxOff = range(r.off).getUnsignedMax().getLimitedValue();
		cnt				= std::min<uint64_t>(cnt - 1, maxOff / step) + 1;
		if (cnt * n > 70000)
		{
			incompleteAt(s, "symbolic write over a very large object");
			throw Killed{};
		}
		if (step >= n)
		{
			for (uint64_t i = 0; i < cnt; i++)
			{
				E c	  = mkEq(r.off, mkConst(64, i * step));
				E old = readBytes(s, *find(s, base), i * step, n);
				ObjP w = find(s, base);
				writeBytes(*w, i * step, mkIte(c, v, old));
			}
		}
		else
		{
			for (uint64_t i = 0; i < cnt; i++)
			{
				E c = mkEq(r.off, mkConst(64, i * step));
				for (uint64_t b = 0; b < n; b++)
				{
					E old  = readBytes(s, *find(s, base), i * step + b, 1);
					ObjP w = find(s, base);
					writeBytes(*w, i * step + b, mkIte(c, mkExtract(v, (uint32_t)b * 8, 8), old));
				}
			}
		}
	}
	E Executor::leafLoad(E raw, const Leaf& l)
	{
		return raw->w == l.w ? raw : mkTrunc(raw, l.w);
	}
	Val Executor::loadTy(State& s, E addr, Type* t)
	{
		auto& T = ti(t);
		Val v;
		if (T.bitVector)
		{
			uint64_t n = T.leaves.size();
			E raw	   = loadN(s, addr, (n + 7) / 8);
			for (uint64_t i = 0; i < n; i++)
				v.push_back(mkExtract(raw, (uint32_t)i, 1));
			return v;
		}
		for (auto& l : T.leaves)
			v.push_back(leafLoad(loadN(s, mkAdd(addr, mkConst(64, l.off)), l.bytes), l));
		return v;
	}
	void Executor::storeTy(State& s, E addr, Type* t, const Val& v)
	{
		auto& T = ti(t);
		if (T.bitVector)
		{
			E raw = nullptr;
			for (E e : v)
				raw = raw ? mkConcat(e, raw) : e;
			storeN(s, addr, mkZExt(raw, (raw->w + 7) / 8 * 8));
			return;
		}
		for (size_t i = 0; i < T.leaves.size(); i++)
			storeN(s, mkAdd(addr, mkConst(64, T.leaves[i].off)), mkZExt(v[i], T.leaves[i].bytes * 8));
	}

	void Executor::checkRace(State& s, uint64_t addr, uint64_t n, bool write)
	{
		Thread& t = s.th[(size_t)s.cur];
		for (uint64_t i = 0; i < n; i++)
		{
			RaceCell& c = s.race[addr + i];
			bool bad	= false;
			if (c.wt >= 0 && c.wt != s.cur && c.wc > t.vc.get((size_t)c.wt))
				bad = true;
			if (write)
				for (size_t k = 0; k < c.rd.c.size(); k++)
					if ((int)k != s.cur && c.rd.c[k] > t.vc.get(k))
						bad = true;
			if (bad)
			{
				ObjP o = find(s, addr);
				violation(s, "race", "data race on " + (o ? o->name : std::string("memory")));
				throw Killed{};
			}
			if (write)
			{
				c.wt = s.cur;
				c.wc = t.vc.get((size_t)s.cur);
				c.rd.c.clear();
			}
			else
			{
				if (c.rd.c.size() <= (size_t)s.cur)
					c.rd.c.resize((size_t)s.cur + 1);
				c.rd.c[(size_t)s.cur] = t.vc.get((size_t)s.cur);
			}
		}
	}

	// ------------------------------------------------------------------ path conditions
	std::vector<E> Executor::slice(State& s, E cond)
	{
		std::vector<E> out;
		std::set<uint32_t> vs(varsOf(cond).begin(), varsOf(cond).end());
		std::vector<bool> used(s.pc.size(), false);
		bool ch = true;
		while (ch)
		{
			ch = false;
			for (size_t i = 0; i < s.pc.size(); i++)
			{
				if (used[i])
					continue;
				auto& pv = varsOf(s.pc[i]);
				bool hit = false;
				for (uint32_t v : pv)
					if (vs.count(v))
					{
						hit = true;
						break;
					}
				if (hit)
				{
					used[i] = true;
					ch		= true;
					out.push_back(s.pc[i]);
					vs.insert(pv.begin(), pv.end());
				}
			}
		}
		return out;
	}
	Res Executor::feasible(State& s, E cond, Model& out)
	{
		if (cond->isTrue())
			return Res::Sat;
		if (cond->isFalse())
			return Res::Unsat;
		if (isKnownTrue(s, cond))
			return Res::Sat;
		if (isKnownTrue(s, mkNot(cond)))
			return Res::Unsat;
		if (eval(cond, *s.model).isOne())
		{
			out = *s.model;
			return Res::Sat;
		}
		auto q = slice(s, cond);
		q.push_back(cond);
		Model m;
		Res r = S.check(q, &m, S.opts.feasTimeout);
		if (r == Res::Sat)
		{
			out.vals = s.model->vals;
			out.memo.clear();
			for (auto& v : m.vals)
				out.vals[v.first] = v.second;
		}
		else if (r == Res::Unknown)
			incomplete["branch feasibility undecided (explored as feasible)"] += 0;
		return r;
	}
	bool Executor::isKnownTrue(State& s, E c)
	{
		if (c->isTrue())
			return true;
		if (s.pcIds.count(c->id))
			return true;
		if (c->k == K::And)
			return isKnownTrue(s, c->op[0]) && isKnownTrue(s, c->op[1]);
		return false;
	}
	void Executor::addPC(State& s, E c)
	{
		if (c->isTrue())
			return;
		if (c->k == K::And)
		{
			addPC(s, c->op[0]);
			addPC(s, c->op[1]);
			return;
		}
		if (s.pcIds.insert(c->id).second)
			s.pc.push_back(c);
	}
	bool Executor::tryAssume(State& s, E c)
	{
		if (c->isTrue())
			return true;
		Model m;
		Res r = feasible(s, c, m);
		if (r == Res::Unsat)
			return false;
		if (r == Res::Sat && !eval(c, *s.model).isOne())
			s.model = std::make_shared<Model>(std::move(m));
		addPC(s, c);
		return true;
	}
	bool Executor::assumeAfterViolation(State& s, E c)
	{
		// the property is broken on this path already: look at the rest of it only if a continuation is easy to find
		const double save = S.opts.feasTimeout;
		const bool pf	  = S.opts.portfolio;
		S.opts.feasTimeout = 2;
		S.opts.portfolio   = false;
		Model m;
		const Res r		   = feasible(s, c, m);
		S.opts.feasTimeout = save;
		S.opts.portfolio   = pf;
		if (r != Res::Sat)
			return false;
		if (!eval(c, *s.model).isOne())
			s.model = std::make_shared<Model>(std::move(m));
		addPC(s, c);
		return true;
	}
	StateP Executor::clone(State& s)
	{
		auto n = std::make_unique<State>(s);
		n->id  = nextStateId++;
		for (auto& g : n->merges)
			g->pending++;
		st.forks++;
		return n;
	}
	void Executor::pushState(StateP n)
	{
		work.push_back(std::move(n));
	}
	bool Executor::decide(State& s, E cond)
	{
		if (cond->isConst())
			return cond->isOne();
		if (isKnownTrue(s, cond))
			return true;
		E nc = mkNot(cond);
		if (isKnownTrue(s, nc))
			return false;
		bool mv = eval(cond, *s.model).isOne();
		E mine = mv ? cond : nc, other = mv ? nc : cond;
		Model m;
		Res r = feasible(s, other, m);
		if (r != Res::Unsat)
		{
			StateP n = clone(s);
			if (r == Res::Sat)
				n->model = std::make_shared<Model>(std::move(m));
			addPC(*n, other);
			pushState(std::move(n));
			addPC(s, mine);
		}
		return mv;
	}
	APInt Executor::concretize(State& s, E e, const char* why)
	{
		(void)why;
		if (e->isConst())
			return *e->c;
		auto it = s.conc.find(e);
		if (it != s.conc.end())
			return it->second;
		APInt v = eval(e, *s.model);
		E eq	= mkEq(e, mkConst(v));
		if (!eq->isConst() && !isKnownTrue(s, eq))
		{
			Model m;
			Res r = feasible(s, mkNot(eq), m);
			if (r != Res::Unsat)
			{
				StateP n = clone(s);
				if (r == Res::Sat)
					n->model = std::make_shared<Model>(std::move(m));
				addPC(*n, mkNot(eq));
				pushState(std::move(n));
				addPC(s, eq);
			}
		}
		s.conc[e] = v;
		return v;
	}

	// ------------------------------------------------------------------ merging
	bool Executor::mergeRegion(State& s, Instruction* I, BasicBlock*& stop)
	{
		Frame& f  = top(s);
		FnInfo& F = *f.info;
		if (!F.pdt)
			F.pdt = std::make_unique<PostDominatorTree>(*f.f);
		auto* node = F.pdt->getNode(f.bb);
		if (!node || !node->getIDom() || !node->getIDom()->getBlock())
			return false;
		stop = node->getIDom()->getBlock();
		auto it = F.mergeable.find(f.bb);
		if (it != F.mergeable.end())
			return it->second == 1;
		// region must not loop back to the branch block
		std::set<BasicBlock*> seen;
		std::vector<BasicBlock*> st;
		for (auto* sb : successors(f.bb))
			if (sb != stop)
				st.push_back(sb);
		bool ok		 = true;
		size_t insts = 0;
		while (!st.empty() && ok)
		{
			auto* b = st.back();
			st.pop_back();
			if (b == f.bb)
			{
				ok = false;
				break;
			}
			if (!seen.insert(b).second)
				continue;
			insts += b->size();
			if (seen.size() > 200 || insts > 3000)
				ok = false;
			for (auto* sb : successors(b))
				if (sb != stop)
					st.push_back(sb);
		}
		F.mergeable[f.bb] = ok ? 1 : 0;
		(void)I;
		return ok;
	}

	bool Executor::tryMerge(State& a, State& b, MergeGroup& g)
	{
		if (a.th.size() != 1 || b.th.size() != 1)
			return false;
		Thread &ta = a.th[0], &tb = b.th[0];
		if (ta.fr.size() != tb.fr.size() || ta.caught != tb.caught || ta.uncaught != tb.uncaught || a.exc.size() != b.exc.size())
			return false;
		if (a.inputs.size() != b.inputs.size() || a.observed.size() != b.observed.size() || a.allowLeaks != b.allowLeaks || a.heapFreed != b.heapFreed)
			return false;
		for (size_t i = 0; i < a.inputs.size(); i++)
			if (a.inputs[i].e != b.inputs[i].e)
				return false;
		for (size_t i = 0; i < a.observed.size(); i++)
			if (a.observed[i].second != b.observed[i].second || a.observed[i].first != b.observed[i].first)
				return false;
		for (size_t i = 0; i < ta.fr.size(); i++)
		{
			if (ta.fr[i].f != tb.fr[i].f || ta.fr[i].bb != tb.fr[i].bb || ta.fr[i].it != tb.fr[i].it || ta.fr[i].allocas != tb.fr[i].allocas)
				return false;
		}
		// memory layout
		auto ia = a.mem.begin(), ib = b.mem.begin();
		for (; ia != a.mem.end() && ib != b.mem.end(); ++ia, ++ib)
		{
			if (ia->first != ib->first || ia->second->size != ib->second->size)
				break;
		}
		std::vector<uint64_t> onlyA, onlyB; // globals privately copied on one side only
		if (ia != a.mem.end() || ib != b.mem.end())
		{
			for (auto& kv : a.mem)
				if (!b.mem.count(kv.first))
				{
					if (kv.second->kind != sym::OK::Global)
						return false;
					onlyA.push_back(kv.first);
				}
			for (auto& kv : b.mem)
				if (!a.mem.count(kv.first))
				{
					if (kv.second->kind != sym::OK::Global)
						return false;
					onlyB.push_back(kv.first);
				}
			for (auto& kv : a.mem)
			{
				auto f = b.mem.find(kv.first);
				if (f != b.mem.end() && f->second->size != kv.second->size)
					return false;
			}
		}
		// conditions
		size_t p = g.pcPrefix;
		p		 = std::min(p, std::min(a.pc.size(), b.pc.size()));
		for (size_t i = 0; i < p; i++)
			if (a.pc[i] != b.pc[i])
			{
				p = i;
				break;
			}
		E ca = mkBool(true), cb = mkBool(true);
		for (size_t i = p; i < a.pc.size(); i++)
			ca = mkAnd(ca, a.pc[i]);
		for (size_t i = p; i < b.pc.size(); i++)
			cb = mkAnd(cb, b.pc[i]);
		// guard expression: prefer a literal separating the two sides
		E guard = nullptr;
		for (size_t i = p; i < a.pc.size() && !guard; i++)
			for (size_t j = p; j < b.pc.size(); j++)
				if (a.pc[i] == mkNot(b.pc[j]))
				{
					guard = a.pc[i];
					break;
				}
		if (!guard)
			guard = ca;
		auto ptrLike = [](E x) { return x->isConst() && x->w == 64 && x->c->ugt(0xfffff) && x->c->ult(0x800000000000ull); };
		// registers: only PHIs of the stop block matter (others are dead or identical)
		Frame &fa = ta.fr.back(), &fb = tb.fr.back();
		std::vector<std::pair<uint32_t, Val>> newRegs;
		for (auto& I : *g.stop)
		{
			auto* phi = dyn_cast<PHINode>(&I);
			if (!phi)
				break;
			uint32_t ix = fa.info->idx.lookup(phi);
			Val &x = fa.regs[ix], &y = fb.regs[ix];
			if (x.size() != y.size())
				return false;
			Val z;
			for (size_t i = 0; i < x.size(); i++)
			{
				if (x[i] == y[i])
				{
					z.push_back(x[i]);
					continue;
				}
				if (phi->getType()->isPointerTy() && (ptrLike(x[i]) || ptrLike(y[i])))
					return false;
				z.push_back(mkIte(guard, x[i], y[i]));
			}
			newRegs.emplace_back(ix, z);
		}
		// memory contents
		struct Diff
		{
			uint64_t base;
			ObjP x, y;
		};
		std::vector<Diff> diffs;
		auto consider = [&](uint64_t base, ObjP x, ObjP y) {
			if (x != y)
				diffs.push_back({ base, x, y });
		};
		for (auto& kv : a.mem)
		{
			auto f = b.mem.find(kv.first);
			consider(kv.first, kv.second, f != b.mem.end() ? f->second : find(b, kv.first));
		}
		for (uint64_t base : onlyB)
			consider(base, find(a, base), b.mem[base]);
		size_t diffBytes = 0;
		for (auto& d : diffs)
		{
			for (uint64_t i = 0; i < d.x->size; i++)
			{
				auto &p1 = d.x->d[i], &p2 = d.y->d[i];
				if (p1.e == p2.e && p1.off == p2.off)
					continue;
				if (!p1.e || !p2.e)
					continue;
				diffBytes++;
				// pointer differences: do not merge
				if (p1.off == 0 && p2.off == 0 && p1.e->w == 64 && p2.e->w == 64 && (ptrLike(p1.e) || ptrLike(p2.e)))
					return false;
			}
		}
		if (diffBytes > 4096)
			return false;
		// commit into a
		for (auto& nr : newRegs)
			fa.regs[nr.first] = nr.second;
		for (auto& d : diffs)
		{
			auto n = std::make_shared<Obj>(*d.x);
			for (uint64_t i = 0; i < d.x->size;)
			{
				auto &p1 = d.x->d[i], &p2 = d.y->d[i];
				if (p1.e == p2.e && p1.off == p2.off)
				{
					i++;
					continue;
				}
				if (!p1.e || !p2.e)
				{
					// uninitialised on one side: an arbitrary value there, the stored one on the other side
					const Obj& ini		 = p1.e ? *d.x : *d.y;
					const Obj& un		 = p1.e ? *d.y : *d.x;
					const MByte& pb		 = p1.e ? p1 : p2;
					uint64_t L			 = 1;
					const uint64_t W	 = pb.off == 0 ? pb.e->w / 8 : 0;
					if (W > 1 && W <= 16 && i + W <= d.x->size)
					{
						bool ok = true;
						for (uint64_t k = 0; k < W && ok; k++)
							ok = ini.d[i + k].e && !un.d[i + k].e;
						if (ok)
							L = W;
					}
					static uint64_t mergeUninit = 0;
					E v	   = mkVar((unsigned)L * 8, "$muninit" + std::to_string(mergeUninit++));
					E have = readBytes(p1.e ? a : b, const_cast<Obj&>(ini), i, L);
					writeBytes(*n, i, p1.e ? mkIte(guard, have, v) : mkIte(guard, v, have));
					i += L;
					continue;
				}
				// widest aligned run
				uint64_t L = 1;
				if (p1.off == 0 || p2.off == 0)
				{
					uint64_t w1 = p1.off == 0 ? p1.e->w / 8 : 0, w2 = p2.off == 0 ? p2.e->w / 8 : 0;
					uint64_t W = std::max(w1, w2);
					if (W <= 16 && i + W <= d.x->size)
					{
						bool ok = true;
						for (uint64_t k = 0; k < W && ok; k++)
							ok = d.x->d[i + k].e && d.y->d[i + k].e;
						if (ok)
							L = W;
					}
				}
				E x = readBytes(a, *d.x, i, L), y = readBytes(b, *d.y, i, L);
				writeBytes(*n, i, mkIte(guard, x, y));
				i += L;
			}
			a.mem[d.base] = n;
		}
		a.pc.resize(p);
		a.pcIds.clear();
		for (E c : a.pc)
			a.pcIds.insert(c->id);
		E disj = mkOr(ca, cb);
		if (guard != ca)
		{
			// (guard -> rest_a) & (!guard -> rest_b)
			E ra = mkBool(true), rb = mkBool(true);
			// recompute from stored suffixes
			disj = mkAnd(mkImplies(guard, ca), mkImplies(mkNot(guard), cb));
			// strip the guard literal itself
			auto strip = [&](E conj, E lit) {
				std::unordered_map<E, E> m, memo;
				if (lit->k == K::Not)
					m[lit->op[0]] = mkBool(false);
				else
					m[lit] = mkBool(true);
				return substitute(conj, m, memo);
			};
			ra	 = strip(ca, guard);
			rb	 = strip(cb, mkNot(guard));
			disj = mkAnd(mkImplies(guard, ra), mkImplies(mkNot(guard), rb));
		}
		addPC(a, disj);
		// concretisation facts survive only when common
		for (auto it = a.conc.begin(); it != a.conc.end();)
		{
			auto f = b.conc.find(it->first);
			if (f == b.conc.end() || f->second != it->second)
				it = a.conc.erase(it);
			else
				++it;
		}
		a.heapNext	 = std::max(a.heapNext, b.heapNext);
		a.stackNext	 = std::max(a.stackNext, b.stackNext);
		a.freshCount = std::max(a.freshCount, b.freshCount);
		a.steps		 = std::max(a.steps, b.steps);
		for (auto& kv : b.nameCount)
			a.nameCount[kv.first] = std::max(a.nameCount[kv.first], kv.second);
		st.merges++;
		return true;
	}

	void Executor::releaseGroup(std::shared_ptr<MergeGroup> g)
	{
		auto arr = std::move(g->arrived);
		g->arrived.clear();
		std::vector<StateP> out;
		for (auto& sp : arr)
		{
			// leave this group
			sp->merges.pop_back();
			bool merged = false;
			for (auto& o : out)
			{
				if (tryMerge(*o, *sp, *g))
				{
					merged = true;
					break;
				}
			}
			if (merged)
			{
				for (auto& og : sp->merges)
					og->pending--;
			}
			else
				out.push_back(std::move(sp));
		}
		for (auto& o : out)
			pushState(std::move(o));
	}

	void Executor::arrive(StateP s)
	{
		auto g = s->merges.back();
		g->arrived.push_back(std::move(s));
		if ((int)g->arrived.size() == g->pending)
			releaseGroup(g);
	}
	// state leaves its innermost group (all=false) or every group (all=true)
	void Executor::leaveGroup(State& s, bool all)
	{
		while (!s.merges.empty())
		{
			auto g = s.merges.back();
			s.merges.pop_back();
			g->pending--;
			if (g->pending > 0 && (int)g->arrived.size() == g->pending)
				releaseGroup(g);
			if (!all)
				break;
		}
	}

	// ------------------------------------------------------------------ reporting
	std::string Executor::where(State& s)
	{
		std::string r;
		if (s.th.empty())
			return r;
		auto& fr = s.th[(size_t)s.cur].fr;
		int n	 = 0;
		for (auto it = fr.rbegin(); it != fr.rend() && n < 6; ++it, ++n)
		{
			Frame& f = *it;
			if (n)
				r += " <- ";
			Instruction* I = nullptr;
			if (it == fr.rbegin())
			{
				if (f.it != f.bb->end())
					I = &*f.it;
			}
			else
				I = (it - 1)->site;
			bool printed = false;
			if (I)
			{
				const DILocation* dl = I->getDebugLoc().get();
				int k				 = 0;
				while (dl && k < 4)
				{
					auto* sp = dl->getScope()->getSubprogram();
					std::string fn = dl->getFilename().str();
					size_t sl	   = fn.rfind('/');
					if (sl != std::string::npos)
						fn = fn.substr(sl + 1);
					if (k)
						r += " < ";
					r += (sp ? sp->getName().str() : "?") + "@" + fn + ":" + std::to_string(dl->getLine());
					dl		= dl->getInlinedAt();
					printed = true;
					k++;
				}
			}
			if (!printed)
				r += llvm::demangle(f.f->getName().str()).substr(0, 80);
		}
		return r;
	}
	void Executor::incompleteAt(State& s, const std::string& why)
	{
		incomplete[why + " at " + where(s)]++;
	}
	void Executor::violation(State& s, const std::string& kind, const std::string& msg, const Model* m)
	{
		Violation v;
		v.kind	= kind;
		v.msg	= msg;
		v.where = where(s);
		const Model& mm = m ? *m : *s.model;
		for (auto& in : s.inputs)
			v.inputs.emplace_back(in.name, eval(in.e, mm));
		v.sched = s.sched;
		std::string key = kind + "|" + msg + "|" + v.where;
		if (!violKeys.insert(key).second)
			return;
		violations.push_back(v);
		if (onViolation)
			onViolation();
		// (broken compiler assumptions rarely show when the counterexample is replayed: keep looking for their consequences)
		size_t counted = 0;
		for (auto& o : violations)
			counted += o.kind != "assume";
		if (counted >= O.maxViolations || violations.size() >= O.maxViolations + 32)
			stopAll = true;
	}
	void Executor::checkProp(State& s, E cond, const std::string& kind, const std::string& msg)
	{
		st.checks++;
		if (cond->isTrue())
		{
			st.checksProved++;
			st.checksTrivial++;
			return;
		}
		if (isKnownTrue(s, cond))
		{
			st.checksProved++;
			return;
		}
		// a broken compiler assumption: go on as if the compiler had not made use of it
		const bool goOn = kind == "assume";
		if (cond->isFalse())
		{
			violation(s, kind, msg);
			if (goOn)
				return;
			throw Killed{};
		}
		if (!eval(cond, *s.model).isOne())
		{
			violation(s, kind, msg);
			if (goOn && !stopAll)
				return;
			if (stopAll || !assumeAfterViolation(s, cond))
				throw Killed{};
			return;
		}
		auto q = slice(s, cond);
		Model m;
		Res r = S.prove(q, cond, &m, S.opts.proveTimeout);
		if (r == Res::Unsat)
		{
			st.checksProved++;
			return;
		}
		if (r == Res::Sat)
		{
			Model full;
			full.vals = s.model->vals;
			for (auto& v : m.vals)
				full.vals[v.first] = v.second;
			violation(s, kind, msg, &full);
			if (goOn && !stopAll)
				return;
			if (stopAll || !assumeAfterViolation(s, cond))
				throw Killed{};
			return;
		}
		incompleteAt(s, "assertion undecided: " + msg);
		if (stopAll || !tryAssume(s, cond))
			throw Killed{};
	}
	void Executor::cover(const Instruction* I)
	{
		if (!covered.insert(I).second)
			return;
		const DILocation* dl = I->getDebugLoc().get();
		while (dl)
		{
			auto fn = dl->getFilename();
			if (fn.contains("muu/") || fn.contains("/repo/"))
			{
				if (auto* sp = dl->getScope()->getSubprogram())
				{
					std::string n = sp->getLinkageName().empty() ? sp->getName().str() : llvm::demangle(sp->getLinkageName().str());
					srcFns.insert(n);
				}
				if (dl->getLine())
					srcLines.insert({ fn.str(), dl->getLine() });
			}
			dl = dl->getInlinedAt();
		}
	}

	// ------------------------------------------------------------------ threads
	bool Executor::enabled(State& s, size_t t)
	{
		Thread& th = s.th[t];
		switch (th.st)
		{
			case TS::Run: return true;
			case TS::Done: return false;
			case TS::BlockMutex:
			{
				auto it = s.mutexOwner.find(th.waitOn);
				return it == s.mutexOwner.end() || it->second < 0;
			}
			case TS::BlockCond:
			{
				if (!th.notified && !th.timed && !O.spuriousWake)
					return false;
				auto it = s.mutexOwner.find(th.waitMutex);
				return it == s.mutexOwner.end() || it->second < 0;
			}
			case TS::BlockJoin: return s.th[th.waitOn].st == TS::Done;
		}
		return false;
	}
	void Executor::schedule(State& s, bool canStay, bool costs)
	{
		// candidates, cheapest first. A waiter can also run because its timed wait expires; while something else could
		// run that counts against the bound like a preemption does (a slow clock is the default)
		std::vector<int> cand;
		std::map<int, size_t> cost;
		auto expiry = [&](size_t t) { return s.th[t].st == TS::BlockCond && !s.th[t].notified; };
		if (canStay)
		{
			cand.push_back(s.cur);
			cost[s.cur] = 0;
		}
		for (size_t t = 0; t < s.th.size(); t++)
			if ((int)t != s.cur && enabled(s, t) && !expiry(t))
			{
				cand.push_back((int)t);
				cost[(int)t] = costs ? 1 : 0;
			}
		bool others = !cand.empty();
		for (size_t k = 1; k <= s.th.size(); k++)
		{
			size_t t = ((size_t)s.cur + k) % s.th.size();
			if (((int)t == s.cur && canStay) || !expiry(t) || !enabled(s, t))
				continue;
			cost[(int)t] = (others || !cand.empty()) ? 1 : 0;
			cand.push_back((int)t);
		}
		if (cand.empty())
		{
			std::string d;
			for (size_t t = 0; t < s.th.size(); t++)
				d += " t" + std::to_string(t) + (s.th[t].st == TS::Done ? "=done" : s.th[t].st == TS::BlockMutex ? "=mutex" : s.th[t].st == TS::BlockCond ? "=cond" : s.th[t].st == TS::BlockJoin ? "=join" : "=run");
			violation(s, "deadlock", "deadlock: no thread can run (" + d + " )");
			throw Killed{};
		}
		if (O.haveFixed && s.sched.size() < O.fixedSched.size())
		{
			int want = O.fixedSched[s.sched.size()];
			if (std::find(cand.begin(), cand.end(), want) == cand.end())
			{
				incompleteAt(s, "fixed schedule not feasible");
				throw Killed{};
			}
			cand = { want };
		}
		else
		{
			std::vector<int> keep;
			for (int c : cand)
				if (s.preempts + cost[c] <= (size_t)O.maxPreempt || keep.empty())
					keep.push_back(c);
			cand = keep;
		}
		for (size_t i = 1; i < cand.size(); i++)
		{
			StateP n = clone(s);
			n->cur	 = cand[i];
			n->sched.push_back(cand[i]);
			n->schedDone = true;
			n->preempts += cost[cand[i]];
			st.switches++;
			pushState(std::move(n));
		}
		s.preempts += cost[cand[0]];
		s.cur = cand[0];
		s.sched.push_back(cand[0]);
		s.schedDone = true;
	}
	bool Executor::visibleOp(State& s, bool isYield)
	{
		if (s.th.size() < 2)
			return false;
		if (s.schedDone)
		{
			if (!isYield)
				return false;
		}
		size_t en = 0;
		for (size_t t = 0; t < s.th.size(); t++)
			if ((int)t != s.cur && enabled(s, t))
				en++;
		if (!en)
			return false;
		int before = s.cur;
		schedule(s, true, true);
		return s.cur != before;
	}
	void Executor::switchFrom(State& s)
	{
		schedule(s, false, false);
	}
	void Executor::acquire(State& s, uint64_t addr)
	{
		auto it = s.syncClk.find(addr);
		if (it != s.syncClk.end())
			s.th[(size_t)s.cur].vc.join(it->second);
	}
	void Executor::release(State& s, uint64_t addr)
	{
		Thread& t = s.th[(size_t)s.cur];
		s.syncClk[addr].join(t.vc);
		t.vc.inc((size_t)s.cur);
	}
}
