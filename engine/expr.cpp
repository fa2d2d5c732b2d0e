#include "expr.h"
#include <algorithm>
#include <deque>
#include <llvm/IR/InstrTypes.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/APSInt.h>

namespace sym
{
	// ---------------------------------------------------------------- interning
	namespace
	{
		struct Table
		{
			std::vector<E> buckets; // open addressing
			size_t count = 0;
			std::vector<E> all;
			std::map<std::string, E> vars;
			std::vector<char*> arenas;
			size_t arenaPos = 0, arenaCap = 0;

			Table()
			{
				buckets.resize(1 << 16, nullptr);
			}
			void* alloc(size_t n)
			{
				n = (n + 15) & ~size_t(15);
				if (arenaPos + n > arenaCap)
				{
					arenaCap = std::max<size_t>(n, 1 << 20);
					arenas.push_back((char*)malloc(arenaCap));
					arenaPos = 0;
				}
				void* p = arenas.back() + arenaPos;
				arenaPos += n;
				return p;
			}
		};
		Table& T()
		{
			static Table* t = new Table;
			return *t;
		}
		inline uint64_t mix(uint64_t h, uint64_t v)
		{
			h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
			h *= 0xff51afd7ed558ccdull;
			h ^= h >> 32;
			return h;
		}

		E intern(K k, uint32_t w, uint32_t aux, const E* ops, uint32_t n, const APInt* c = nullptr)
		{
			uint64_t h = mix(mix(mix(0x1234567, (uint64_t)k), w), aux);
			for (uint32_t i = 0; i < n; i++)
				h = mix(h, ops[i]->id);
			if (c)
				for (unsigned i = 0; i < c->getNumWords(); i++)
					h = mix(h, c->getRawData()[i]);
			auto& t		= T();
			size_t mask = t.buckets.size() - 1;
			size_t pos	= h & mask;
			while (E e = t.buckets[pos])
			{
				if (e->hash == h && e->k == k && e->w == w && e->aux == aux && e->n == n
					&& (n == 0 || !memcmp(e->op, ops, n * sizeof(E))) && (!c || *c == *e->c) && k != K::Var)
					return e;
				pos = (pos + 1) & mask;
			}
			Expr* e = new (t.alloc(sizeof(Expr))) Expr;
			e->k	= k;
			e->w	= w;
			e->aux	= aux;
			e->n	= n;
			e->hash = h;
			e->id	= (uint32_t)t.all.size();
			e->op	= n ? (E*)t.alloc(n * sizeof(E)) : nullptr;
			for (uint32_t i = 0; i < n; i++)
				e->op[i] = ops[i];
			e->c	= c ? new APInt(*c) : nullptr;
			e->name = nullptr;
			if (k == K::Const)
				e->cleaves = 1;
			else if (k == K::Ite && ops[1]->cleaves && ops[2]->cleaves && ops[1]->cleaves + ops[2]->cleaves <= 64)
				e->cleaves = ops[1]->cleaves + ops[2]->cleaves;
			t.all.push_back(e);
			t.buckets[pos] = e;
			if (++t.count * 2 > t.buckets.size())
			{
				std::vector<E> nb(t.buckets.size() * 2, nullptr);
				size_t m = nb.size() - 1;
				for (E x : t.buckets)
					if (x)
					{
						size_t p = x->hash & m;
						while (nb[p])
							p = (p + 1) & m;
						nb[p] = x;
					}
				t.buckets.swap(nb);
			}
			return e;
		}
		E intern1(K k, uint32_t w, uint32_t aux, E a)
		{
			return intern(k, w, aux, &a, 1);
		}
		E intern2(K k, uint32_t w, uint32_t aux, E a, E b)
		{
			E o[2] = { a, b };
			return intern(k, w, aux, o, 2);
		}
		E intern3(K k, uint32_t w, uint32_t aux, E a, E b, E c)
		{
			E o[3] = { a, b, c };
			return intern(k, w, aux, o, 3);
		}

		template <typename F>
		E mapLeavesRec(E t, F& f, std::unordered_map<E, E>& memo)
		{
			if (t->isConst())
				return f(t);
			auto it = memo.find(t);
			if (it != memo.end())
				return it->second;
			E a = mapLeavesRec(t->op[1], f, memo);
			E b = mapLeavesRec(t->op[2], f, memo);
			return memo[t] = mkIte(t->op[0], a, b);
		}
		template <typename F>
		E mapLeaves(E t, F f)
		{
			std::unordered_map<E, E> memo;
			return mapLeavesRec(t, f, memo);
		}
		bool smallIte(E t, uint32_t lim = 16)
		{
			return t->k == K::Ite && t->cleaves && t->cleaves <= lim;
		}
	}

	size_t numExprs()
	{
		return T().all.size();
	}
	E varById(uint32_t id)
	{
		return T().all[id];
	}

	const llvm::fltSemantics& sem(uint32_t w)
	{
		switch (w)
		{
			case 16: return APFloat::IEEEhalf();
			case 32: return APFloat::IEEEsingle();
			case 64: return APFloat::IEEEdouble();
			case 80: return APFloat::x87DoubleExtended();
			case 128: return APFloat::IEEEquad();
		}
		fprintf(stderr, "bad fp width %u\n", w);
		abort();
	}
	static unsigned mantBits(uint32_t w) // precision including hidden bit
	{
		return APFloat::semanticsPrecision(sem(w));
	}

	E mkConst(const APInt& v)
	{
		return intern(K::Const, v.getBitWidth(), 0, nullptr, 0, &v);
	}
	E mkConst(uint32_t w, uint64_t v)
	{
		APInt a(64, v);
		return mkConst(w <= 64 ? a.trunc(w) : a.zext(w));
	}
	E mkBool(bool b)
	{
		return mkConst(1, b);
	}
	E mkVar(uint32_t w, const std::string& name)
	{
		auto& t = T();
		auto it = t.vars.find(name);
		if (it != t.vars.end())
		{
			if (it->second->w != w)
			{
				fprintf(stderr, "variable %s redeclared with other width\n", name.c_str());
				abort();
			}
			return it->second;
		}
		Expr* e = const_cast<Expr*>(intern(K::Var, w, (uint32_t)t.vars.size(), nullptr, 0));
		e->name = new std::string(name);
		t.vars[name] = e;
		return e;
	}

	// ---------------------------------------------------------------- evaluation of a single op
	static APFloat toF(const APInt& a)
	{
		return APFloat(sem(a.getBitWidth()), a);
	}
	static APInt fromF(const APFloat& f)
	{
		if (f.isNaN())
			return APFloat::getQNaN(f.getSemantics()).bitcastToAPInt();
		return f.bitcastToAPInt();
	}
	static llvm::RoundingMode rmode(uint32_t m)
	{
		switch (m)
		{
			case 0: return llvm::RoundingMode::NearestTiesToEven;
			case 1: return llvm::RoundingMode::TowardZero;
			case 2: return llvm::RoundingMode::TowardPositive;
			case 3: return llvm::RoundingMode::TowardNegative;
			case 4: return llvm::RoundingMode::NearestTiesToAway;
		}
		return llvm::RoundingMode::NearestTiesToEven;
	}
	APInt sqrtF(const APInt& a)
	{
		APFloat f = toF(a);
		if (f.isNaN() || (f.isNegative() && !f.isZero()))
			return APFloat::getQNaN(f.getSemantics()).bitcastToAPInt();
		if (f.isZero() || f.isInfinity())
			return a;
		// exact integer square root based correctly-rounded sqrt
		unsigned w = a.getBitWidth();
		int p	   = (int)mantBits(w);
		int e2	   = ilogb(f);
		// value = m * 2^q, m integer
		APFloat m = llvm::scalbn(f, p - 1 - e2, llvm::RoundingMode::NearestTiesToEven);
		llvm::APSInt mi(p + 2, true);
		bool ex;
		m.convertToInteger(mi, llvm::RoundingMode::TowardZero, &ex);
		int q	 = e2 - (p - 1);
		APInt M	 = mi.zext(4 * p + 16);
		int sh	 = p + 4;
		if ((q - sh) & 1)
			sh++;
		M	= M.shl(sh);
		q -= sh; // even
		// integer sqrt of M
		APInt lo(M.getBitWidth(), 0), hi = APInt::getOneBitSet(M.getBitWidth(), M.getActiveBits() / 2 + 1);
		while ((hi - lo).ugt(1))
		{
			APInt mid = (lo + hi).lshr(1);
			if ((mid * mid).ule(M))
				lo = mid;
			else
				hi = mid;
		}
		bool exact = (lo * lo) == M;
		APInt r	   = lo.shl(1);
		if (!exact)
			r |= 1; // sticky
		APFloat big(APFloat::IEEEquad());
		// r has about p+ bits; convert in wide then scale: do rounding directly into sem via integer convert
		APFloat out(f.getSemantics());
		out.convertFromAPInt(r, false, llvm::RoundingMode::NearestTiesToEven);
		return fromF(llvm::scalbn(out, q / 2 - 1, llvm::RoundingMode::NearestTiesToEven));
	}

	APInt evalOp(K k, uint32_t w, uint32_t aux, const std::vector<const APInt*>& a)
	{
		auto B = [](bool b) { return APInt(1, b); };
		switch (k)
		{
			case K::Add:
			{
				APInt r = *a[0];
				for (size_t i = 1; i < a.size(); i++)
					r += *a[i];
				return r;
			}
			case K::Mul: return *a[0] * *a[1];
			case K::UDiv: return a[1]->isZero() ? APInt::getAllOnes(w) : a[0]->udiv(*a[1]);
			case K::SDiv:
				if (a[1]->isZero())
					return a[0]->isNegative() ? APInt(w, 1) : APInt::getAllOnes(w);
				return a[0]->sdiv(*a[1]);
			case K::URem: return a[1]->isZero() ? *a[0] : a[0]->urem(*a[1]);
			case K::SRem: return a[1]->isZero() ? *a[0] : a[0]->srem(*a[1]);
			case K::And: return *a[0] & *a[1];
			case K::Or: return *a[0] | *a[1];
			case K::Xor: return *a[0] ^ *a[1];
			case K::Not: return ~*a[0];
			case K::Shl: return a[1]->uge(w) ? APInt(w, 0) : a[0]->shl(*a[1]);
			case K::LShr: return a[1]->uge(w) ? APInt(w, 0) : a[0]->lshr(*a[1]);
			case K::AShr: return a[1]->uge(w) ? a[0]->ashr(w - 1) : a[0]->ashr(*a[1]);
			case K::Concat: return a[0]->concat(*a[1]);
			case K::Extract: return a[0]->extractBits(w, aux);
			case K::SExt: return a[0]->sext(w);
			case K::Eq: return B(*a[0] == *a[1]);
			case K::Ult: return B(a[0]->ult(*a[1]));
			case K::Ule: return B(a[0]->ule(*a[1]));
			case K::Slt: return B(a[0]->slt(*a[1]));
			case K::Sle: return B(a[0]->sle(*a[1]));
			case K::Ite: return a[0]->isOne() ? *a[1] : *a[2];
			case K::FAdd:
			{
				APFloat x = toF(*a[0]);
				x.add(toF(*a[1]), rmode(0));
				return fromF(x);
			}
			case K::FSub:
			{
				APFloat x = toF(*a[0]);
				x.subtract(toF(*a[1]), rmode(0));
				return fromF(x);
			}
			case K::FMul:
			{
				APFloat x = toF(*a[0]);
				x.multiply(toF(*a[1]), rmode(0));
				return fromF(x);
			}
			case K::FDiv:
			{
				APFloat x = toF(*a[0]);
				x.divide(toF(*a[1]), rmode(0));
				return fromF(x);
			}
			case K::FRem:
			{
				APFloat x = toF(*a[0]);
				x.mod(toF(*a[1]));
				return fromF(x);
			}
			case K::FSqrt: return sqrtF(*a[0]);
			case K::FFma:
			{
				APFloat x = toF(*a[0]);
				x.fusedMultiplyAdd(toF(*a[1]), toF(*a[2]), rmode(0));
				return fromF(x);
			}
			case K::FRint:
			{
				APFloat x = toF(*a[0]);
				if (x.isNaN())
					return fromF(x);
				x.roundToIntegral(rmode(aux));
				return fromF(x);
			}
			case K::FNeg:
			{
				APInt r = *a[0];
				r.flipBit(r.getBitWidth() - 1);
				return r;
			}
			case K::FAbs:
			{
				APInt r = *a[0];
				r.clearBit(r.getBitWidth() - 1);
				return r;
			}
			case K::FCvt:
			{
				APFloat x = toF(*a[0]);
				if (x.isNaN())
					return APFloat::getQNaN(sem(w)).bitcastToAPInt();
				bool li;
				x.convert(sem(w), rmode(aux), &li);
				return fromF(x);
			}
			case K::SIToF:
			{
				APFloat x(sem(w));
				x.convertFromAPInt(*a[0], true, rmode(0));
				return fromF(x);
			}
			case K::UIToF:
			{
				APFloat x(sem(w));
				x.convertFromAPInt(*a[0], false, rmode(0));
				return fromF(x);
			}
			case K::FToSI:
			case K::FToUI:
			{
				APFloat x = toF(*a[0]);
				llvm::APSInt r(w, k == K::FToUI);
				bool ex;
				if (x.isNaN() || x.isInfinity() || x.convertToInteger(r, rmode(1), &ex) == APFloat::opInvalidOp)
					return APInt(w, 0);
				return r;
			}
			case K::FOEq: return B(toF(*a[0]).compare(toF(*a[1])) == APFloat::cmpEqual);
			case K::FOLt: return B(toF(*a[0]).compare(toF(*a[1])) == APFloat::cmpLessThan);
			case K::FOLe:
			{
				auto r = toF(*a[0]).compare(toF(*a[1]));
				return B(r == APFloat::cmpLessThan || r == APFloat::cmpEqual);
			}
			case K::FIsNaN: return B(toF(*a[0]).isNaN());
			default: break;
		}
		fprintf(stderr, "evalOp: bad kind %d\n", (int)k);
		abort();
	}

	const APInt& eval(E e, const Model& m)
	{
		if (e->isConst())
			return *e->c;
		auto it = m.memo.find(e->id);
		if (it != m.memo.end())
			return it->second;
		if (e->k == K::Var)
		{
			auto v = m.vals.find(e->id);
			if (v != m.vals.end())
				return m.memo.emplace(e->id, v->second).first->second;
			return m.memo.emplace(e->id, APInt(e->w, 0)).first->second;
		}
		if (e->k == K::Ite)
		{
			const APInt& c = eval(e->op[0], m);
			APInt r		   = c.isOne() ? eval(e->op[1], m) : eval(e->op[2], m);
			return m.memo.emplace(e->id, std::move(r)).first->second;
		}
		if ((e->k == K::And) && e->w == 1)
		{
			bool r = eval(e->op[0], m).isOne() && eval(e->op[1], m).isOne();
			return m.memo.emplace(e->id, APInt(1, r)).first->second;
		}
		std::vector<const APInt*> a(e->n);
		for (uint32_t i = 0; i < e->n; i++)
			a[i] = &eval(e->op[i], m);
		APInt r = evalOp(e->k, e->w, e->aux, a);
		return m.memo.emplace(e->id, std::move(r)).first->second;
	}

	// ---------------------------------------------------------------- analyses
	const KnownBits& known(E e)
	{
		if (e->kb)
			return *e->kb;
		KnownBits r(e->w);
		auto k0 = [&](int i) -> const KnownBits& { return known(e->op[i]); };
		switch (e->k)
		{
			case K::Const: r = KnownBits::makeConstant(*e->c); break;
			case K::Add:
				r = k0(0);
				for (uint32_t i = 1; i < e->n; i++)
					r = KnownBits::computeForAddSub(true, false, r, k0(i));
				break;
			case K::Mul: r = KnownBits::mul(k0(0), k0(1)); break;
			case K::UDiv:
				if (!k0(1).One.isZero())
					r = KnownBits::udiv(k0(0), k0(1));
				break;
			case K::URem:
				if (!k0(1).One.isZero())
					r = KnownBits::urem(k0(0), k0(1));
				break;
			case K::And: r = k0(0) & k0(1); break;
			case K::Or: r = k0(0) | k0(1); break;
			case K::Xor: r = k0(0) ^ k0(1); break;
			case K::Not:
				r	   = k0(0);
				std::swap(r.Zero, r.One);
				break;
			case K::Shl:
				if (k0(1).getMaxValue().ult(e->w))
					r = KnownBits::shl(k0(0), k0(1));
				break;
			case K::LShr:
				if (k0(1).getMaxValue().ult(e->w))
					r = KnownBits::lshr(k0(0), k0(1));
				break;
			case K::AShr:
				if (k0(1).getMaxValue().ult(e->w))
					r = KnownBits::ashr(k0(0), k0(1));
				break;
			case K::Concat: r = k0(0).concat(k0(1)); break;
			case K::Extract: r = k0(0).extractBits(e->w, e->aux); break;
			case K::SExt: r = k0(0).sext(e->w); break;
			case K::Ite: r = k0(1).intersectWith(k0(2)); break;
			case K::FAbs: r.Zero.setSignBit(); break;
			default: break;
		}
		if (r.hasConflict())
			r = KnownBits(e->w);
		e->kb = new KnownBits(r);
		return *e->kb;
	}

	const ConstantRange& range(E e)
	{
		if (e->sr)
			return *e->sr;
		ConstantRange r = ConstantRange::getFull(e->w);
		auto r0			= [&](int i) -> const ConstantRange& { return range(e->op[i]); };
		switch (e->k)
		{
			case K::Const: r = ConstantRange(*e->c); break;
			case K::Add:
				r = r0(0);
				for (uint32_t i = 1; i < e->n; i++)
					r = r.add(r0(i));
				break;
			case K::Mul: r = r0(0).multiply(r0(1)); break;
			case K::UDiv: if (!r0(1).contains(APInt(e->w, 0))) r = r0(0).udiv(r0(1)); break;
			case K::URem: if (!r0(1).contains(APInt(e->w, 0))) r = r0(0).urem(r0(1)); break;
			case K::SDiv: if (!r0(1).contains(APInt(e->w, 0))) r = r0(0).sdiv(r0(1)); break;
			case K::SRem: if (!r0(1).contains(APInt(e->w, 0))) r = r0(0).srem(r0(1)); break;
			case K::Concat:
				if (e->op[0]->isZero())
					r = r0(1).zeroExtend(e->w);
				break;
			case K::SExt: r = r0(0).signExtend(e->w); break;
			case K::Ite: r = r0(1).unionWith(r0(2)); break;
			case K::Extract:
				if (e->aux == 0)
					r = r0(0).truncate(e->w);
				break;
			default: break;
		}
		ConstantRange k = ConstantRange::fromKnownBits(known(e), false);
		ConstantRange k2 = ConstantRange::fromKnownBits(known(e), true);
		r = r.intersectWith(k).intersectWith(k2);
		e->sr = new ConstantRange(r);
		return *e->sr;
	}

	const std::vector<uint32_t>& varsOf(E e)
	{
		static const std::vector<uint32_t> none;
		if (e->vars)
			return *e->vars;
		if (e->isConst())
			return none;
		if (e->k == K::Var)
		{
			e->vars = new std::vector<uint32_t>{ e->id };
			return *e->vars;
		}
		const std::vector<uint32_t>* best = &none;
		for (uint32_t i = 0; i < e->n; i++)
		{
			auto& v = varsOf(e->op[i]);
			if (v.size() > best->size())
				best = &v;
		}
		bool need = false;
		for (uint32_t i = 0; i < e->n && !need; i++)
		{
			auto& v = varsOf(e->op[i]);
			if (&v != best && !std::includes(best->begin(), best->end(), v.begin(), v.end()))
				need = true;
		}
		if (!need)
		{
			e->vars = best;
			return *best;
		}
		std::vector<uint32_t> out;
		for (uint32_t i = 0; i < e->n; i++)
		{
			auto& v = varsOf(e->op[i]);
			std::vector<uint32_t> t;
			std::set_union(out.begin(), out.end(), v.begin(), v.end(), std::back_inserter(t));
			out.swap(t);
		}
		e->vars = new std::vector<uint32_t>(std::move(out));
		return *e->vars;
	}

	// ---------------------------------------------------------------- linear normal form
	namespace
	{
		struct Lin
		{
			// small ordered map by id
			std::vector<std::pair<E, APInt>> t;
			APInt c;
			uint32_t w;
			explicit Lin(uint32_t w_)
				: c(w_, 0),
				  w(w_)
			{}
			void addTerm(E e, const APInt& k)
			{
				for (auto& p : t)
					if (p.first == e)
					{
						p.second += k;
						return;
					}
				t.emplace_back(e, k);
			}
		};

		void linCollect(E e, const APInt& k, Lin& l, int depth)
		{
			if (k.isZero())
				return;
			if (e->isConst())
			{
				l.c += *e->c * k;
				return;
			}
			if (e->k == K::Add && l.t.size() < 24)
			{
				for (uint32_t i = 0; i < e->n; i++)
					linCollect(e->op[i], k, l, depth + 1);
				return;
			}
			if (e->k == K::Mul && e->op[0]->isConst())
			{
				linCollect(e->op[1], k * *e->op[0]->c, l, depth + 1);
				return;
			}
			if (e->k == K::Not)
			{
				// ~x = -x - 1
				l.c -= k;
				linCollect(e->op[0], -k, l, depth + 1);
				return;
			}
			if (e->k == K::Concat)
			{
				// strip constant pieces
				// shift form: Concat(Extract(y,0,w-s), 0_s)
				E hi = e->op[0], lo = e->op[1];
				if (lo->isZero() && hi->k == K::Extract && hi->aux == 0 && hi->op[0]->w == e->w)
				{
					APInt kk = k;
					kk <<= lo->w;
					linCollect(hi->op[0], kk, l, depth + 1);
					return;
				}
				// gather pieces
				APInt cc(e->w, 0);
				uint32_t pos = e->w;
				E cur		 = e;
				std::vector<E> pieces;
				bool nz = false;
				while (true)
				{
					E h = cur->k == K::Concat ? cur->op[0] : cur;
					pos -= h->w;
					if (h->isConst())
					{
						if (!h->isZero())
							nz = true;
						cc |= h->c->zext(e->w).shl(pos);
						pieces.push_back(mkConst(h->w, 0));
					}
					else
						pieces.push_back(h);
					if (cur->k != K::Concat)
						break;
					cur = cur->op[1];
				}
				if (nz)
				{
					l.c += cc * k;
					E r = pieces.back();
					for (int i = (int)pieces.size() - 2; i >= 0; i--)
						r = mkConcat(pieces[i], r);
					l.addTerm(r, k);
					return;
				}
			}
			l.addTerm(e, k);
		}

		E mkMulRaw(E c, E t) // const * term
		{
			if (c->isOne())
				return t;
			if (c->c->isPowerOf2())
				return mkShl(t, mkConst(t->w, c->c->logBase2()));
			return intern2(K::Mul, t->w, 0, c, t);
		}

		E linBuild(Lin& l)
		{
			std::vector<std::pair<E, APInt>> t;
			for (auto& p : l.t)
				if (!p.second.isZero())
					t.push_back(p);
			if (t.empty())
				return mkConst(l.c);
			std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
			if (t.size() == 1)
			{
				if (l.c.isZero())
					return mkMulRaw(mkConst(t[0].second), t[0].first);
				if (t[0].second.isAllOnes() && l.c.isAllOnes())
					return mkNot(t[0].first);
			}
			std::vector<E> ops;
			for (auto& p : t)
				ops.push_back(mkMulRaw(mkConst(p.second), p.first));
			std::sort(ops.begin(), ops.end(), [](E a, E b) { return a->id < b->id; });
			if (!l.c.isZero())
				ops.push_back(mkConst(l.c));
			// disjoint bits => or
			if (ops.size() == 2)
			{
				if (KnownBits::haveNoCommonBitsSet(known(ops[0]), known(ops[1])))
					return mkOr(ops[0], ops[1]);
			}
			return intern(K::Add, l.w, 0, ops.data(), (uint32_t)ops.size());
		}
	}

	E mkAdd(E a, E b)
	{
		if (a->isConst() && b->isConst())
			return mkConst(*a->c + *b->c);
		if (a->isZero())
			return b;
		if (b->isZero())
			return a;
		if (a->w == 1)
			return mkXor(a, b);
		if (a->isConst() && smallIte(b))
			return mapLeaves(b, [&](E x) { return mkConst(*x->c + *a->c); });
		if (b->isConst() && smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(*x->c + *b->c); });
		Lin l(a->w);
		APInt one(a->w, 1);
		linCollect(a, one, l, 0);
		linCollect(b, one, l, 0);
		return linBuild(l);
	}
	E mkNeg(E a)
	{
		return mkSub(mkConst(a->w, 0), a);
	}
	E mkSub(E a, E b)
	{
		if (a->isConst() && b->isConst())
			return mkConst(*a->c - *b->c);
		if (b->isZero())
			return a;
		if (a == b)
			return mkConst(a->w, 0);
		if (a->w == 1)
			return mkXor(a, b);
		if (a->isConst() && smallIte(b))
			return mapLeaves(b, [&](E x) { return mkConst(*a->c - *x->c); });
		if (b->isConst() && smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(*x->c - *b->c); });
		Lin l(a->w);
		linCollect(a, APInt(a->w, 1), l, 0);
		linCollect(b, APInt::getAllOnes(a->w), l, 0);
		return linBuild(l);
	}
	E mkMul(E a, E b)
	{
		if (a->isConst() && b->isConst())
			return mkConst(*a->c * *b->c);
		if (b->isConst())
			std::swap(a, b);
		if (a->w == 1)
			return mkAnd(a, b);
		if (a->isConst())
		{
			if (a->isZero())
				return a;
			if (a->isOne())
				return b;
			if (smallIte(b))
				return mapLeaves(b, [&](E x) { return mkConst(*x->c * *a->c); });
			Lin l(a->w);
			linCollect(b, *a->c, l, 0);
			return linBuild(l);
		}
		// pull constant factors out
		if (a->k == K::Mul && a->op[0]->isConst())
			return mkMul(a->op[0], mkMul(a->op[1], b));
		if (b->k == K::Mul && b->op[0]->isConst())
			return mkMul(b->op[0], mkMul(a, b->op[1]));
		// bool * x
		auto boolFactor = [](E x) -> E {
			if (x->k == K::Concat && x->op[0]->isZero() && x->op[1]->w == 1)
				return x->op[1];
			return nullptr;
		};
		if (E c = boolFactor(a))
			return mkIte(c, b, mkConst(b->w, 0));
		if (E c = boolFactor(b))
			return mkIte(c, a, mkConst(a->w, 0));
		// (x << k) * y
		for (int side = 0; side < 2; side++)
		{
			E sh = side ? b : a, y = side ? a : b;
			if (sh->k == K::Concat && sh->op[1]->isZero())
			{
				uint32_t k = sh->op[1]->w;
				return mkConcat(mkMul(sh->op[0], mkExtract(y, 0, sh->w - k)), sh->op[1]);
			}
		}
		if (a->id > b->id)
			std::swap(a, b);
		// unsigned narrowing: both have high zero bits such that product fits in a smaller width
		unsigned la = known(a).countMinLeadingZeros(), lb = known(b).countMinLeadingZeros();
		unsigned need = (a->w - la) + (b->w - lb);
		if (need < a->w && need > 0 && a->w >= 16 && need + 8 <= a->w)
			return mkZExt(mkMul(mkExtract(a, 0, need), mkExtract(b, 0, need)), a->w);
		return intern2(K::Mul, a->w, 0, a, b);
	}

	static E narrowUDivRem(bool rem, E a, E b)
	{
		unsigned la = known(a).countMinLeadingZeros(), lb = known(b).countMinLeadingZeros();
		unsigned lz = std::min(la, lb);
		if (lz >= 1 && lz < a->w)
		{
			uint32_t nw = a->w - lz;
			// division by zero semantics differ in width; only narrow when divisor provably non-zero
			if (!known(b).One.isZero())
			{
				E x = mkExtract(a, 0, nw), y = mkExtract(b, 0, nw);
				return mkZExt(rem ? mkURem(x, y) : mkUDiv(x, y), a->w);
			}
		}
		return nullptr;
	}

	E mkUDiv(E a, E b)
	{
		if (a->isConst() && b->isConst() && !b->isZero())
			return mkConst(a->c->udiv(*b->c));
		if (b->isOne())
			return a;
		if (b->isConst() && b->c->isPowerOf2())
			return mkLShr(a, mkConst(a->w, b->c->logBase2()));
		if (b->isConst() && !b->isZero() && smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(x->c->udiv(*b->c)); });
		if (b->isConst() && !b->isZero() && range(a).getUnsignedMax().ult(*b->c))
			return mkConst(a->w, 0);
		if (E r = narrowUDivRem(false, a, b))
			return r;
		return intern2(K::UDiv, a->w, 0, a, b);
	}
	E mkURem(E a, E b)
	{
		if (a->isConst() && b->isConst() && !b->isZero())
			return mkConst(a->c->urem(*b->c));
		if (b->isOne())
			return mkConst(a->w, 0);
		if (b->isConst() && b->c->isPowerOf2())
			return mkAnd(a, mkConst(*b->c - 1));
		if (b->isConst() && !b->isZero() && smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(x->c->urem(*b->c)); });
		if (b->isConst() && !b->isZero() && range(a).getUnsignedMax().ult(*b->c))
			return a;
		if (E r = narrowUDivRem(true, a, b))
			return r;
		return intern2(K::URem, a->w, 0, a, b);
	}
	E mkSDiv(E a, E b)
	{
		if (a->isConst() && b->isConst() && !b->isZero())
			return mkConst(a->c->sdiv(*b->c));
		if (b->isOne())
			return a;
		if (known(a).isNonNegative() && known(b).isNonNegative())
			return mkUDiv(a, b);
		if (b->isConst() && !b->isZero() && smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(x->c->sdiv(*b->c)); });
		return intern2(K::SDiv, a->w, 0, a, b);
	}
	E mkSRem(E a, E b)
	{
		if (a->isConst() && b->isConst() && !b->isZero())
			return mkConst(a->c->srem(*b->c));
		if (b->isOne())
			return mkConst(a->w, 0);
		if (known(a).isNonNegative() && known(b).isNonNegative())
			return mkURem(a, b);
		if (b->isConst() && !b->isZero() && smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(x->c->srem(*b->c)); });
		return intern2(K::SRem, a->w, 0, a, b);
	}

	// ---------------------------------------------------------------- bitwise
	static E notOf(E a) // structural complement if cheap
	{
		return a->k == K::Not ? a->op[0] : nullptr;
	}
	static unsigned runs(const APInt& m)
	{
		// number of maximal constant runs
		if (m.isZero() || m.isAllOnes())
			return 1;
		APInt x = m ^ m.lshr(1);
		x.clearBit(m.getBitWidth() - 1);
		return x.popcount() + 1;
	}
	static bool hasConstPiece(E e)
	{
		while (e->k == K::Concat)
		{
			if (e->op[0]->isConst())
				return true;
			e = e->op[1];
		}
		return e->isConst();
	}
	static unsigned numPieces(E e)
	{
		unsigned n = 1;
		while (e->k == K::Concat)
		{
			n++;
			e = e->op[1];
		}
		return n;
	}
	static E splitBitwise(K k, E a, E b)
	{
		// a is a Concat; split b at the same boundary
		E ah = a->op[0], al = a->op[1];
		E bh = mkExtract(b, al->w, ah->w), bl = mkExtract(b, 0, al->w);
		auto f = [&](E x, E y) { return k == K::And ? mkAnd(x, y) : k == K::Or ? mkOr(x, y) : mkXor(x, y); };
		return mkConcat(f(ah, bh), f(al, bl));
	}
	static E bitwiseConst(K k, E x, E c) // c const, x not
	{
		const APInt& m = *c->c;
		unsigned r	   = runs(m);
		if (r <= 5 && r > 1)
		{
			// build pieces from high to low
			std::vector<E> ps;
			uint32_t hi = m.getBitWidth();
			while (hi > 0)
			{
				bool bit	= m[hi - 1];
				uint32_t lo = hi - 1;
				while (lo > 0 && m[lo - 1] == bit)
					lo--;
				E p = mkExtract(x, lo, hi - lo);
				if (k == K::And)
					p = bit ? p : mkConst(hi - lo, 0);
				else if (k == K::Or)
					p = bit ? mkConst(APInt::getAllOnes(hi - lo)) : p;
				else
					p = bit ? mkNot(p) : p;
				ps.push_back(p);
				hi = lo;
			}
			E res = ps.back();
			for (int i = (int)ps.size() - 2; i >= 0; i--)
				res = mkConcat(ps[i], res);
			return res;
		}
		return nullptr;
	}
	static E bitwiseCommon(K k, E a, E b)
	{
		if (b->isConst())
			std::swap(a, b);
		if (a->isConst() && smallIte(b))
			return mapLeaves(b,
							 [&](E x) {
								 return mkConst(k == K::And	 ? *x->c & *a->c
												: k == K::Or ? *x->c | *a->c
															 : *x->c ^ *a->c);
							 });
		if (a->isConst() && a->w > 1)
		{
			if (E r = bitwiseConst(k, b, a))
				return r;
		}
		if (a->k == K::Concat && (b->k == K::Concat || b->isConst()) && numPieces(a) <= 16
			&& (hasConstPiece(a) || hasConstPiece(b)))
			return splitBitwise(k, a, b);
		if (b->k == K::Concat && a->isConst() && numPieces(b) <= 16)
			return splitBitwise(k, b, a);
		return nullptr;
	}

	// Bitwise functions of at most four operands (and constants) are canonicalised by truth table: the first form built
	// stands for all. Longer xor chains are sorted.
	namespace
	{
		struct TTKey
		{
			E l[4];
			uint64_t tt[16];
			bool operator==(const TTKey& o) const { return !memcmp(l, o.l, sizeof l) && !memcmp(tt, o.tt, sizeof tt); }
		};
		struct TTHash
		{
			size_t operator()(const TTKey& k) const
			{
				size_t h = 0;
				for (uint64_t t : k.tt)
					h = (h ^ t) * 0x9E3779B97F4A7C15ull + (h >> 29);
				for (E e : k.l)
					h = (h ^ (e ? e->id + 1 : 0)) * 0x100000001B3ull;
				return h;
			}
		};
		bool isBitwise(E e) { return e->k == K::And || e->k == K::Or || e->k == K::Xor || e->k == K::Not; }
		bool ttLeaves(E e, E (&l)[4], int& n, int& nodes)
		{
			if (++nodes > 24)
				return false;
			if (e->isConst())
				return true;
			if (isBitwise(e))
			{
				for (uint32_t i = 0; i < e->n; i++)
					if (!ttLeaves(e->op[i], l, n, nodes))
						return false;
				return true;
			}
			for (int i = 0; i < n; i++)
				if (l[i] == e)
					return true;
			if (n == 4)
				return false;
			l[n++] = e;
			return true;
		}
		uint64_t ttOf(E e, const E (&l)[4], int n, int j)
		{
			switch (e->k)
			{
				case K::Not: return ~ttOf(e->op[0], l, n, j);
				case K::And: return ttOf(e->op[0], l, n, j) & ttOf(e->op[1], l, n, j);
				case K::Or: return ttOf(e->op[0], l, n, j) | ttOf(e->op[1], l, n, j);
				case K::Xor: return ttOf(e->op[0], l, n, j) ^ ttOf(e->op[1], l, n, j);
				default: break;
			}
			if (e->isConst())
				return e->c->getZExtValue();
			for (int i = 0; i < n; i++)
				if (l[i] == e)
					return (j >> i) & 1 ? ~0ull : 0;
			return 0;
		}
	}
	static E bitCanon(K k, E a, E b)
	{
		if (a->w == 1 || a->w > 64 || !(isBitwise(a) || isBitwise(b)))
			return intern2(k, a->w, 0, a, b);
		static std::unordered_map<TTKey, E, TTHash> memo;
		E l[4]	= {};
		int n	= 0, nodes = 0;
		if (ttLeaves(a, l, n, nodes) && ttLeaves(b, l, n, nodes))
		{
			std::sort(l, l + n, [](E x, E y) { return x->id < y->id; });
			TTKey key{};
			const uint64_t mask = a->w == 64 ? ~0ull : (1ull << a->w) - 1;
			const int N			= 1 << n;
			auto compute		= [&] {
				   memset(&key, 0, sizeof key);
				   for (int i = 0; i < n; i++)
					   key.l[i] = l[i];
				   for (int j = 0; j < (1 << n); j++)
				   {
					   const uint64_t x = ttOf(a, l, n, j), y = ttOf(b, l, n, j);
					   key.tt[j]		= (k == K::And ? x & y : k == K::Or ? x | y : x ^ y) & mask;
				   }
			};
			compute();
			bool same = true;
			for (int j = 1; j < N; j++)
				same = same && key.tt[j] == key.tt[0];
			if (same)
				return mkConst(a->w, key.tt[0]);
			for (int i = 0; i < n; i++)
			{
				bool pos = true, neg = true;
				for (int j = 0; j < N; j++)
				{
					const uint64_t v = (j >> i) & 1 ? mask : 0;
					pos				 = pos && key.tt[j] == v;
					neg				 = neg && key.tt[j] == (v ^ mask);
				}
				if (pos)
					return l[i];
				if (neg)
					return mkNot(l[i]);
			}
			auto it = memo.find(key);
			if (it != memo.end())
				return it->second;
			TTKey neg = key;
			for (int j = 0; j < N; j++)
				neg.tt[j] ^= mask;
			it = memo.find(neg);
			if (it != memo.end())
				return mkNot(it->second);
			E r = intern2(k, a->w, 0, a, b);
			memo.emplace(key, r);
			return r;
		}
		if (k == K::Xor)
		{
			std::vector<E> t;
			std::vector<E> st{ a, b };
			bool flip = false;
			while (!st.empty() && t.size() <= 16)
			{
				E e = st.back();
				st.pop_back();
				if (e->k == K::Xor)
				{
					st.push_back(e->op[0]);
					st.push_back(e->op[1]);
				}
				else if (e->k == K::Not)
				{
					flip = !flip;
					st.push_back(e->op[0]);
				}
				else
					t.push_back(e);
			}
			if (st.empty() && t.size() <= 16)
			{
				std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; });
				std::vector<E> u;
				for (E e : t)
					if (!u.empty() && u.back() == e)
						u.pop_back();
					else
						u.push_back(e);
				APInt c(a->w, 0);
				E r = nullptr;
				for (E e : u)
					if (e->isConst())
						c ^= *e->c;
					else
						r = !r ? e : r->id < e->id ? intern2(K::Xor, a->w, 0, r, e) : intern2(K::Xor, a->w, 0, e, r);
				if (!r)
					r = mkConst(c);
				else if (!c.isZero())
					r = intern2(K::Xor, a->w, 0, mkConst(c), r);
				return flip ? mkNot(r) : r;
			}
		}
		return intern2(k, a->w, 0, a, b);
	}

	E mkAnd(E a, E b)
	{
		if (a->isConst() && b->isConst())
			return mkConst(*a->c & *b->c);
		if (a == b)
			return a;
		if (a->isZero() || b->isZero())
			return mkConst(a->w, 0);
		if (a->isAllOnes())
			return b;
		if (b->isAllOnes())
			return a;
		if (notOf(a) == b || notOf(b) == a)
			return mkConst(a->w, 0);
		if (a->w == 1)
		{
			// absorption
			auto absorb = [](E x, E y) -> E {
				if (y->k == K::And && (y->op[0] == x || y->op[1] == x))
					return y;
				if (y->k == K::Or && (y->op[0] == x || y->op[1] == x))
					return x;
				if (y->k == K::Not && y->op[0]->k == K::And && (y->op[0]->op[0] == x || y->op[0]->op[1] == x))
				{ // x & !(x & z) = x & !z
					E z = y->op[0]->op[0] == x ? y->op[0]->op[1] : y->op[0]->op[0];
					return mkAnd(x, mkNot(z));
				}
				return nullptr;
			};
			if (E r = absorb(a, b))
				return r;
			if (E r = absorb(b, a))
				return r;
			// x==c1 && x==c2
			if (a->k == K::Eq && b->k == K::Eq && a->op[0]->isConst() && b->op[0]->isConst() && a->op[1] == b->op[1])
				return mkBool(false);
		}
		if (E r = bitwiseCommon(K::And, a, b))
			return r;
		if (a->w > 1)
		{
			// known-bits subsumption: if mask covers
			const KnownBits &ka = known(a), &kb = known(b);
			if ((ka.Zero | kb.Zero).isAllOnes())
				return mkConst(a->w, 0);
			if ((kb.Zero | ka.One).isAllOnes())
				return b;
			if ((ka.Zero | kb.One).isAllOnes())
				return a;
			if (a->k == K::Not && b->k == K::Not)
				return mkNot(mkOr(a->op[0], b->op[0]));
			if (a->k == K::SExt && a->op[0]->w == 1) // mask
				return mkIte(a->op[0], b, mkConst(a->w, 0));
			if (b->k == K::SExt && b->op[0]->w == 1)
				return mkIte(b->op[0], a, mkConst(a->w, 0));
		}
		if (a->id > b->id)
			std::swap(a, b);
		if (b->isConst())
			std::swap(a, b);
		if (a->isConst() && b->k == K::And && b->op[0]->isConst())
			return mkAnd(mkConst(*a->c & *b->op[0]->c), b->op[1]);
		return bitCanon(K::And, a, b);
	}
	E mkOr(E a, E b)
	{
		if (a->isConst() && b->isConst())
			return mkConst(*a->c | *b->c);
		if (a == b)
			return a;
		if (a->w == 1)
			return mkNot(mkAnd(mkNot(a), mkNot(b)));
		if (a->isAllOnes() || b->isAllOnes())
			return mkConst(APInt::getAllOnes(a->w));
		if (a->isZero())
			return b;
		if (b->isZero())
			return a;
		if (notOf(a) == b || notOf(b) == a)
			return mkConst(APInt::getAllOnes(a->w));
		if (E r = bitwiseCommon(K::Or, a, b))
			return r;
		{
			const KnownBits &ka = known(a), &kb = known(b);
			if ((ka.One | kb.One).isAllOnes())
				return mkConst(APInt::getAllOnes(a->w));
			if ((kb.One | ka.Zero).isAllOnes())
				return b;
			if ((ka.One | kb.Zero).isAllOnes())
				return a;
			if (a->k == K::Not && b->k == K::Not)
				return mkNot(mkAnd(a->op[0], b->op[0]));
		}
		if (a->id > b->id)
			std::swap(a, b);
		if (b->isConst())
			std::swap(a, b);
		if (a->isConst() && b->k == K::Or && b->op[0]->isConst())
			return mkOr(mkConst(*a->c | *b->op[0]->c), b->op[1]);
		return bitCanon(K::Or, a, b);
	}
	E mkXor(E a, E b)
	{
		if (a->isConst() && b->isConst())
			return mkConst(*a->c ^ *b->c);
		if (a == b)
			return mkConst(a->w, 0);
		if (a->isZero())
			return b;
		if (b->isZero())
			return a;
		if (a->isAllOnes())
			return mkNot(b);
		if (b->isAllOnes())
			return mkNot(a);
		if (notOf(a) == b || notOf(b) == a)
			return mkConst(APInt::getAllOnes(a->w));
		// pull nots out
		if (a->k == K::Not && b->k == K::Not)
			return mkXor(a->op[0], b->op[0]);
		if (a->k == K::Not)
			return mkNot(mkXor(a->op[0], b));
		if (b->k == K::Not)
			return mkNot(mkXor(a, b->op[0]));
		if (E r = bitwiseCommon(K::Xor, a, b))
			return r;
		if (a->k == K::Xor && (a->op[0] == b || a->op[1] == b))
			return a->op[0] == b ? a->op[1] : a->op[0];
		if (b->k == K::Xor && (b->op[0] == a || b->op[1] == a))
			return b->op[0] == a ? b->op[1] : b->op[0];
		if (a->w > 1 && KnownBits::haveNoCommonBitsSet(known(a), known(b)))
			return mkOr(a, b);
		if (a->id > b->id)
			std::swap(a, b);
		if (b->isConst())
			std::swap(a, b);
		if (a->isConst() && b->k == K::Xor && b->op[0]->isConst())
			return mkXor(mkConst(*a->c ^ *b->op[0]->c), b->op[1]);
		return bitCanon(K::Xor, a, b);
	}
	E mkNot(E a)
	{
		if (a->isConst())
			return mkConst(~*a->c);
		if (a->k == K::Not)
			return a->op[0];
		if (a->k == K::Concat)
			return mkConcat(mkNot(a->op[0]), mkNot(a->op[1]));
		if (a->k == K::SExt)
			return mkSExt(mkNot(a->op[0]), a->w);
		if (smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(~*x->c); });
		return intern1(K::Not, a->w, 0, a);
	}

	// ---------------------------------------------------------------- shifts
	E mkShl(E a, E b)
	{
		if (b->isConst())
		{
			if (b->c->uge(a->w))
				return mkConst(a->w, 0);
			uint32_t s = (uint32_t)b->u64();
			if (!s)
				return a;
			return mkConcat(mkExtract(a, 0, a->w - s), mkConst(s, 0));
		}
		if (a->isZero())
			return a;
		if (smallIte(b))
			return mapLeaves(b, [&](E x) { return mkShl(a, x); });
		return intern2(K::Shl, a->w, 0, a, b);
	}
	E mkLShr(E a, E b)
	{
		if (b->isConst())
		{
			if (b->c->uge(a->w))
				return mkConst(a->w, 0);
			uint32_t s = (uint32_t)b->u64();
			if (!s)
				return a;
			return mkConcat(mkConst(s, 0), mkExtract(a, s, a->w - s));
		}
		if (a->isZero())
			return a;
		if (smallIte(b))
			return mapLeaves(b, [&](E x) { return mkLShr(a, x); });
		return intern2(K::LShr, a->w, 0, a, b);
	}
	E mkAShr(E a, E b)
	{
		if (b->isConst())
		{
			uint32_t s = b->c->uge(a->w) ? a->w - 1 : (uint32_t)b->u64();
			if (!s)
				return a;
			return mkSExt(mkExtract(a, s, a->w - s), a->w);
		}
		if (a->isZero() || a->isAllOnes())
			return a;
		if (known(a).isNonNegative())
			return mkLShr(a, b);
		if (smallIte(b))
			return mapLeaves(b, [&](E x) { return mkAShr(a, x); });
		return intern2(K::AShr, a->w, 0, a, b);
	}

	// ---------------------------------------------------------------- concat / extract
	E mkConcat(E hi, E lo)
	{
		if (hi->isConst() && lo->isConst())
			return mkConst(hi->c->concat(*lo->c));
		if (hi->k == K::Concat)
			return mkConcat(hi->op[0], mkConcat(hi->op[1], lo));
		if (hi->isConst() && lo->k == K::Concat && lo->op[0]->isConst())
			return mkConcat(mkConst(hi->c->concat(*lo->op[0]->c)), lo->op[1]);
		if (hi->isConst() && smallIte(lo, 8))
			return mapLeaves(lo, [&](E x) { return mkConst(hi->c->concat(*x->c)); });
		if (lo->isConst() && smallIte(hi, 8))
			return mapLeaves(hi, [&](E x) { return mkConst(x->c->concat(*lo->c)); });
		// merge adjacent pieces of the same expression
		auto piece = [](E p, E& base, uint32_t& l, uint32_t& w) {
			if (p->k == K::Extract)
				base = p->op[0], l = p->aux, w = p->w;
			else
				base = p, l = 0, w = p->w;
		};
		E lh = lo->k == K::Concat ? lo->op[0] : lo;
		if (!hi->isConst() && !lh->isConst())
		{
			E b1, b2;
			uint32_t l1, w1, l2, w2;
			piece(hi, b1, l1, w1);
			piece(lh, b2, l2, w2);
			E m = nullptr;
			if (b1 == b2 && l1 == l2 + w2)
				m = mkExtract(b1, l2, w1 + w2);
			else if (hi->k == K::Not && lh->k == K::Not)
			{
				piece(hi->op[0], b1, l1, w1);
				piece(lh->op[0], b2, l2, w2);
				if (b1 == b2 && l1 == l2 + w2)
					m = mkNot(mkExtract(b1, l2, w1 + w2));
			}
			// trunc of a narrower-simplified value: hi = Extract(x, l, w), lo == x's own low part computed via push-through
			if (!m && hi->k == K::Extract && hi->aux == lh->w && mkExtract(hi->op[0], 0, lh->w) == lh)
				m = mkExtract(hi->op[0], 0, hi->w + lh->w);
			// sign extension recognition: hi = SExt(Extract(x, top,1)) over x
			if (!m && hi->k == K::SExt && hi->op[0]->w == 1 && hi->op[0] == mkExtract(lh, lh->w - 1, 1) && lh == lo)
				m = mkSExt(lh, hi->w + lh->w);
			if (!m && hi->k == K::SExt && hi->op[0]->w == 1 && lh->k == K::SExt && lh->op[0]->w == 1 && hi->op[0] == lh->op[0])
				m = mkSExt(hi->op[0], hi->w + lh->w);
			if (m)
				return lh == lo ? m : mkConcat(m, lo->op[1]);
		}
		// common condition
		if (hi->k == K::Ite && lh->k == K::Ite && hi->op[0] == lh->op[0])
		{
			E m = mkIte(hi->op[0], mkConcat(hi->op[1], lh->op[1]), mkConcat(hi->op[2], lh->op[2]));
			return lh == lo ? m : mkConcat(m, lo->op[1]);
		}
		return intern2(K::Concat, hi->w + lo->w, 0, hi, lo);
	}

	E mkExtract(E a, uint32_t lo, uint32_t w)
	{
		if (lo == 0 && w == a->w)
			return a;
		if (lo + w > a->w || w == 0)
		{
			fprintf(stderr, "bad extract %u %u of %u\n", lo, w, a->w);
			abort();
		}
		switch (a->k)
		{
			case K::Const: return mkConst(a->c->extractBits(w, lo));
			case K::Extract: return mkExtract(a->op[0], a->aux + lo, w);
			case K::Concat:
			{
				E h = a->op[0], l = a->op[1];
				if (lo + w <= l->w)
					return mkExtract(l, lo, w);
				if (lo >= l->w)
					return mkExtract(h, lo - l->w, w);
				return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
			}
			case K::SExt:
			{
				E x = a->op[0];
				if (lo + w <= x->w)
					return mkExtract(x, lo, w);
				if (lo < x->w)
					return mkSExt(mkExtract(x, lo, x->w - lo), w);
				return mkSExt(mkExtract(x, x->w - 1, 1), w);
			}
			case K::Not: return mkNot(mkExtract(a->op[0], lo, w));
			case K::And:
			case K::Or:
			case K::Xor:
			{
				auto splitAt = [&](E x) { return x->isConst() || (x->k == K::Concat && (x->op[1]->w == lo || (lo == 0 && x->op[1]->w == w))); };
				if (a->op[0]->isConst() || w <= 8 || (splitAt(a->op[0]) && splitAt(a->op[1])) || (lo == 0 && (a->op[0]->k == K::Concat || a->op[1]->k == K::Concat)))
				{
					E x = mkExtract(a->op[0], lo, w), y = mkExtract(a->op[1], lo, w);
					return a->k == K::And ? mkAnd(x, y) : a->k == K::Or ? mkOr(x, y) : mkXor(x, y);
				}
				break;
			}
			case K::Add:
			case K::Mul:
				if (lo == 0)
				{
					bool good = true;
					for (uint32_t i = 0; i < a->n && good; i++)
					{
						E o = a->op[i];
						E x = o;
						if (o->k == K::Mul && o->op[0]->isConst())
							x = o->op[1];
						good = x->isConst() || (x->k == K::SExt && x->op[0]->w <= w)
							|| (x->k == K::Concat && x->op[0]->isZero() && x->op[1]->w <= w)
							|| (x->k == K::Concat && (x->op[1]->isZero() || x->op[1]->w >= w));
					}
					if (good)
					{
						E r = nullptr;
						for (uint32_t i = 0; i < a->n; i++)
						{
							E x = mkExtract(a->op[i], 0, w);
							r	= !r ? x : a->k == K::Add ? mkAdd(r, x) : mkMul(r, x);
						}
						return r;
					}
				}
				break;
			case K::Ite:
				if (smallIte(a, 64))
					return mapLeaves(a, [&](E x) { return mkConst(x->c->extractBits(w, lo)); });
				if (a->op[1]->isConst() || a->op[2]->isConst() || a->op[1]->k == K::Concat || a->op[2]->k == K::Concat
					|| a->op[1]->k == K::SExt || a->op[2]->k == K::SExt)
					return mkIte(a->op[0], mkExtract(a->op[1], lo, w), mkExtract(a->op[2], lo, w));
				break;
			case K::FNeg:
				if (lo + w < a->w)
					return mkExtract(a->op[0], lo, w);
				break;
			case K::FAbs:
				if (lo + w < a->w)
					return mkExtract(a->op[0], lo, w);
				if (w == 1)
					return mkBool(false);
				break;
			default: break;
		}
		{
			const KnownBits& kb = known(a);
			KnownBits x			= kb.extractBits(w, lo);
			if (x.isConstant())
				return mkConst(x.getConstant());
			// Add of disjoint-known-low bits etc: high zero part
			unsigned lz = x.countMinLeadingZeros();
			if (lz > 0 && lz < w)
				return mkConcat(mkConst(lz, 0), mkExtract(a, lo, w - lz));
		}
		return intern1(K::Extract, w, lo, a);
	}
	E mkZExt(E a, uint32_t w)
	{
		if (w == a->w)
			return a;
		return mkConcat(mkConst(w - a->w, 0), a);
	}
	E mkSExt(E a, uint32_t w)
	{
		if (w == a->w)
			return a;
		if (a->isConst())
			return mkConst(a->c->sext(w));
		if (a->k == K::SExt)
			return mkSExt(a->op[0], w);
		if (known(a).isNonNegative())
			return mkZExt(a, w);
		if (smallIte(a))
			return mapLeaves(a, [&](E x) { return mkConst(x->c->sext(w)); });
		return intern1(K::SExt, w, 0, a);
	}
	E mkTrunc(E a, uint32_t w)
	{
		return mkExtract(a, 0, w);
	}
	E mkZExtOrTrunc(E a, uint32_t w)
	{
		return w > a->w ? mkZExt(a, w) : mkTrunc(a, w);
	}

	// ---------------------------------------------------------------- comparisons
	E mkEq(E a, E b)
	{
		if (a == b)
			return mkBool(true);
		if (a->isConst() && b->isConst())
			return mkBool(*a->c == *b->c);
		if (b->isConst())
			std::swap(a, b);
		if (a->w == 1)
		{
			if (a->isConst())
				return a->isOne() ? b : mkNot(b);
			return mkNot(mkXor(a, b));
		}
		{
			const KnownBits &ka = known(a), &kb = known(b);
			if (ka.Zero.intersects(kb.One) || ka.One.intersects(kb.Zero))
				return mkBool(false);
			if (range(a).intersectWith(range(b)).isEmptySet())
				return mkBool(false);
		}
		if (a->isConst())
		{
			if (b->k == K::Ite)
			{
				if (b->cleaves)
					return mapLeaves(b, [&](E x) { return mkBool(*x->c == *a->c); });
				if (b->op[1]->isConst() || b->op[2]->isConst())
					return mkIte(b->op[0], mkEq(b->op[1], a), mkEq(b->op[2], a));
			}
			if (b->k == K::Not)
				return mkEq(b->op[0], mkConst(~*a->c));
			if (b->k == K::SExt)
			{
				APInt t = a->c->trunc(b->op[0]->w);
				if (t.sext(b->w) == *a->c)
					return mkEq(b->op[0], mkConst(t));
				return mkBool(false);
			}
			if (b->k == K::Xor && a->isZero())
				return mkEq(b->op[0], b->op[1]);
			if (b->k == K::Xor && b->op[0]->isConst())
				return mkEq(b->op[1], mkConst(*a->c ^ *b->op[0]->c));
			if (b->k == K::Or && a->isZero())
				return mkAnd(mkEq(b->op[0], a), mkEq(b->op[1], a));
			if (b->k == K::And && a->isAllOnes())
				return mkAnd(mkEq(b->op[0], a), mkEq(b->op[1], a));
			if (b->k == K::Add && b->op[b->n - 1]->isConst())
			{
				E d = mkSub(b, b->op[b->n - 1]);
				return mkEq(mkSub(a, b->op[b->n - 1]), d);
			}
			if (b->k == K::Mul && b->op[0]->isConst() && (*b->op[0]->c)[0])
			{
				APInt m	  = *b->op[0]->c;
				APInt inv = m; // newton
				for (int i = 0; i < 10; i++)
					inv = inv * (APInt(m.getBitWidth(), 2) - m * inv);
				return mkEq(b->op[1], mkConst(*a->c * inv));
			}
		}
		// concat splitting
		auto concatLike = [](E x) { return x->k == K::Concat || x->isConst(); };
		if ((a->k == K::Concat && concatLike(b)) || (b->k == K::Concat && concatLike(a)))
		{
			E c = a->k == K::Concat ? a : b, d = c == a ? b : a;
			if (d->isConst() || (hasConstPiece(c) || hasConstPiece(d)) || c->op[0]->w == d->op[0]->w)
			{
				E dh = mkExtract(d, c->op[1]->w, c->op[0]->w), dl = mkExtract(d, 0, c->op[1]->w);
				return mkAnd(mkEq(c->op[0], dh), mkEq(c->op[1], dl));
			}
		}
		if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w)
			return mkEq(a->op[0], b->op[0]);
		if (a->k == K::SExt && b->k == K::SExt)
		{
			uint32_t m = std::max(a->op[0]->w, b->op[0]->w);
			if (m < a->w)
				return mkEq(mkSExt(a->op[0], m), mkSExt(b->op[0], m));
		}
		if (a->k == K::Not && b->k == K::Not)
			return mkEq(a->op[0], b->op[0]);
		if ((a->k == K::Add || b->k == K::Add) && !a->isConst() && !b->isConst())
		{
			Lin l(a->w);
			linCollect(a, APInt(a->w, 1), l, 0);
			linCollect(b, APInt::getAllOnes(a->w), l, 0);
			size_t nz = 0;
			for (auto& p : l.t)
				if (!p.second.isZero())
					nz++;
			size_t before = (a->k == K::Add ? a->n : 1) + (b->k == K::Add ? b->n : 1);
			if (nz == 0)
				return mkBool(l.c.isZero());
			if (nz < before)
			{
				// rebuild both sides: positive terms left, negative right
				Lin L(a->w), R(a->w);
				for (auto& p : l.t)
				{
					if (p.second.isZero())
						continue;
					if (p.second.isNegative())
						R.addTerm(p.first, -p.second);
					else
						L.addTerm(p.first, p.second);
				}
				R.c	 = -l.c;
				E x	 = linBuild(L), y = linBuild(R);
				if (!(x->k == K::Add && y->k == K::Add) || nz + 1 < before)
				{
					if ((x == a && y == b) || (x == b && y == a))
						;
					else
						return mkEq(x, y);
				}
			}
		}
		if (a->k == K::Ite && b->k == K::Ite && a->op[0] == b->op[0])
			return mkIte(a->op[0], mkEq(a->op[1], b->op[1]), mkEq(a->op[2], b->op[2]));
		if (a->k == K::Ite && (a->op[1] == b || a->op[2] == b))
			return mkIte(a->op[0], mkEq(a->op[1], b), mkEq(a->op[2], b));
		if (b->k == K::Ite && (b->op[1] == a || b->op[2] == a))
			return mkIte(b->op[0], mkEq(b->op[1], a), mkEq(b->op[2], a));
		if (!a->isConst() && a->id > b->id)
			std::swap(a, b);
		return intern2(K::Eq, 1, 0, a, b);
	}
	E mkNe(E a, E b)
	{
		return mkNot(mkEq(a, b));
	}

	static E cmpLift(K k, E a, E b)
	{
		auto f = [&](E x, E y) {
			switch (k)
			{
				case K::Ult: return mkUlt(x, y);
				case K::Ule: return mkUle(x, y);
				case K::Slt: return mkSlt(x, y);
				default: return mkSle(x, y);
			}
		};
		if (a->isConst() && b->k == K::Ite && b->cleaves)
			return mapLeaves(b, [&](E x) { return f(a, x); });
		if (b->isConst() && a->k == K::Ite && a->cleaves)
			return mapLeaves(a, [&](E x) { return f(x, b); });
		if (a->isConst() && b->k == K::Ite && (b->op[1]->isConst() || b->op[2]->isConst()))
			return mkIte(b->op[0], f(a, b->op[1]), f(a, b->op[2]));
		if (b->isConst() && a->k == K::Ite && (a->op[1]->isConst() || a->op[2]->isConst()))
			return mkIte(a->op[0], f(a->op[1], b), f(a->op[2], b));
		if (a->k == K::Ite && (a->op[1] == b || a->op[2] == b))
			return mkIte(a->op[0], f(a->op[1], b), f(a->op[2], b));
		if (b->k == K::Ite && (b->op[1] == a || b->op[2] == a))
			return mkIte(b->op[0], f(a, b->op[1]), f(a, b->op[2]));
		return nullptr;
	}

	E mkUlt(E a, E b)
	{
		if (a == b)
			return mkBool(false);
		if (a->isConst() && b->isConst())
			return mkBool(a->c->ult(*b->c));
		if (a->w == 1)
			return mkAnd(mkNot(a), b);
		if (b->isZero() || a->isAllOnes())
			return mkBool(false);
		if (b->isOne())
			return mkEq(a, mkConst(a->w, 0));
		if (a->isZero())
			return mkNe(b, a);
		const ConstantRange &ra = range(a), &rb = range(b);
		if (ra.getUnsignedMax().ult(rb.getUnsignedMin()))
			return mkBool(true);
		if (ra.getUnsignedMin().uge(rb.getUnsignedMax()))
			return mkBool(false);
		if (E r = cmpLift(K::Ult, a, b))
			return r;
		// canonical: const on one side -> Ule flips so that Ult(x, c) preferred over Ule(x, c-1)
		if (a->isConst() && !b->isConst()) // c < x  ==  !(x < c+1)
			return mkNot(mkUlt(b, mkConst(*a->c + 1)));
		// equal high parts
		if (a->k == K::Concat || b->k == K::Concat)
		{
			E c		  = a->k == K::Concat ? a : b;
			E o		  = c == a ? b : a;
			uint32_t hw = c->op[0]->w, lw = c->op[1]->w;
			if (c->op[0]->isConst() || o->k == K::Concat)
			{
				E oh = mkExtract(o, lw, hw);
				if (oh == c->op[0])
				{
					E ol = mkExtract(o, 0, lw);
					return c == a ? mkUlt(c->op[1], ol) : mkUlt(ol, c->op[1]);
				}
			}
			// low zero bits common: Concat(x,0) < Concat(y,0)
			if (a->k == K::Concat && b->isConst())
			{
				// find trailing constant piece
				E t = a;
				while (t->k == K::Concat)
					t = t->op[1];
				if (t->isConst())
				{
					// (x . t) < (ch . cl)  <=>  x < ch || (x == ch && t < cl)
					uint32_t s = t->w;
					E x		   = mkExtract(a, s, a->w - s);
					E ch	   = mkExtract(b, s, a->w - s);
					bool lowlt = t->c->ult(b->c->trunc(s));
					return lowlt ? mkUle(x, ch) : mkUlt(x, ch);
				}
			}
		}
		unsigned lz = std::min(known(a).countMinLeadingZeros(), known(b).countMinLeadingZeros());
		if (lz > 0 && lz < a->w)
			return mkUlt(mkExtract(a, 0, a->w - lz), mkExtract(b, 0, a->w - lz));
		// Ult(Add(x, c), d) range checks are left as-is
		return intern2(K::Ult, 1, 0, a, b);
	}
	E mkUle(E a, E b)
	{
		if (a == b)
			return mkBool(true);
		if (a->isConst() && b->isConst())
			return mkBool(a->c->ule(*b->c));
		if (b->isConst())
		{
			if (b->isAllOnes())
				return mkBool(true);
			return mkUlt(a, mkConst(*b->c + 1));
		}
		if (a->isConst())
		{
			if (a->isZero())
				return mkBool(true);
			E lt = mkUlt(b, a);
			return mkNot(lt);
		}
		if (a->w == 1)
			return mkOr(mkNot(a), b);
		const ConstantRange &ra = range(a), &rb = range(b);
		if (ra.getUnsignedMax().ule(rb.getUnsignedMin()))
			return mkBool(true);
		if (ra.getUnsignedMin().ugt(rb.getUnsignedMax()))
			return mkBool(false);
		if (E r = cmpLift(K::Ule, a, b))
			return r;
		unsigned lz = std::min(known(a).countMinLeadingZeros(), known(b).countMinLeadingZeros());
		if (lz > 0 && lz < a->w)
			return mkUle(mkExtract(a, 0, a->w - lz), mkExtract(b, 0, a->w - lz));
		// represent as Not(Ult(b,a)) raw
		E lt = intern2(K::Ult, 1, 0, b, a);
		return intern1(K::Not, 1, 0, lt);
	}
	E mkSlt(E a, E b)
	{
		if (a == b)
			return mkBool(false);
		if (a->isConst() && b->isConst())
			return mkBool(a->c->slt(*b->c));
		if (a->w == 1)
			return mkAnd(a, mkNot(b));
		const KnownBits &ka = known(a), &kb = known(b);
		if ((ka.isNonNegative() && kb.isNonNegative()) || (ka.isNegative() && kb.isNegative()))
			return mkUlt(a, b);
		if (b->isZero())
			return mkExtract(a, a->w - 1, 1);
		if (a->isAllOnes())
			return mkNot(mkExtract(b, b->w - 1, 1));
		const ConstantRange &ra = range(a), &rb = range(b);
		if (ra.getSignedMax().slt(rb.getSignedMin()))
			return mkBool(true);
		if (ra.getSignedMin().sge(rb.getSignedMax()))
			return mkBool(false);
		if (E r = cmpLift(K::Slt, a, b))
			return r;
		if (a->k == K::SExt || b->k == K::SExt)
		{
			auto inner = [](E x) -> uint32_t {
				if (x->k == K::SExt)
					return x->op[0]->w;
				if (x->isConst())
					return x->c->getSignificantBits();
				if (x->k == K::Concat && x->op[0]->isZero())
					return x->op[1]->w + 1;
				return x->w;
			};
			uint32_t m = std::max(inner(a), inner(b));
			if (m < a->w)
				return mkSlt(mkExtract(a, 0, m), mkExtract(b, 0, m));
		}
		if (a->isConst() && !b->isConst())
		{
			// c < x  == !(x < c+1)
			return mkNot(mkSlt(b, mkConst(*a->c + 1)));
		}
		return intern2(K::Slt, 1, 0, a, b);
	}
	E mkSle(E a, E b)
	{
		if (a == b)
			return mkBool(true);
		if (a->isConst() && b->isConst())
			return mkBool(a->c->sle(*b->c));
		if (b->isConst())
		{
			if (b->c->isMaxSignedValue())
				return mkBool(true);
			return mkSlt(a, mkConst(*b->c + 1));
		}
		if (a->isConst())
		{
			if (a->c->isMinSignedValue())
				return mkBool(true);
			return mkNot(mkSlt(b, a));
		}
		const KnownBits &ka = known(a), &kb = known(b);
		if ((ka.isNonNegative() && kb.isNonNegative()) || (ka.isNegative() && kb.isNegative()))
			return mkUle(a, b);
		const ConstantRange &ra = range(a), &rb = range(b);
		if (ra.getSignedMax().sle(rb.getSignedMin()))
			return mkBool(true);
		if (ra.getSignedMin().sgt(rb.getSignedMax()))
			return mkBool(false);
		if (E r = cmpLift(K::Sle, a, b))
			return r;
		E lt = mkSlt(b, a);
		if (lt->k == K::Slt)
			return intern1(K::Not, 1, 0, lt);
		return mkNot(lt);
	}

	E mkImplies(E a, E b)
	{
		return mkOr(mkNot(a), b);
	}

	E mkIte(E c, E a, E b)
	{
		if (c->isConst())
			return c->isOne() ? a : b;
		if (a == b)
			return a;
		if (c->k == K::Not)
			return mkIte(c->op[0], b, a);
		if (a->w == 1)
		{
			if (a->isConst())
				return a->isOne() ? mkOr(c, b) : mkAnd(mkNot(c), b);
			if (b->isConst())
				return b->isOne() ? mkOr(mkNot(c), a) : mkAnd(c, a);
			if (a == c)
				return mkOr(c, b);
			if (b == c)
				return mkAnd(c, a);
			if (notOf(a) == b || notOf(b) == a)
				return mkEq(c, a); // c ? a : !a  == (c == a)
		}
		if (a->k == K::Ite && a->op[0] == c)
			return mkIte(c, a->op[1], b);
		if (b->k == K::Ite && b->op[0] == c)
			return mkIte(c, a, b->op[2]);
		if (a->k == K::Ite && a->op[2] == b) // c ? (d ? x : b) : b
			return mkIte(mkAnd(c, a->op[0]), a->op[1], b);
		if (a->k == K::Ite && a->op[1] == b) // c ? (d ? b : x) : b
			return mkIte(mkAnd(c, mkNot(a->op[0])), a->op[2], b);
		if (b->k == K::Ite && b->op[1] == a) // c ? a : (d ? a : x)
			return mkIte(mkOr(c, b->op[0]), a, b->op[2]);
		if (b->k == K::Ite && b->op[2] == a) // c ? a : (d ? x : a)
			return mkIte(mkOr(c, mkNot(b->op[0])), a, b->op[1]);
		// c = (x == k) ? k : x -> x
		if (c->k == K::Eq && c->op[0] == a && c->op[1] == b)
			return b;
		if (c->k == K::Eq && c->op[1] == a && c->op[0] == b)
			return b;
		if (a->w > 1)
		{
			// constants 1/0, -1/0
			if (a->isConst() && b->isConst())
			{
				if (b->isZero() && a->isOne())
					return mkZExt(c, a->w);
				if (a->isZero() && b->isOne())
					return mkZExt(mkNot(c), a->w);
				if (b->isZero() && a->isAllOnes())
					return mkSExt(c, a->w);
				if (a->isZero() && b->isAllOnes())
					return mkSExt(mkNot(c), a->w);
			}
			// share constant pieces
			if (a->k == K::Concat && b->k == K::Concat && a->op[0]->w == b->op[0]->w
				&& (a->op[0] == b->op[0] || a->op[1] == b->op[1]))
				return mkConcat(mkIte(c, a->op[0], b->op[0]), mkIte(c, a->op[1], b->op[1]));
			if (a->k == K::Concat && b->isConst())
			{
				E bh = mkExtract(b, a->op[1]->w, a->op[0]->w);
				if (bh == a->op[0])
					return mkConcat(bh, mkIte(c, a->op[1], mkExtract(b, 0, a->op[1]->w)));
			}
			if (b->k == K::Concat && a->isConst())
			{
				E ah = mkExtract(a, b->op[1]->w, b->op[0]->w);
				if (ah == b->op[0])
					return mkConcat(ah, mkIte(c, mkExtract(a, 0, b->op[1]->w), b->op[1]));
			}
			// both zero-extended with different lengths
			if (a->k == K::Concat && b->k == K::Concat && a->op[0]->isZero() && b->op[0]->isZero())
			{
				uint32_t z = std::min(a->op[0]->w, b->op[0]->w);
				return mkConcat(mkConst(z, 0), mkIte(c, mkExtract(a, 0, a->w - z), mkExtract(b, 0, a->w - z)));
			}
			if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w)
				return mkSExt(mkIte(c, a->op[0], b->op[0]), a->w);
		}
		return intern3(K::Ite, a->w, 0, c, a, b);
	}

	// ---------------------------------------------------------------- floating point
	bool isFpKind(K k)
	{
		return (k >= K::FAdd && k <= K::UIToF);
	}
	static bool fpish(E e)
	{
		if (isFpKind(e->k))
			return true;
		if (e->k == K::Ite)
			return fpish(e->op[1]) || fpish(e->op[2]);
		return false;
	}
	static E foldF(K k, uint32_t w, uint32_t aux, std::initializer_list<E> ops)
	{
		std::vector<const APInt*> a;
		for (E o : ops)
		{
			if (!o->isConst())
				return nullptr;
			a.push_back(o->c);
		}
		return mkConst(evalOp(k, w, aux, a));
	}

	static E absBits(E a)
	{
		return mkConcat(mkBool(false), mkExtract(a, 0, a->w - 1));
	}
	static E infConst(uint32_t w)
	{
		return mkConst(APFloat::getInf(sem(w)).bitcastToAPInt());
	}
	E mkFIsNaN(E a)
	{
		if (E r = foldF(K::FIsNaN, 1, 0, { a }))
			return r;
		if (a->k == K::SIToF || a->k == K::UIToF)
			return mkBool(false);
		if (a->k == K::FNeg || a->k == K::FAbs || a->k == K::FRint)
			return mkFIsNaN(a->op[0]);
		if (a->k == K::FCvt)
			return mkFIsNaN(a->op[0]);
		if (exact(a).ok)
			return mkBool(false);
		if (a->k == K::Ite)
			return mkIte(a->op[0], mkFIsNaN(a->op[1]), mkFIsNaN(a->op[2]));
		if (!fpish(a) && a->w != 80)
			return mkUlt(infConst(a->w), absBits(a));
		return intern1(K::FIsNaN, 1, 0, a);
	}

	E mkF(K k, E a, E b)
	{
		if (E r = foldF(k, a->w, 0, { a, b }))
			return r;
		if ((k == K::FAdd || k == K::FMul) && (b->isConst() ? !a->isConst() : false))
			;
		else if ((k == K::FAdd || k == K::FMul) && (a->isConst() || a->id > b->id))
			std::swap(a, b); // commutative (NaN payloads are canonical)
		if (k == K::FMul && b->isConst() && a->w != 80)
		{
			APFloat f(sem(a->w), *b->c);
			if (f.isExactlyValue(-1.0))
				return mkFNeg(a); // NaN sign/payload not observable
		}
		if (k == K::FMul || k == K::FDiv)
		{
			// sign extraction
			if (a->k == K::FNeg && b->k == K::FNeg)
				return mkF(k, a->op[0], b->op[0]);
			if (a->k == K::FNeg)
				return mkFNeg(mkF(k, a->op[0], b));
			if (b->k == K::FNeg)
				return mkFNeg(mkF(k, a, b->op[0]));
		}
		if (k == K::FAdd)
		{
			if (b->k == K::FNeg)
				return mkF(K::FSub, a, b->op[0]);
			if (a->k == K::FNeg)
				return mkF(K::FSub, b, a->op[0]);
		}
		if (k == K::FSub && b->k == K::FNeg)
			return mkF(K::FAdd, a, b->op[0]);
		return intern2(k, a->w, 0, a, b);
	}
	E mkFAdd(E a, E b)
	{
		return mkF(K::FAdd, a, b);
	}
	E mkFSub(E a, E b)
	{
		return mkF(K::FSub, a, b);
	}
	static bool isFConst(E e, double v)
	{
		return e->isConst() && APFloat(sem(e->w), *e->c).isExactlyValue(v);
	}
	static E canonNaN(E a) // a op 1.0: quiet NaNs
	{
		return a;
	}
	E mkFMul(E a, E b)
	{
		if (isFConst(a, 1.0) && !b->isConst())
			return canonNaN(b);
		if (isFConst(b, 1.0) && !a->isConst())
			return canonNaN(a);
		return mkF(K::FMul, a, b);
	}
	// a term that stands for one whole-number (or dyadic) value other than zero whatever its variables are
	static E constantValue(E a)
	{
		if (a->isConst() || a->w == 80)
			return a;
		const ExactForm& x = exact(a);
		if (!x.ok)
			return a;
		E n = polyNormalize(x.ival);
		if (!n->isConst() || n->isZero())
			return a;
		APFloat f(sem(a->w));
		if (f.convertFromAPInt(*n->c, true, APFloat::rmNearestTiesToEven) != APFloat::opOK)
			return a;
		return mkConst(scalbn(f, x.exp, APFloat::rmNearestTiesToEven).bitcastToAPInt());
	}
	E mkFDiv(E a, E b)
	{
		b = constantValue(b);
		if (a->isConst() && b->isConst())
			if (E r = foldF(K::FDiv, a->w, 0, { a, b }))
				return r;
		if (isFConst(b, 1.0) && !a->isConst())
			return canonNaN(a);
		if (b->isConst() && !a->isConst() && a->w != 80)
		{
			APFloat inv(sem(a->w));
			if (APFloat(sem(b->w), *b->c).getExactInverse(&inv))
				return mkFMul(a, mkConst(inv.bitcastToAPInt()));
		}
		return mkF(K::FDiv, a, b);
	}
	E mkFRem(E a, E b)
	{
		return mkF(K::FRem, a, b);
	}
	E mkFSqrt(E a)
	{
		a = constantValue(a);
		if (E r = foldF(K::FSqrt, a->w, 0, { a }))
			return r;
		return intern1(K::FSqrt, a->w, 0, a);
	}
	E mkFFma(E a, E b, E c)
	{
		if (E r = foldF(K::FFma, a->w, 0, { a, b, c }))
			return r;
		return intern3(K::FFma, a->w, 0, a, b, c);
	}
	E mkFRint(E a, uint32_t mode)
	{
		if (E r = foldF(K::FRint, a->w, mode, { a }))
			return r;
		if (a->k == K::FRint || ((a->k == K::SIToF || a->k == K::UIToF)))
			return a;
		return intern1(K::FRint, a->w, mode, a);
	}
	E mkFNeg(E a)
	{
		if (E r = foldF(K::FNeg, a->w, 0, { a }))
			return r;
		if (a->k == K::FNeg)
			return a->op[0];
		if (a->k == K::FSub && false)
			return mkF(K::FSub, a->op[1], a->op[0]);
		if (a->k == K::Ite && fpish(a))
			return mkIte(a->op[0], mkFNeg(a->op[1]), mkFNeg(a->op[2]));
		if (!fpish(a))
			return mkConcat(mkNot(mkExtract(a, a->w - 1, 1)), mkExtract(a, 0, a->w - 1));
		return intern1(K::FNeg, a->w, 0, a);
	}
	E mkFAbs(E a)
	{
		if (E r = foldF(K::FAbs, a->w, 0, { a }))
			return r;
		if (a->k == K::FAbs)
			return a;
		if (a->k == K::FNeg)
			return mkFAbs(a->op[0]);
		if (a->k == K::Ite && fpish(a))
			return mkIte(a->op[0], mkFAbs(a->op[1]), mkFAbs(a->op[2]));
		if (!fpish(a))
			return absBits(a);
		return intern1(K::FAbs, a->w, 0, a);
	}
	E mkFCvt(E a, uint32_t w, uint32_t rm)
	{
		if (w == a->w)
			return a;
		if (E r = foldF(K::FCvt, w, rm, { a }))
			return r;
		if (a->k == K::FCvt && a->op[0]->w < a->w) // widening then converting
		{
			if (a->op[0]->w == w)
				return a->op[0]; // exact round trip (NaN payload aside)
			return mkFCvt(a->op[0], w, rm);
		}
		if ((a->k == K::SIToF || a->k == K::UIToF) && exact(a).ok)
			return a->k == K::SIToF ? mkSIToF(a->op[0], w) : mkUIToF(a->op[0], w);
		if (a->k == K::FNeg)
			return mkFNeg(mkFCvt(a->op[0], w, rm == 2 ? 3 : rm == 3 ? 2 : rm));
		return intern1(K::FCvt, w, rm, a);
	}
	E mkSIToF(E a, uint32_t w)
	{
		if (E r = foldF(K::SIToF, w, 0, { a }))
			return r;
		if (smallIte(a))
			return mapLeaves(a, [&](E x) { return mkSIToF(x, w); });
		if (known(a).isNonNegative())
			return mkUIToF(a, w);
		if (a->k == K::SExt)
			return mkSIToF(a->op[0], w);
		return intern1(K::SIToF, w, 0, a);
	}
	E mkUIToF(E a, uint32_t w)
	{
		if (E r = foldF(K::UIToF, w, 0, { a }))
			return r;
		if (smallIte(a))
			return mapLeaves(a, [&](E x) { return mkUIToF(x, w); });
		if (a->k == K::Concat && a->op[0]->isZero())
			return mkUIToF(a->op[1], w);
		return intern1(K::UIToF, w, 0, a);
	}
	static E exactInt(E a, uint32_t w, bool& ok) // trunc-toward-zero of exact value as w-bit int
	{
		ok				   = false;
		const ExactForm& x = exact(a);
		if (!x.ok)
			return nullptr;
		E v = x.ival;
		if (x.exp < 0)
		{
			uint32_t s = (uint32_t)-x.exp;
			if (s >= 60)
				return nullptr;
			E neg = mkExtract(v, 63, 1);
			// trunc toward zero: (v + (neg ? 2^s-1 : 0)) >> s
			E bias = mkIte(neg, mkConst(64, (1ull << s) - 1), mkConst(64, 0));
			v	   = mkAShr(mkAdd(v, bias), mkConst(64, s));
		}
		else if (x.exp > 0)
		{
			if (x.exp > 20)
				return nullptr;
			v = mkShl(v, mkConst(64, (uint64_t)x.exp));
		}
		ok = true;
		return w <= 64 ? mkTrunc(v, w) : mkSExt(v, w);
	}
	E mkFToSI(E a, uint32_t w)
	{
		if (E r = foldF(K::FToSI, w, 0, { a }))
			return r;
		bool ok;
		E r = exactInt(a, w, ok);
		if (ok)
			return r;
		return intern1(K::FToSI, w, 0, a);
	}
	E mkFToUI(E a, uint32_t w)
	{
		if (E r = foldF(K::FToUI, w, 0, { a }))
			return r;
		bool ok;
		E r = exactInt(a, w, ok);
		if (ok)
			return r;
		return intern1(K::FToUI, w, 0, a);
	}

	// ---- exact dyadic forms
	static const unsigned XW = 64;
	static bool fits(const APInt& lo, const APInt& hi, unsigned bits) // |v| <= 2^bits
	{
		APInt lim = APInt::getOneBitSet(128, bits);
		return hi.sle(lim) && lo.sge(-lim);
	}
	static E intConst64(const APInt& v)
	{
		return mkConst(v.trunc(64));
	}
	static void alignExact(ExactForm& x, int e)
	{
		int s = x.exp - e;
		if (s > 0)
		{
			if (s > 60)
			{
				x.ok = false;
				return;
			}
			x.ival = mkShl(x.ival, mkConst(XW, (uint64_t)s));
			x.lo <<= (unsigned)s;
			x.hi <<= (unsigned)s;
			x.exp = e;
			if (!fits(x.lo, x.hi, 62))
				x.ok = false;
		}
	}
	// number of significant bits needed relative to exponents: value granularity 2^exp, |ival|<=2^b
	static bool representable(const ExactForm& x, uint32_t w)
	{
		// value = ival*2^exp with |ival| <= 2^p  => exactly representable if exponent range is fine
		unsigned p = mantBits(w);
		if (!fits(x.lo, x.hi, p))
			return false;
		int emin = w == 16 ? -14 - 10 : w == 32 ? -126 - 23 : -1000;
		if (x.exp < emin)
			return false;
		// magnitude limit
		APInt m = x.hi.sgt(-x.lo) ? x.hi : -x.lo;
		int top = (int)m.getActiveBits() + x.exp;
		int emax = w == 16 ? 15 : w == 32 ? 127 : 1000;
		return top <= emax;
	}

	const ExactForm& exact(E e)
	{
		if (e->ex)
			return *e->ex;
		ExactForm r;
		r.lo = APInt(128, 0);
		r.hi = APInt(128, 0);
		auto rangeOfInt = [&](E x, bool isSigned) {
			const ConstantRange& cr = range(x);
			r.lo = isSigned ? cr.getSignedMin() : cr.getUnsignedMin();
			r.hi = isSigned ? cr.getSignedMax() : cr.getUnsignedMax();
			if (r.lo.getBitWidth() > 128)
				return false;
			r.lo = isSigned ? r.lo.sext(128) : r.lo.zext(128);
			r.hi = isSigned ? r.hi.sext(128) : r.hi.zext(128);
			return true;
		};
		if (e->w != 16 && e->w != 32 && e->w != 64)
		{
			e->ex = new ExactForm(r);
			return *e->ex;
		}
		switch (e->k)
		{
			case K::Const:
			{
				APFloat f(sem(e->w), *e->c);
				if (!f.isFinite())
					break;
				if (f.isZero())
				{
					r.ok   = true;
					r.ival = mkConst(XW, 0);
					r.exp  = 0;
					break;
				}
				int p  = (int)mantBits(e->w);
				int lg = ilogb(f);
				APFloat m = llvm::scalbn(f, p - 1 - lg, llvm::RoundingMode::NearestTiesToEven);
				llvm::APSInt mi(64, false);
				bool ex;
				m.convertToInteger(mi, llvm::RoundingMode::TowardZero, &ex);
				if (!ex)
					break;
				int exp = lg - (p - 1);
				APInt v = mi;
				unsigned tz = v.abs().countr_zero();
				v.ashrInPlace(tz);
				exp += (int)tz;
				while (exp > 0 && exp <= 20 && v.abs().getActiveBits() + exp < 60)
				{
					v <<= 1;
					exp--;
				}
				r.ok   = true;
				r.ival = mkConst(v);
				r.exp  = exp;
				r.lo = r.hi = v.sext(128);
				break;
			}
			case K::SIToF:
			case K::UIToF:
			{
				E x = e->op[0];
				if (!rangeOfInt(x, e->k == K::SIToF))
					break;
				if (!fits(r.lo, r.hi, std::min(mantBits(e->w), 60u)))
					break;
				if (e->w == 16 && !fits(r.lo, r.hi, 11))
					break;
				r.ival = x->w >= XW ? mkTrunc(x, XW) : e->k == K::SIToF ? mkSExt(x, XW) : mkZExt(x, XW);
				r.exp  = 0;
				r.ok   = true;
				break;
			}
			case K::FNeg:
			{
				const ExactForm& x = exact(e->op[0]);
				if (!x.ok)
					break;
				r	   = x;
				r.ival = mkNeg(x.ival);
				r.lo   = -x.hi;
				r.hi   = -x.lo;
				break;
			}
			case K::FAbs:
			{
				const ExactForm& x = exact(e->op[0]);
				if (!x.ok)
					break;
				r	   = x;
				r.ival = mkIte(mkSlt(x.ival, mkConst(XW, 0)), mkNeg(x.ival), x.ival);
				if (x.lo.isNegative())
				{
					r.hi = x.hi.sgt(-x.lo) ? x.hi : -x.lo;
					r.lo = APInt(128, 0);
					if (x.hi.isNegative())
					{
						r.lo = -x.hi;
						r.hi = -x.lo;
					}
				}
				break;
			}
			case K::Ite:
			{
				if (!fpish(e))
					if (!e->op[1]->isConst() && !e->op[2]->isConst())
						break;
				ExactForm x = exact(e->op[1]), y = exact(e->op[2]);
				if (!x.ok || !y.ok)
					break;
				int m = std::min(x.exp, y.exp);
				alignExact(x, m);
				alignExact(y, m);
				if (!x.ok || !y.ok)
					break;
				r.ok   = true;
				r.exp  = m;
				r.ival = mkIte(e->op[0], x.ival, y.ival);
				r.lo   = x.lo.slt(y.lo) ? x.lo : y.lo;
				r.hi   = x.hi.sgt(y.hi) ? x.hi : y.hi;
				break;
			}
			case K::FAdd:
			case K::FSub:
			{
				ExactForm x = exact(e->op[0]), y = exact(e->op[1]);
				if (!x.ok || !y.ok)
					break;
				int m = std::min(x.exp, y.exp);
				alignExact(x, m);
				alignExact(y, m);
				if (!x.ok || !y.ok)
					break;
				r.exp  = m;
				r.ival = e->k == K::FAdd ? mkAdd(x.ival, y.ival) : mkSub(x.ival, y.ival);
				r.lo   = e->k == K::FAdd ? x.lo + y.lo : x.lo - y.hi;
				r.hi   = e->k == K::FAdd ? x.hi + y.hi : x.hi - y.lo;
				if (r.ival->k == K::Add && !r.ival->isConst())
					if (E n = polyNormalize(r.ival); n->isConst()) // everything that varies cancels
					{
						r.ival = n;
						r.lo = r.hi = *n->c;
					}
				r.ok = representable(r, e->w);
				break;
			}
			case K::FMul:
			case K::FFma:
			{
				ExactForm x = exact(e->op[0]), y = exact(e->op[1]);
				if (!x.ok || !y.ok)
					break;
				r.exp = x.exp + y.exp;
				APInt c[4] = { x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi };
				if (!fits(x.lo, x.hi, 60) || !fits(y.lo, y.hi, 60))
					break;
				r.lo = r.hi = c[0];
				for (auto& v : c)
				{
					if (v.slt(r.lo))
						r.lo = v;
					if (v.sgt(r.hi))
						r.hi = v;
				}
				if (x.ival == y.ival && r.lo.isNegative())
					r.lo = APInt(128, 0);
				if (!fits(r.lo, r.hi, 60))
					break;
				r.ival = mkMul(x.ival, y.ival);
				if (e->k == K::FFma)
				{
					ExactForm z = exact(e->op[2]);
					if (!z.ok)
						break;
					int m = std::min(r.exp, z.exp);
					r.ok  = true;
					alignExact(r, m);
					alignExact(z, m);
					if (!r.ok || !z.ok)
					{
						r.ok = false;
						break;
					}
					r.ival = mkAdd(r.ival, z.ival);
					r.lo += z.lo;
					r.hi += z.hi;
				}
				r.ok = representable(r, e->w);
				break;
			}
			case K::FDiv:
			{
				// division by +-1 (exact integer range) or of provably divisible values is not modelled, except |d| == 1
				const ExactForm& x = exact(e->op[0]);
				const ExactForm& y = exact(e->op[1]);
				if (!x.ok || !y.ok || y.exp != 0)
					break;
				// polynomially constant divisor?
				E yn = polyNormalize(y.ival);
				if (!yn->isConst())
					break;
				APInt v = *yn->c;
				if (v.isZero())
					break;
				APInt av = v.abs();
				if (!av.isPowerOf2())
					break;
				r = x;
				r.exp -= (int)av.logBase2();
				if (v.isNegative())
				{
					r.ival = mkNeg(x.ival);
					r.lo   = -x.hi;
					r.hi   = -x.lo;
				}
				r.ok = representable(r, e->w);
				break;
			}
			case K::FCvt:
			{
				const ExactForm& x = exact(e->op[0]);
				if (!x.ok)
					break;
				r	 = x;
				r.ok = representable(x, e->w);
				break;
			}
			case K::FRint:
			{
				const ExactForm& x = exact(e->op[0]);
				if (!x.ok)
					break;
				if (x.exp >= 0)
				{
					r = x;
					break;
				}
				uint32_t s = (uint32_t)-x.exp;
				if (s > 50)
					break;
				E v = x.ival;
				E sh = mkConst(XW, s), mask = mkConst(XW, (1ull << s) - 1);
				E neg = mkExtract(v, XW - 1, 1);
				E fl  = mkAShr(v, sh);
				if (e->aux == 3)
					v = fl;
				else if (e->aux == 2)
					v = mkAShr(mkAdd(v, mask), sh);
				else if (e->aux == 1)
					v = mkAShr(mkAdd(v, mkIte(neg, mask, mkConst(XW, 0))), sh);
				else if (e->aux == 4)
				{ // half away from zero
					E a = mkIte(neg, mkNeg(v), v);
					a	= mkAShr(mkAdd(a, mkConst(XW, 1ull << (s - 1))), sh);
					v	= mkIte(neg, mkNeg(a), a);
				}
				else
				{ // RNE
					E frac = mkAnd(v, mask);
					E half = mkConst(XW, 1ull << (s - 1));
					E up   = mkOr(mkUlt(half, frac), mkAnd(mkEq(frac, half), mkExtract(fl, 0, 1)));
					v	   = mkAdd(fl, mkZExt(up, XW));
				}
				r.ival = v;
				r.exp  = 0;
				APInt one(128, 1);
				r.lo = x.lo.ashr(s);
				r.hi = x.hi.ashr(s) + one;
				r.ok = true;
				break;
			}
			default: break;
		}
		if (r.ok && (!r.ival || !fits(r.lo, r.hi, 62)))
			r.ok = false;
		if (r.ok && r.ival->isConst())
		{
			r.lo = r.hi = r.ival->c->sext(128);
		}
		e->ex = new ExactForm(r);
		return *e->ex;
	}

	// truncate a 64-bit ring expression to fewer bits, pushing through ring operations
	static E narrowRing(E e, uint32_t w, std::unordered_map<E, E>& memo)
	{
		if (e->w <= w)
			return e;
		auto it = memo.find(e);
		if (it != memo.end())
			return it->second;
		E r;
		switch (e->k)
		{
			case K::Add:
			{
				r = nullptr;
				for (uint32_t i = 0; i < e->n; i++)
				{
					E x = narrowRing(e->op[i], w, memo);
					r	= r ? mkAdd(r, x) : x;
				}
				break;
			}
			case K::Mul: r = mkMul(narrowRing(e->op[0], w, memo), narrowRing(e->op[1], w, memo)); break;
			case K::Ite: r = mkIte(e->op[0], narrowRing(e->op[1], w, memo), narrowRing(e->op[2], w, memo)); break;
			case K::Not: r = mkNot(narrowRing(e->op[0], w, memo)); break;
			case K::Concat:
				if (e->op[1]->isZero() && e->op[0]->k == K::Extract && e->op[0]->aux == 0 && e->op[0]->op[0]->w == e->w)
				{
					r = mkShl(narrowRing(e->op[0]->op[0], w, memo), mkConst(w, e->op[1]->w));
					break;
				}
				[[fallthrough]];
			default: r = mkExtract(e, 0, w);
		}
		return memo[e] = r;
	}

	bool polyRange(E e, APInt& lo, APInt& hi);
	static bool exactCmp(K k, E a, E b, E& out)
	{
		ExactForm x = exact(a);
		if (!x.ok)
			return false;
		ExactForm y = exact(b);
		if (!y.ok)
			return false;
		int m = std::min(x.exp, y.exp);
		alignExact(x, m);
		alignExact(y, m);
		if (!x.ok || !y.ok)
			return false;
		// quick range decisions
		if (k == K::FOLt)
		{
			if (x.hi.slt(y.lo))
				return out = mkBool(true), true;
			if (x.lo.sge(y.hi))
				return out = mkBool(false), true;
		}
		if (k == K::FOLe)
		{
			if (x.hi.sle(y.lo))
				return out = mkBool(true), true;
			if (x.lo.sgt(y.hi))
				return out = mkBool(false), true;
		}
		APInt lo = x.lo - y.hi, hi = x.hi - y.lo;
		unsigned bits = std::max(lo.getSignificantBits(), hi.getSignificantBits()) + 1;
		if (bits > 63)
			return false;
		E d = polyNormalize(mkSub(x.ival, y.ival));
		APInt plo(128, 0), phi(128, 0);
		if (polyRange(d, plo, phi))
		{
			const APInt zero(128, 0);
			const bool pos = plo.sgt(zero), neg = phi.slt(zero);
			if (pos || neg)
				return out = mkBool(k == K::FOEq ? false : neg), true;
			if (k == K::FOLt && plo.sge(zero))
				return out = mkBool(false), true;
			if (k == K::FOLe && phi.sle(zero))
				return out = mkBool(true), true;
		}
		std::unordered_map<E, E> memo;
		d = narrowRing(d, bits, memo);
		E z = mkConst(d->w, 0);
		out = k == K::FOEq ? mkEq(d, z) : k == K::FOLt ? mkSlt(d, z) : mkSle(d, z);
		return true;
	}

	E mkFOEq(E a, E b)
	{
		if (E r = foldF(K::FOEq, 1, 0, { a, b }))
			return r;
		if (a == b)
			return mkNot(mkFIsNaN(a));
		E out;
		if (exactCmp(K::FOEq, a, b, out))
			return out;
		if (a->k == K::Ite && b->isConst() && (a->op[1]->isConst() || a->op[2]->isConst()))
			return mkIte(a->op[0], mkFOEq(a->op[1], b), mkFOEq(a->op[2], b));
		if (b->k == K::Ite && a->isConst() && (b->op[1]->isConst() || b->op[2]->isConst()))
			return mkIte(b->op[0], mkFOEq(a, b->op[1]), mkFOEq(a, b->op[2]));
		if (!fpish(a) && !fpish(b) && a->w != 80)
		{
			E nn = mkAnd(mkNot(mkFIsNaN(a)), mkNot(mkFIsNaN(b)));
			E za = mkEq(mkExtract(a, 0, a->w - 1), mkConst(a->w - 1, 0));
			E zb = mkEq(mkExtract(b, 0, a->w - 1), mkConst(a->w - 1, 0));
			return mkAnd(nn, mkOr(mkEq(a, b), mkAnd(za, zb)));
		}
		if (a->id > b->id)
			std::swap(a, b);
		return intern2(K::FOEq, 1, 0, a, b);
	}
	static E fLtBits(E a, E b, bool orEq)
	{
		uint32_t w = a->w;
		E nn	   = mkAnd(mkNot(mkFIsNaN(a)), mkNot(mkFIsNaN(b)));
		E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
		E ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1);
		E z	 = mkConst(w - 1, 0);
		E bothZero = mkAnd(mkEq(ma, z), mkEq(mb, z));
		E pp = orEq ? mkUle(ma, mb) : mkUlt(ma, mb);
		E nnv = orEq ? mkUle(mb, ma) : mkUlt(mb, ma);
		E pn = orEq ? bothZero : mkBool(false);			  // a>=0, b<0
		E np = orEq ? mkBool(true) : mkNot(bothZero);	  // a<0, b>=0
		return mkAnd(nn, mkIte(sa, mkIte(sb, nnv, np), mkIte(sb, pn, pp)));
	}
	// comparisons of the magnitude of an exact value: |x| < y is x < y and -x < y; y < |x| is y < x or y < -x
	static bool cmpFAbs(E (*cmp)(E, E), E a, E b, E& out)
	{
		if (a->k == K::FAbs && exact(a).ok && exact(b).ok)
			return out = mkAnd(cmp(a->op[0], b), cmp(mkFNeg(a->op[0]), b)), true;
		if (b->k == K::FAbs && exact(a).ok && exact(b).ok)
			return out = mkOr(cmp(a, b->op[0]), cmp(a, mkFNeg(b->op[0]))), true;
		return false;
	}
	E mkFOLt(E a, E b)
	{
		if (E r = foldF(K::FOLt, 1, 0, { a, b }))
			return r;
		if (a == b)
			return mkBool(false);
		E out;
		if (cmpFAbs(mkFOLt, a, b, out))
			return out;
		if (exactCmp(K::FOLt, a, b, out))
			return out;
		if (a->k == K::Ite && b->isConst() && (a->op[1]->isConst() || a->op[2]->isConst()))
			return mkIte(a->op[0], mkFOLt(a->op[1], b), mkFOLt(a->op[2], b));
		if (b->k == K::Ite && a->isConst() && (b->op[1]->isConst() || b->op[2]->isConst()))
			return mkIte(b->op[0], mkFOLt(a, b->op[1]), mkFOLt(a, b->op[2]));
		if (!fpish(a) && !fpish(b) && a->w != 80)
			return fLtBits(a, b, false);
		return intern2(K::FOLt, 1, 0, a, b);
	}
	E mkFOLe(E a, E b)
	{
		if (E r = foldF(K::FOLe, 1, 0, { a, b }))
			return r;
		if (a == b)
			return mkNot(mkFIsNaN(a));
		E out;
		if (cmpFAbs(mkFOLe, a, b, out))
			return out;
		if (exactCmp(K::FOLe, a, b, out))
			return out;
		if (a->k == K::Ite && b->isConst() && (a->op[1]->isConst() || a->op[2]->isConst()))
			return mkIte(a->op[0], mkFOLe(a->op[1], b), mkFOLe(a->op[2], b));
		if (b->k == K::Ite && a->isConst() && (b->op[1]->isConst() || b->op[2]->isConst()))
			return mkIte(b->op[0], mkFOLe(a, b->op[1]), mkFOLe(a, b->op[2]));
		if (!fpish(a) && !fpish(b) && a->w != 80)
			return fLtBits(a, b, true);
		return intern2(K::FOLe, 1, 0, a, b);
	}

	// ---------------------------------------------------------------- polynomial normal form
	namespace
	{
		using Mono = std::vector<uint32_t>;
		struct Poly
		{
			std::map<Mono, APInt> m;
			bool ok = true;
		};
		const size_t POLY_LIMIT = 6000;
		struct PolyCtx
		{
			std::unordered_map<E, std::shared_ptr<Poly>> memo;
		};
		PolyCtx& polyCtx()
		{
			static PolyCtx* c = new PolyCtx;
			return *c;
		}
		void addMono(Poly& p, const Mono& m, const APInt& c)
		{
			auto it = p.m.find(m);
			if (it == p.m.end())
			{
				if (!c.isZero())
					p.m.emplace(m, c);
			}
			else
			{
				it->second += c;
				if (it->second.isZero())
					p.m.erase(it);
			}
		}
		std::shared_ptr<Poly> poly(E e)
		{
			auto& memo = polyCtx().memo;
			auto it	   = memo.find(e);
			if (it != memo.end())
				return it->second;
			auto r = std::make_shared<Poly>();
			APInt one(e->w, 1);
			auto scaled = [&](const Poly& p, const APInt& k) {
				for (auto& t : p.m)
					addMono(*r, t.first, t.second * k);
			};
			if (e->isConst())
				addMono(*r, {}, *e->c);
			else if (e->k == K::Add)
			{
				for (uint32_t i = 0; i < e->n && r->ok; i++)
				{
					auto p = poly(e->op[i]);
					if (!p->ok)
						r->ok = false;
					else
						scaled(*p, one);
					if (r->m.size() > POLY_LIMIT)
						r->ok = false;
				}
			}
			else if (e->k == K::Not)
			{
				auto p = poly(e->op[0]);
				r->ok  = p->ok;
				if (p->ok)
				{
					scaled(*p, APInt::getAllOnes(e->w));
					addMono(*r, {}, APInt::getAllOnes(e->w));
				}
			}
			else if (e->k == K::Concat && e->op[1]->isZero() && e->op[0]->k == K::Extract && e->op[0]->aux == 0
					 && e->op[0]->op[0]->w == e->w)
			{
				auto p = poly(e->op[0]->op[0]);
				r->ok  = p->ok;
				if (p->ok)
					scaled(*p, APInt::getOneBitSet(e->w, e->op[1]->w));
			}
			else if (e->k == K::Concat && e->op[1]->isZero() && e->op[0]->k != K::Const)
			{
				// a shift: the bits above the shifted term do not matter, so its leaves may be extended in any way
				auto p = poly(e->op[0]);
				r->ok  = p->ok;
				if (p->ok)
				{
					const APInt k = APInt::getOneBitSet(e->w, e->op[1]->w);
					for (auto& t : p->m)
					{
						Mono m;
						for (uint32_t id : t.first)
						{
							E v = varById(id);
							E x = v->k == K::SExt ? mkSExt(v->op[0], e->w)
								: v->k == K::Concat && v->op[0]->isZero() ? mkZExt(v->op[1], e->w)
																		  : mkZExt(v, e->w);
							m.push_back(x->id);
						}
						std::sort(m.begin(), m.end());
						addMono(*r, m, t.second.zext(e->w) * k);
					}
				}
			}
			else if (e->k == K::Mul)
			{
				auto p = poly(e->op[0]), q = poly(e->op[1]);
				if (!p->ok || !q->ok || p->m.size() * q->m.size() > 200000)
					r->ok = false;
				else
					for (auto& x : p->m)
					{
						for (auto& y : q->m)
						{
							Mono m;
							std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(m));
							addMono(*r, m, x.second * y.second);
						}
						if (r->m.size() > POLY_LIMIT)
						{
							r->ok = false;
							break;
						}
					}
			}
			else
				addMono(*r, { e->id }, one);
			if (!r->ok)
				r->m.clear();
			return memo[e] = r;
		}
	}

	// bounds of the value of a 64-bit sum of products, as a whole number
	bool polyRange(E e, APInt& lo, APInt& hi)
	{
		if (e->w != 64)
			return false;
		auto p = poly(e);
		if (!p->ok || p->m.size() > 64)
			return false;
		lo = APInt(128, 0);
		hi = APInt(128, 0);
		const APInt lim = APInt::getOneBitSet(128, 62);
		for (auto& t : p->m)
		{
			APInt a = t.second.sext(128), b = a;
			for (size_t i = 0; i < t.first.size();)
			{
				const uint32_t id = t.first[i];
				size_t n		  = 0;
				for (; i < t.first.size() && t.first[i] == id; i++)
					n++;
				const ConstantRange& cr = range(varById(id));
				const APInt vl = cr.getSignedMin().sext(128), vh = cr.getSignedMax().sext(128);
				for (size_t k = 0; k < n;)
				{
					APInt x = vl, y = vh;
					if (k + 1 < n) // a square
					{
						if (vl.sgt(lim) || vh.sgt(lim) || vl.slt(-lim) || vh.slt(-lim))
							return false;
						const APInt l2 = vl * vl, h2 = vh * vh;
						y = l2.sgt(h2) ? l2 : h2;
						x = vl.sgt(APInt(128, 0)) ? l2 : vh.slt(APInt(128, 0)) ? h2 : APInt(128, 0);
						k += 2;
					}
					else
						k++;
					for (auto* v : { &a, &b, &x, &y })
						if (v->sgt(lim) || v->slt(-lim))
							return false;
					APInt c[4] = { a * x, a * y, b * x, b * y };
					a = b = c[0];
					for (auto& v : c)
					{
						if (v.slt(a))
							a = v;
						if (v.sgt(b))
							b = v;
					}
				}
			}
			lo += a;
			hi += b;
			if (hi.sgt(lim) || lo.slt(-lim) || lo.sgt(lim) || hi.slt(-lim))
				return false;
		}
		return true;
	}

	E polyNormalize(E e)
	{
		if (e->k != K::Add && e->k != K::Mul)
			return e;
		auto p = poly(e);
		if (!p->ok)
			return e;
		if (p->m.empty())
			return mkConst(e->w, 0);
		if (p->m.size() == 1 && p->m.begin()->first.empty())
			return mkConst(p->m.begin()->second);
		if (p->m.size() > 64)
			return e; // keep original sharing for the solver
		E r = mkConst(e->w, 0);
		for (auto& t : p->m)
		{
			E x = nullptr;
			for (uint32_t id : t.first)
			{
				E f = varById(id);
				x	= x ? mkMul(x, f) : f;
			}
			E c = mkConst(t.second);
			r	= mkAdd(r, x ? mkMul(c, x) : c);
		}
		return dagSize(r) <= dagSize(e) + 4 ? r : e;
	}

	// ---------------------------------------------------------------- misc
	E rebuild(E e, const std::vector<E>& o)
	{
		switch (e->k)
		{
			case K::Add:
			{
				E r = o[0];
				for (size_t i = 1; i < o.size(); i++)
					r = mkAdd(r, o[i]);
				return r;
			}
			case K::Mul: return mkMul(o[0], o[1]);
			case K::UDiv: return mkUDiv(o[0], o[1]);
			case K::SDiv: return mkSDiv(o[0], o[1]);
			case K::URem: return mkURem(o[0], o[1]);
			case K::SRem: return mkSRem(o[0], o[1]);
			case K::And: return mkAnd(o[0], o[1]);
			case K::Or: return mkOr(o[0], o[1]);
			case K::Xor: return mkXor(o[0], o[1]);
			case K::Not: return mkNot(o[0]);
			case K::Shl: return mkShl(o[0], o[1]);
			case K::LShr: return mkLShr(o[0], o[1]);
			case K::AShr: return mkAShr(o[0], o[1]);
			case K::Concat: return mkConcat(o[0], o[1]);
			case K::Extract: return mkExtract(o[0], e->aux, e->w);
			case K::SExt: return mkSExt(o[0], e->w);
			case K::Eq: return mkEq(o[0], o[1]);
			case K::Ult: return mkUlt(o[0], o[1]);
			case K::Ule: return mkUle(o[0], o[1]);
			case K::Slt: return mkSlt(o[0], o[1]);
			case K::Sle: return mkSle(o[0], o[1]);
			case K::Ite: return mkIte(o[0], o[1], o[2]);
			case K::FAdd: return mkFAdd(o[0], o[1]);
			case K::FSub: return mkFSub(o[0], o[1]);
			case K::FMul: return mkFMul(o[0], o[1]);
			case K::FDiv: return mkFDiv(o[0], o[1]);
			case K::FRem: return mkFRem(o[0], o[1]);
			case K::FSqrt: return mkFSqrt(o[0]);
			case K::FFma: return mkFFma(o[0], o[1], o[2]);
			case K::FRint: return mkFRint(o[0], e->aux);
			case K::FNeg: return mkFNeg(o[0]);
			case K::FAbs: return mkFAbs(o[0]);
			case K::FCvt: return mkFCvt(o[0], e->w, e->aux);
			case K::SIToF: return mkSIToF(o[0], e->w);
			case K::UIToF: return mkUIToF(o[0], e->w);
			case K::FToSI: return mkFToSI(o[0], e->w);
			case K::FToUI: return mkFToUI(o[0], e->w);
			case K::FOEq: return mkFOEq(o[0], o[1]);
			case K::FOLt: return mkFOLt(o[0], o[1]);
			case K::FOLe: return mkFOLe(o[0], o[1]);
			case K::FIsNaN: return mkFIsNaN(o[0]);
			default: return e;
		}
	}
	E substitute(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo)
	{
		auto it = m.find(e);
		if (it != m.end())
			return it->second;
		if (e->n == 0)
			return e;
		auto im = memo.find(e);
		if (im != memo.end())
			return im->second;
		std::vector<E> o(e->n);
		bool ch = false;
		for (uint32_t i = 0; i < e->n; i++)
		{
			o[i] = substitute(e->op[i], m, memo);
			ch |= o[i] != e->op[i];
		}
		return memo[e] = ch ? rebuild(e, o) : e;
	}

	size_t dagSize(E e)
	{
		std::vector<E> st{ e };
		std::unordered_map<E, bool> seen;
		while (!st.empty())
		{
			E x = st.back();
			st.pop_back();
			if (!seen.emplace(x, true).second)
				continue;
			for (uint32_t i = 0; i < x->n; i++)
				st.push_back(x->op[i]);
		}
		return seen.size();
	}

	std::string str(E e, int depth)
	{
		static const char* names[] = { "const", "var", "+",	   "*",	   "udiv", "sdiv",	"urem",	 "srem",  "&",	   "|",	   "^",	   "~",		"shl",	  "lshr",	 "ashr",
									   "cat",	"ext", "sext", "=",	   "ult",  "ule",	"slt",	 "sle",	  "ite",   "f+",   "f-",   "f*",	"f/",	  "frem",	 "fsqrt",
									   "fma",	"frint", "fneg", "fabs", "fcvt", "si2f", "ui2f", "f2si", "f2ui", "f=", "f<", "f<=", "fnan" };
		if (e->isConst())
		{
			llvm::SmallString<40> s;
			e->c->toString(s, 16, false);
			return "0x" + std::string(s.str()) + ":" + std::to_string(e->w);
		}
		if (e->k == K::Var)
			return *e->name;
		if (depth == 0)
			return "#" + std::to_string(e->id);
		std::string r = std::string("(") + names[(int)e->k];
		if (e->k == K::Extract)
			r += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
		for (uint32_t i = 0; i < e->n; i++)
			r += " " + str(e->op[i], depth - 1);
		return r + ")";
	}
}
