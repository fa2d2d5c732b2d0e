// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/ConstantRange.h>
#include <llvm/Support/KnownBits.h>

namespace sym
{
	using llvm::APFloat;
	using llvm::APInt;
	using llvm::ConstantRange;
	using llvm::KnownBits;

	enum class K : uint8_t
	{
		Const,
		Var,
		// bit-vectors
		Add, // n-ary; normal form: sum of (coef * term), constant last
		Mul, // binary; constant first
		UDiv,
		SDiv,
		URem,
		SRem,
		And, // binary
		Or,
		Xor,
		Not,
		Shl,
		LShr,
		AShr,
		Concat, // op0 = high, op1 = low; right-nested
		Extract, // aux = low bit
		SExt,
		Eq,
		Ult,
		Ule,
		Slt,
		Sle,
		Ite,
		// floating point (operands/results are IEEE bit patterns; semantics picked by width, see sem())
		FAdd,
		FSub,
		FMul,
		FDiv,
		FRem,
		FSqrt,
		FFma,
		FRint, // aux = rounding mode (0 RNE, 1 RTZ, 2 RTP(ceil), 3 RTN(floor), 4 RNA(round))
		FNeg,
		FAbs,
		FCvt, // fp -> fp, src width = op0->w; aux = rounding mode (0 RNE)
		SIToF,
		UIToF,
		FToSI, // RTZ
		FToUI,
		FOEq, // -> bool
		FOLt,
		FOLe,
		FIsNaN,
		NumKinds
	};

	struct Expr;
	using E = const Expr*;

	struct ExactForm
	{
		bool ok = false;
		E ival = nullptr; // 128-bit signed integer
		int exp = 0;	  // value = ival * 2^exp
		APInt lo, hi;	  // signed range of ival (128 bit)
	};

	struct Expr
	{
		K k;
		uint32_t w;
		uint32_t aux;
		uint32_t id;
		uint32_t n;
		E* op;
		APInt* c; // Const
		const std::string* name; // Var
		uint64_t hash;
		mutable KnownBits* kb = nullptr;
		mutable ConstantRange* sr = nullptr;
		mutable ExactForm* ex = nullptr;
		mutable uint32_t cleaves = 0; // number of const leaves if this is an ITE tree over constants
		mutable const std::vector<uint32_t>* vars = nullptr; // sorted ids of variables
		bool isConst() const
		{
			return k == K::Const;
		}
		bool isZero() const
		{
			return k == K::Const && c->isZero();
		}
		bool isOne() const
		{
			return k == K::Const && c->isOne();
		}
		bool isAllOnes() const
		{
			return k == K::Const && c->isAllOnes();
		}
		bool isTrue() const
		{
			return k == K::Const && w == 1 && c->isOne();
		}
		bool isFalse() const
		{
			return k == K::Const && w == 1 && c->isZero();
		}
		uint64_t u64() const
		{
			return c->getLimitedValue();
		}
	};

	// constructors (all simplify)
	E mkConst(const APInt& v);
	E mkConst(uint32_t w, uint64_t v);
	E mkBool(bool b);
	E mkVar(uint32_t w, const std::string& name);
	E mkAdd(E a, E b);
	E mkSub(E a, E b);
	E mkNeg(E a);
	E mkMul(E a, E b);
	E mkUDiv(E a, E b);
	E mkSDiv(E a, E b);
	E mkURem(E a, E b);
	E mkSRem(E a, E b);
	E mkAnd(E a, E b);
	E mkOr(E a, E b);
	E mkXor(E a, E b);
	E mkNot(E a);
	E mkShl(E a, E b); // SMT-LIB semantics for over-shift (0)
	E mkLShr(E a, E b);
	E mkAShr(E a, E b);
	E mkConcat(E hi, E lo);
	E mkExtract(E a, uint32_t lo, uint32_t w);
	E mkZExt(E a, uint32_t w);
	E mkSExt(E a, uint32_t w);
	E mkTrunc(E a, uint32_t w);
	E mkZExtOrTrunc(E a, uint32_t w);
	E mkEq(E a, E b);
	E mkNe(E a, E b);
	E mkUlt(E a, E b);
	E mkUle(E a, E b);
	E mkSlt(E a, E b);
	E mkSle(E a, E b);
	E mkIte(E c, E a, E b);
	E mkImplies(E a, E b);
	// fp
	E mkF(K k, E a, E b);
	E mkFAdd(E a, E b);
	E mkFSub(E a, E b);
	E mkFMul(E a, E b);
	E mkFDiv(E a, E b);
	E mkFRem(E a, E b);
	E mkFSqrt(E a);
	E mkFFma(E a, E b, E c);
	E mkFRint(E a, uint32_t mode);
	E mkFNeg(E a);
	E mkFAbs(E a);
	E mkFCvt(E a, uint32_t w, uint32_t rm = 0);
	E mkSIToF(E a, uint32_t w);
	E mkUIToF(E a, uint32_t w);
	E mkFToSI(E a, uint32_t w);
	E mkFToUI(E a, uint32_t w);
	E mkFOEq(E a, E b);
	E mkFOLt(E a, E b);
	E mkFOLe(E a, E b);
	E mkFIsNaN(E a);
	bool isFpKind(K k); // result is a floating-point rounding operation
	const llvm::fltSemantics& sem(uint32_t w);
	const KnownBits& known(E e);
	const ConstantRange& range(E e); // a range valid under both interpretations
	const std::vector<uint32_t>& varsOf(E e);
	const ExactForm& exact(E e);
	E varById(uint32_t id);

	// evaluation
	struct Model
	{
		std::unordered_map<uint32_t, APInt> vals; // var expr id -> value; missing = 0
		mutable std::unordered_map<uint32_t, APInt> memo;
		void set(E v, const APInt& x)
		{
			vals[v->id] = x;
			memo.clear();
		}
	};
	const APInt& eval(E e, const Model& m);
	E substitute(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo);
	E rebuild(E e, const std::vector<E>& ops);
	std::string str(E e, int depth = 6);
	size_t numExprs();
	size_t dagSize(E e);
	APInt evalOp(K k, uint32_t w, uint32_t aux, const std::vector<const APInt*>& a);
	E polyNormalize(E e); // ring normal form of Add/Mul subterms (may return e unchanged when too large)
}
