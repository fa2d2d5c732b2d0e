// models of the harness API and of the library functions the code under test calls
#include "exec.h"
#include <algorithm>
#include <cstdio>
#include <sstream>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Constants.h>
#include <llvm/Demangle/Demangle.h>

using namespace llvm;

namespace sym
{
	static const uint64_t ALLOC_LIMIT = 16ull << 20;

	static bool starts(const std::string& s, const char* p)
	{
		return s.rfind(p, 0) == 0;
	}

	bool Executor::external(State& s, CallBase* cb, Function* f, const std::string& name, std::vector<Val>& args, R& r)
	{
		// negative cache: functions with bodies that no model overrides
		static DenseMap<const Function*, bool> notExt;
		if (notExt.count(f))
			return false;
		auto A	 = [&](size_t i) { return args.at(i)[0]; };
		auto C	 = [&](size_t i, const char* why) { return concretize(s, A(i), why).getLimitedValue(); };
		auto ret = [&](E e) {
			r = finishCall(s, cb, Val{ e });
			return true;
		};
		auto ret0 = [&] {
			Val v;
			if (!cb->getType()->isVoidTy())
				v.push_back(mkConst(bits(cb->getType()), 0));
			r = finishCall(s, cb, v);
			return true;
		};
		auto throwStd = [&](const char* tiName) {
			uint64_t ex = allocHeap(s, 64, 16, 3, "exception");
			uint64_t t	= 0x100;
			if (auto* g = M.getGlobalVariable(tiName))
				t = gaddr[g];
			E z = mkConst(8, 0);
			for (auto& b : s.mem[ex]->d)
				b = { z, 0 };
			s.exc[ex] = ExcInfo{ t, 0, 0, true, 1 };
			s.th[(size_t)s.cur].uncaught++;
			r = unwind(s, ex);
			return true;
		};

		// ------------------------------------------------------------------ harness API
		if (starts(name, "sym_"))
		{
			if (name == "sym_u64raw")
			{
				std::string base = readCStr(s, A(0));
				uint32_t w		 = (uint32_t)C(1, "width");
				E e;
				int k			 = s.nameCount[base]++;
				std::string full = base + "#" + std::to_string(k);
				if (O.haveFixed)
				{
					APInt v = s.inputs.size() < O.fixedInputs.size() ? O.fixedInputs[s.inputs.size()].zextOrTrunc(w) : APInt(w, 0);
					e		= mkConst(v);
				}
				else
					e = mkVar(w, full);
				s.inputs.push_back({ full, e });
				return ret(mkZExt(e, 64));
			}
			if (name == "sym_bytes")
			{
				uint64_t n		 = C(1, "length");
				std::string base = readCStr(s, A(2));
				int k0			 = s.nameCount[base]++;
				for (uint64_t i = 0; i < n; i++)
				{
					std::string full = base + "#" + std::to_string(k0) + "[" + std::to_string(i) + "]";
					E e;
					if (O.haveFixed)
					{
						APInt v = s.inputs.size() < O.fixedInputs.size() ? O.fixedInputs[s.inputs.size()].zextOrTrunc(8) : APInt(8, 0);
						e		= mkConst(v);
					}
					else
						e = mkVar(8, full);
					s.inputs.push_back({ full, e });
					storeN(s, mkAdd(A(0), mkConst(64, i)), e);
				}
				return ret0();
			}
			if (name == "sym_assume")
			{
				E c = A(0);
				if (c->w != 1)
					c = mkNe(c, mkConst(c->w, 0));
				if (!tryAssume(s, c))
					throw Killed{};
				return ret0();
			}
			if (name == "sym_check")
			{
				E c = A(0);
				if (c->w != 1)
					c = mkNe(c, mkConst(c->w, 0));
				checkProp(s, c, "assert", readCStr(s, A(1)));
				return ret0();
			}
			if (name == "sym_fail")
			{
				violation(s, "assert", readCStr(s, A(0)));
				throw Killed{};
			}
			if (name == "sym_reach")
			{
				reached[readCStr(s, A(0))]++;
				return ret0();
			}
			if (name == "sym_observe")
			{
				s.observed.emplace_back(readCStr(s, A(0)), A(1));
				return ret0();
			}
			if (name == "sym_allow_leaks")
			{
				s.allowLeaks = true;
				return ret0();
			}
			if (name == "sym_is_symbolic_run")
				return ret(mkConst(bits(cb->getType()), 1));
			if (name == "sym_concretize")
				return ret(mkConst(concretize(s, A(0), "harness")));
			if (name == "sym_ite")
			{
				E c = A(0);
				if (c->w != 1)
					c = mkNe(c, mkConst(c->w, 0));
				return ret(mkIte(c, A(1), A(2)));
			}
			if (name == "sym_thread_progress")
			{
				s.idleYields = 0;
				return ret0();
			}
			if (name == "sym_live_allocs")
			{
				uint64_t n = 0;
				for (auto& kv : s.mem)
					if (kv.second->kind == sym::OK::Heap && kv.second->alloc < 3)
						n++;
				return ret(mkConst(64, n));
			}
			if (name == "sym_is_heap")
			{
				ObjP o = A(0)->isConst() ? find(s, A(0)->u64()) : nullptr;
				return ret(mkConst(bits(cb->getType()), o && o->kind == sym::OK::Heap && A(0)->u64() == o->base));
			}
			if (name == "sym_live_block") // 1 when p lies inside [base, base+size] of a live object with n readable bytes
			{
				uint64_t p = C(0, "pointer"), n = C(1, "size");
				ObjP o	   = find(s, p);
				bool ok	   = o && p >= o->base && p + n <= o->base + o->size;
				return ret(mkConst(bits(cb->getType()), ok));
			}
			if (name == "sym_block_size")
			{
				ObjP o = find(s, C(0, "pointer"));
				return ret(mkConst(64, o ? o->size : 0));
			}
		}

		// ------------------------------------------------------------------ allocation
		if (name == "malloc" || name == "_Znwm" || name == "_Znam" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t"
			|| name == "_ZnwmSt11align_val_t" || name == "_ZnamSt11align_val_t" || name == "_ZnwmSt11align_val_tRKSt9nothrow_t"
			|| name == "_ZnamSt11align_val_tRKSt9nothrow_t" || name == "aligned_alloc" || name == "memalign" || name == "calloc")
		{
			uint64_t n = 0, al = 16;
			uint8_t kind = 0;
			bool thr	 = false;
			// a symbolic size: the failing (too large) sizes are one case, the others are enumerated
			size_t szArg = (name == "aligned_alloc" || name == "memalign") ? 1 : 0;
			if (name != "calloc" && !A(szArg)->isConst() && decide(s, mkUlt(mkConst(64, ALLOC_LIMIT), A(szArg))))
				n = ALLOC_LIMIT + 1;
			else if (name == "malloc")
				n = C(0, "allocation size");
			else if (name == "calloc")
				n = C(0, "allocation size") * C(1, "allocation size");
			else if (name == "aligned_alloc" || name == "memalign")
			{
				al = C(0, "allocation alignment");
				if (n == 0)
					n = C(1, "allocation size");
				if (al == 0 || (al & (al - 1)))
					return ret(mkConst(64, 0));
				if (al > (1u << 20))
					return ret(mkConst(64, 0));
			}
			else
			{
				kind = name[3] == 'w' ? 1 : 2;
				thr	 = name.find("nothrow") == std::string::npos;
				if (n == 0)
					n = C(0, "allocation size");
				if (name.find("align_val") != std::string::npos)
					al = C(1, "allocation alignment");
			}
			if (n > ALLOC_LIMIT)
			{
				stubs.insert("allocations above 16 MiB fail");
				if (thr)
					return throwStd("_ZTISt9bad_alloc");
				return ret(mkConst(64, 0));
			}
			uint64_t a = allocHeap(s, n, al, kind, name == "malloc" || kind == 0 ? "heap block" : "heap object");
			if (name == "calloc")
			{
				E z = mkConst(8, 0);
				for (auto& b : s.mem[a]->d)
					b = { z, 0 };
			}
			return ret(mkConst(64, a));
		}
		if (name == "posix_memalign")
		{
			uint64_t al = C(1, "alignment"), n = C(2, "size");
			if (al < 8 || (al & (al - 1)))
				return ret(mkConst(32, 22));
			if (n > ALLOC_LIMIT || al > (1u << 20))
				return ret(mkConst(32, 12));
			uint64_t a = allocHeap(s, n, al, 0, "heap block");
			storeN(s, A(0), mkConst(64, a));
			return ret(mkConst(32, 0));
		}
		if (name == "realloc")
		{
			uint64_t p = C(0, "pointer"), n = C(1, "size");
			if (n > ALLOC_LIMIT)
				return ret(mkConst(64, 0));
			uint64_t a = allocHeap(s, n, 16, 0, "heap block");
			if (p)
			{
				ObjP o = find(s, p);
				if (!o || o->base != p || o->kind != sym::OK::Heap)
				{
					violation(s, "memory", "invalid realloc");
					throw Killed{};
				}
				for (uint64_t i = 0; i < std::min(n, o->size); i++)
					s.mem[a]->d[i] = o->d[i];
				o = nullptr;
				freeHeap(s, p, 0);
			}
			return ret(mkConst(64, a));
		}
		if (name == "free" || name == "cfree")
		{
			E p = A(0);
			if (!p->isConst())
				p = mkConst(concretize(s, p, "free"));
			freeHeap(s, p->u64(), 0);
			return ret0();
		}
		if (starts(name, "_ZdlPv") || starts(name, "_ZdaPv"))
		{
			E p = A(0);
			if (!p->isConst())
				p = mkConst(concretize(s, p, "delete"));
			uint64_t a = p->u64();
			if (a)
			{
				auto it = s.mem.find(a);
				if (it != s.mem.end() && args.size() > 1 && name[6] == 'm' && A(1)->isConst() && A(1)->u64() != it->second->size)
				{
					violation(s, "memory", "sized delete with wrong size");
					throw Killed{};
				}
				freeHeap(s, a, starts(name, "_ZdlPv") ? 1 : 2);
			}
			return ret0();
		}
		if (name == "malloc_usable_size")
		{
			ObjP o = find(s, C(0, "pointer"));
			return ret(mkConst(64, o ? o->size : 0));
		}

		if (name == "__dynamic_cast")
		{
			// non-virtual inheritance only: walk the type_info initialisers from the most derived type
			uint64_t src = C(0, "dynamic_cast"), dst = C(2, "dynamic_cast");
			uint64_t vptr = concretize(s, loadN(s, mkConst(64, src), 8), "vptr").getLimitedValue();
			int64_t top	  = concretize(s, loadN(s, mkConst(64, vptr - 16), 8), "vtable").getSExtValue();
			uint64_t ti	  = concretize(s, loadN(s, mkConst(64, vptr - 8), 8), "vtable").getLimitedValue();
			uint64_t full = src + (uint64_t)top;
			std::vector<uint64_t> hits;
			std::function<void(uint64_t, uint64_t)> walk = [&](uint64_t t, uint64_t off) {
				if (t == dst)
					hits.push_back(off);
				auto it = lazyGlobals.find(t);
				if (it == lazyGlobals.end() || !it->second->hasInitializer())
					return;
				auto* init = it->second->getInitializer();
				for (unsigned i = 2; i < init->getNumOperands(); i++)
					if (auto* g = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts()))
					{
						uint64_t o = 0;
						if (i + 1 < init->getNumOperands())
							if (auto* ci = dyn_cast<ConstantInt>(init->getOperand(i + 1)))
							{
								if (ci->getZExtValue() & 1)
									{ incompleteAt(s, "dynamic_cast across virtual inheritance"); throw Killed{}; }
								o = ci->getZExtValue() >> 8;
							}
						walk(gaddr[g], off + o);
					}
			};
			walk(ti, 0);
			return ret(mkConst(64, hits.size() == 1 ? full + hits[0] : 0));
		}

		// ------------------------------------------------------------------ memory / strings
		if (name == "memcpy" || name == "memmove")
		{
			E d = A(0);
			memCopy(s, A(0), A(1), A(2), name == "memmove");
			return ret(d);
		}
		if (name == "memset")
		{
			E d = A(0);
			memSet(s, A(0), A(1), A(2));
			return ret(d);
		}
		if (name == "memcmp" || name == "bcmp")
		{
			uint64_t n = C(2, "memcmp length");
			return ret(memCmp(s, A(0), A(1), n));
		}
		if (name == "strlen")
		{
			for (uint64_t i = 0;; i++)
			{
				E b = loadN(s, mkAdd(A(0), mkConst(64, i)), 1);
				if (decide(s, mkEq(b, mkConst(8, 0))))
					return ret(mkConst(64, i));
			}
		}
		if (name == "wcslen")
		{
			for (uint64_t i = 0;; i++)
			{
				E b = loadN(s, mkAdd(A(0), mkConst(64, i * 4)), 4);
				if (decide(s, mkEq(b, mkConst(32, 0))))
					return ret(mkConst(64, i));
			}
		}
		if (name == "memchr")
		{
			uint64_t n = C(2, "memchr length");
			E c		   = mkTrunc(A(1), 8);
			E res	   = mkConst(64, 0);
			for (uint64_t i = n; i-- > 0;)
			{
				E p = mkAdd(A(0), mkConst(64, i));
				res = mkIte(mkEq(loadN(s, p, 1), c), p, res);
			}
			return ret(res);
		}
		if (name == "wmemcpy" || name == "wmemmove")
		{
			E d = A(0);
			memCopy(s, A(0), A(1), mkMul(A(2), mkConst(64, 4)), true);
			return ret(d);
		}
		if (name == "wmemset")
		{
			uint64_t n = C(2, "wmemset length");
			for (uint64_t i = 0; i < n; i++)
				storeN(s, mkAdd(A(0), mkConst(64, i * 4)), A(1));
			return ret(A(0));
		}
		if (name == "wmemcmp")
		{
			uint64_t n = C(2, "wmemcmp length");
			E res	   = mkConst(32, 0);
			for (uint64_t i = n; i-- > 0;)
			{
				E x = loadN(s, mkAdd(A(0), mkConst(64, i * 4)), 4), y = loadN(s, mkAdd(A(1), mkConst(64, i * 4)), 4);
				res = mkIte(mkEq(x, y), res, mkIte(mkSlt(x, y), mkConst(32, 0xffffffffu), mkConst(32, 1)));
			}
			return ret(res);
		}

		// ------------------------------------------------------------------ C++ runtime
		if (name == "__cxa_allocate_exception")
		{
			uint64_t a = allocHeap(s, C(0, "exception size"), 16, 3, "exception object");
			return ret(mkConst(64, a));
		}
		if (name == "__cxa_free_exception")
		{
			freeHeap(s, C(0, "exception"), 3);
			return ret0();
		}
		if (name == "__cxa_throw")
		{
			uint64_t ex = C(0, "exception"), t = C(1, "typeinfo"), d = C(2, "destructor");
			s.exc[ex] = ExcInfo{ t, d, 0, true, 1 };
			s.th[(size_t)s.cur].uncaught++;
			r = unwind(s, ex);
			return true;
		}
		if (name == "__cxa_begin_catch")
		{
			uint64_t ex = C(0, "exception");
			auto& t		= s.th[(size_t)s.cur];
			s.exc[ex].handlers++;
			if (t.uncaught)
				t.uncaught--;
			t.caught.push_back(ex);
			return ret(mkConst(64, ex));
		}
		if (name == "__cxa_get_exception_ptr")
			return ret(A(0));
		if (name == "__cxa_end_catch")
		{
			auto& t = s.th[(size_t)s.cur];
			if (t.caught.empty())
				return ret0();
			uint64_t ex = t.caught.back();
			t.caught.pop_back();
			auto& x = s.exc[ex];
			x.handlers--;
			uint64_t d = x.handlers == 0 && x.live ? x.dtor : 0;
			r		   = finishCall(s, cb, {});
			if (r == R::Next)
			{
				++top(s).it;
				r = R::Stay;
			}
			if (d)
			{
				auto it = funcs.find(d);
				if (it != funcs.end() && !it->second->isDeclaration())
				{
					x.live = false;
					pushFrame(s, it->second, { Val{ mkConst(64, ex) } }, nullptr);
				}
			}
			return true;
		}
		if (name == "__cxa_rethrow")
		{
			auto& t = s.th[(size_t)s.cur];
			if (t.caught.empty())
			{
				violation(s, "terminate", "rethrow without an active exception");
				throw Killed{};
			}
			uint64_t ex = t.caught.back();
			s.exc[ex].refs++;
			s.exc[ex].handlers++; // keeps the object alive past the enclosing end_catch
			t.uncaught++;
			s.exc[ex].handlers--;
			r = unwind(s, ex);
			return true;
		}
		if (name == "_ZSt18uncaught_exceptionv")
			return ret(mkConst(bits(cb->getType()), s.th[(size_t)s.cur].uncaught > 0));
		if (name == "_ZSt19uncaught_exceptionsv")
			return ret(mkConst(32, s.th[(size_t)s.cur].uncaught));
		if (name == "__cxa_guard_acquire")
		{
			if (s.th.size() > 1)
			{
				if (visibleOp(s))
				{
					r = R::Stay;
					return true;
				}
				s.schedDone = false;
			}
			uint64_t a = C(0, "guard");
			ObjP o	   = find(s, a);
			E b		   = readBytes(s, *o, a - o->base, 1);
			acquire(s, a);
			return ret(mkIte(mkEq(b, mkConst(8, 0)), mkConst(32, 1), mkConst(32, 0)));
		}
		if (name == "__cxa_guard_release")
		{
			uint64_t a = C(0, "guard");
			ObjP t	   = find(s, a);
			uint64_t b = t->base;
			ObjP w	   = writable(s, t);
			writeBytes(*w, a - b, mkConst(8, 1));
			release(s, a);
			return ret0();
		}
		if (name == "__cxa_guard_abort")
			return ret0();
		if (name == "__cxa_atexit" || name == "__cxa_thread_atexit" || name == "atexit")
			return ret0();
		if (name == "abort" || name == "_ZSt9terminatev" || name == "__clang_call_terminate" || name == "__cxa_pure_virtual" || name == "exit"
			|| name == "_Exit" || name == "_exit" || name == "quick_exit")
		{
			violation(s, "terminate", name + " called");
			throw Killed{};
		}
		if (name == "__assert_fail" || name == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || name == "__assert")
		{
			violation(s, "assert", "library assertion failed: " + readCStr(s, A(name[0] == '_' && name[1] == 'Z' ? 3 : 0)));
			throw Killed{};
		}
		if (name == "__cxa_bad_cast")
			return throwStd("_ZTISt8bad_cast");
		if (name == "__cxa_throw_bad_array_new_length")
			return throwStd("_ZTISt20bad_array_new_length");
		if (starts(name, "_ZSt") && name.find("__throw_") != std::string::npos && f->isDeclaration())
		{
			static const std::pair<const char*, const char*> T[] = {
				{ "__throw_length_error", "_ZTISt12length_error" },	 { "__throw_out_of_range_fmt", "_ZTISt12out_of_range" },
				{ "__throw_out_of_range", "_ZTISt12out_of_range" },	 { "__throw_logic_error", "_ZTISt11logic_error" },
				{ "__throw_bad_alloc", "_ZTISt9bad_alloc" },		 { "__throw_invalid_argument", "_ZTISt16invalid_argument" },
				{ "__throw_runtime_error", "_ZTISt13runtime_error" }, { "__throw_bad_array_new_length", "_ZTISt20bad_array_new_length" },
				{ "__throw_system_error", "_ZTISt12system_error" },	 { "__throw_bad_function_call", "_ZTISt17bad_function_call" },
				{ "__throw_bad_cast", "_ZTISt8bad_cast" },
			};
			for (auto& t : T)
				if (name.find(t.first) != std::string::npos)
					return throwStd(t.second);
			return throwStd("_ZTISt9exception");
		}
		if (f->isDeclaration()
			&& (starts(name, "_ZNSt12length_errorC") || starts(name, "_ZNSt12out_of_rangeC") || starts(name, "_ZNSt11logic_errorC")
				|| starts(name, "_ZNSt13runtime_errorC") || starts(name, "_ZNSt16invalid_argumentC") || starts(name, "_ZNSt12length_errorD")
				|| starts(name, "_ZNSt13runtime_errorD") || starts(name, "_ZNSt11logic_errorD") || starts(name, "_ZNSt9exceptionD")
				|| starts(name, "_ZNSt12out_of_rangeD") || starts(name, "_ZNSt16invalid_argumentD") || starts(name, "_ZNSt9bad_allocD")))
			return ret0();

		// ------------------------------------------------------------------ maths
		if (f->isDeclaration() && cb->getType()->isFloatingPointTy())
		{
			auto is = [&](const char* n) { return name == n || name == std::string(n) + "f" || name == std::string(n) + "l"; };
			if (is("floor"))
				return ret(mkFRint(A(0), 3));
			if (is("ceil"))
				return ret(mkFRint(A(0), 2));
			if (is("trunc"))
				return ret(mkFRint(A(0), 1));
			if (is("round"))
				return ret(mkFRint(A(0), 4));
			if (is("rint") || is("nearbyint") || is("roundeven"))
				return ret(mkFRint(A(0), 0));
			if (is("sqrt"))
				return ret(mkFSqrt(A(0)));
			if (is("fabs"))
				return ret(mkFAbs(A(0)));
			if (is("fma"))
				return ret(mkFFma(A(0), A(1), A(2)));
			if (is("fmin"))
				return ret(fminmax(A(0), A(1), true, false));
			if (is("fmax"))
				return ret(fminmax(A(0), A(1), false, false));
			if (is("copysign"))
				return ret(mkConcat(mkExtract(A(1), A(1)->w - 1, 1), mkExtract(A(0), 0, A(0)->w - 1)));
			if (is("fmod"))
				return ret(mkFRem(A(0), A(1)));
			if (name == "__extendhfsf2" || name == "__gnu_h2f_ieee" || name == "__extendhfdf2" || name == "__extendsfdf2")
				return ret(mkFCvt(A(0), bits(cb->getType())));
			if (name == "__truncsfhf2" || name == "__truncdfhf2" || name == "__gnu_f2h_ieee")
				return ret(mkFCvt(A(0), bits(cb->getType())));
			static const char* uf[] = { "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "exp2", "log", "log2", "log10", "pow", "cbrt", "sinh", "cosh", "tanh", "hypot" };
			for (auto* u : uf)
				if (is(u))
				{
					stubs.insert(std::string("uninterpreted ") + name);
					std::string n = "$" + name;
					for (auto& a : args)
						n += "_" + std::to_string(a[0]->id);
					return ret(mkVar(A(0)->w, n));
				}
		}
		if (name == "__truncsfhf2" || name == "__truncdfhf2" || name == "__gnu_f2h_ieee")
			return ret(mkFCvt(A(0), 16));

		// ------------------------------------------------------------------ random_device
		if (name == "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" || name == "_ZNSt13random_device7_M_finiEv")
			return ret0();
		if (name == "_ZNSt13random_device9_M_getvalEv")
		{
			int k			 = s.nameCount["random_device"]++;
			std::string full = "random_device#" + std::to_string(k);
			E e;
			if (O.haveFixed)
				e = mkConst(s.inputs.size() < O.fixedInputs.size() ? O.fixedInputs[s.inputs.size()].zextOrTrunc(32) : APInt(32, 0));
			else
				e = mkVar(32, full);
			s.inputs.push_back({ full, e });
			return ret(e);
		}

		// ------------------------------------------------------------------ threads and time
		if (name == "_ZNSt6chrono3_V212steady_clock3nowEv" || name == "_ZNSt6chrono3_V212system_clock3nowEv")
		{
			stubs.insert("clocks read as 0 (wait_for may time out or be notified)");
			return ret(mkConst(64, s.clockNow));
		}
		if (name == "_ZNSt6thread20hardware_concurrencyEv")
			return ret(mkConst(32, 2));
		if (name == "pthread_self")
			return ret(mkConst(64, (uint64_t)s.cur + 1));
		if (name == "pthread_setname_np" || name == "prctl" || name == "gettid")
			return ret0();
		if (name == "pthread_getname_np")
			return ret(mkConst(32, 0));
		if (name == "sched_yield" || name == "nanosleep" || name == "usleep" || name == "clock_nanosleep")
		{
			if (pauseOp(s))
			{
				r = R::Stay;
				return true;
			}
			return ret0();
		}
		if (name == "_ZNSt6thread6_StateD2Ev" || name == "_ZNSt6thread6_StateD1Ev")
			return ret0();
		if (starts(name, "_ZNSt6thread15_M_start_thread"))
		{
			if (s.th.size() > 1)
			{
				if (visibleOp(s))
				{
					r = R::Stay;
					return true;
				}
				s.schedDone = false;
			}
			s.idleYields = 0;
			uint64_t self = C(0, "thread"), up = C(1, "thread state");
			E pe = loadN(s, mkConst(64, up), 8);
			storeN(s, mkConst(64, up), mkConst(64, 0));
			E vt	   = loadN(s, pe, 8);
			E fd	   = loadN(s, mkAdd(vt, mkConst(64, 8)), 8);
			E fr	   = loadN(s, mkAdd(vt, mkConst(64, 16)), 8);
			Function* D0  = funcs.count(fd->u64()) ? funcs[fd->u64()] : nullptr;
			Function* Run = funcs.count(fr->u64()) ? funcs[fr->u64()] : nullptr;
			if (!D0 || !Run)
			{
				incompleteAt(s, "thread entry not resolved");
				throw Killed{};
			}
			int nt = (int)s.th.size();
			storeN(s, mkConst(64, self), mkConst(64, (uint64_t)nt + 1));
			s.th.emplace_back();
			Thread& T = s.th.back();
			T.vc	  = s.th[(size_t)s.cur].vc;
			T.vc.inc((size_t)nt);
			s.th[(size_t)s.cur].vc.inc((size_t)s.cur);
			int me = s.cur;
			s.cur  = nt;
			pushFrame(s, D0, { Val{ pe } }, nullptr);
			pushFrame(s, Run, { Val{ pe } }, nullptr);
			s.cur		  = me;
			st.maxThreads = std::max<uint64_t>(st.maxThreads, s.th.size());
			return ret0();
		}
		if (name == "_ZNSt6thread4joinEv")
		{
			E ide = loadN(s, A(0), 8);
			uint64_t id = ide->isConst() ? ide->u64() : 0;
			if (id < 2 || id > s.th.size())
			{
				violation(s, "terminate", "join on a thread that is not joinable");
				throw Killed{};
			}
			size_t t = id - 1;
			if (visibleOp(s))
			{
				r = R::Stay;
				return true;
			}
			s.schedDone = false;
			Thread& me	= s.th[(size_t)s.cur];
			if (s.th[t].st != TS::Done)
			{
				me.st	  = TS::BlockJoin;
				me.waitOn = t;
				switchFrom(s);
				r = R::Stay;
				return true;
			}
			me.st = TS::Run;
			me.vc.join(s.th[t].vc);
			s.idleYields = 0;
			storeN(s, A(0), mkConst(64, 0));
			return ret0();
		}
		if (name == "_ZNSt6thread6detachEv")
		{
			storeN(s, A(0), mkConst(64, 0));
			return ret0();
		}
		if (name == "pthread_mutex_init" || name == "pthread_mutex_destroy" || name == "pthread_cond_init" || name == "pthread_cond_destroy"
			|| name == "_ZNSt18condition_variableC1Ev" || name == "_ZNSt18condition_variableC2Ev")
			return ret0();
		if (name == "_ZNSt18condition_variableD1Ev" || name == "_ZNSt18condition_variableD2Ev")
		{
			uint64_t cv = C(0, "condition variable");
			for (auto& t : s.th)
				if (t.st == TS::BlockCond && t.waitOn == cv && !t.notified)
				{
					violation(s, "thread", "condition variable destroyed while a thread waits on it");
					throw Killed{};
				}
			return ret0();
		}
		if (name == "pthread_mutex_lock" || name == "pthread_mutex_trylock")
		{
			uint64_t m = C(0, "mutex");
			if (visibleOp(s))
			{
				r = R::Stay;
				return true;
			}
			s.schedDone = false;
			resolve(s, mkConst(64, m), 40, true);
			auto it	 = s.mutexOwner.find(m);
			bool held = it != s.mutexOwner.end() && it->second >= 0;
			Thread& me = s.th[(size_t)s.cur];
			if (held)
			{
				if (name == "pthread_mutex_trylock")
					return ret(mkConst(32, 16)); // EBUSY
				if (it->second == s.cur)
				{
					violation(s, "deadlock", "mutex locked recursively by its owner");
					throw Killed{};
				}
				me.st	  = TS::BlockMutex;
				me.waitOn = m;
				switchFrom(s);
				r = R::Stay;
				return true;
			}
			me.st			= TS::Run;
			s.mutexOwner[m] = s.cur;
			acquire(s, m);
			return ret(mkConst(32, 0));
		}
		if (name == "pthread_mutex_unlock")
		{
			uint64_t m = C(0, "mutex");
			if (visibleOp(s))
			{
				r = R::Stay;
				return true;
			}
			s.schedDone = false;
			resolve(s, mkConst(64, m), 40, true);
			auto it = s.mutexOwner.find(m);
			if (it == s.mutexOwner.end() || it->second != s.cur)
			{
				violation(s, "thread", "mutex unlocked by a thread that does not own it");
				throw Killed{};
			}
			release(s, m);
			s.mutexOwner.erase(it);
			return ret(mkConst(32, 0));
		}
		if (starts(name, "_ZNSt18condition_variable4waitER") || name == "pthread_cond_clockwait" || name == "pthread_cond_timedwait"
			|| name == "pthread_cond_wait")
		{
			bool timed	= name == "pthread_cond_clockwait" || name == "pthread_cond_timedwait";
			uint64_t cv = C(0, "condition variable");
			uint64_t m	= starts(name, "_ZNSt18") ? loadN(s, A(1), 8)->u64() : C(1, "mutex");
			Thread& me	= s.th[(size_t)s.cur];
			if (me.st == TS::Run)
			{
				if (visibleOp(s))
				{
					r = R::Stay;
					return true;
				}
				s.schedDone = false;
				Thread& me2 = s.th[(size_t)s.cur];
				resolve(s, mkConst(64, cv), 48, true);
				auto it = s.mutexOwner.find(m);
				if (it == s.mutexOwner.end() || it->second != s.cur)
				{
					violation(s, "thread", "condition wait without owning the mutex");
					throw Killed{};
				}
				release(s, m);
				s.mutexOwner.erase(it);
				me2.st		  = TS::BlockCond;
				me2.waitOn	  = cv;
				me2.waitMutex = m;
				me2.notified  = false;
				me2.timed	  = timed;
				switchFrom(s);
				r = R::Stay;
				return true;
			}
			// woken up
			s.schedDone = false;
			resolve(s, mkConst(64, m), 40, true);
			bool timedOut	= !me.notified;
			me.st			= TS::Run;
			me.notified		= false;
			me.timed		= false;
			s.mutexOwner[m] = s.cur;
			acquire(s, m);
			if (timedOut && timed)
			{
				s.clockNow += 3600000000000ull; // an hour later
				if (++s.idleYields > 4000)
				{
					violation(s, "livelock", "threads time out forever without progress");
					throw Killed{};
				}
				return ret(mkConst(32, 110));
			}
			if (cb->getType()->isVoidTy())
				return ret0();
			return ret(mkConst(32, 0));
		}
		if (name == "_ZNSt18condition_variable10notify_oneEv" || name == "_ZNSt18condition_variable10notify_allEv" || name == "pthread_cond_signal"
			|| name == "pthread_cond_broadcast")
		{
			bool all	= name.find("notify_all") != std::string::npos || name == "pthread_cond_broadcast";
			uint64_t cv = C(0, "condition variable");
			if (visibleOp(s))
			{
				r = R::Stay;
				return true;
			}
			resolve(s, mkConst(64, cv), 48, true);
			std::vector<size_t> w;
			for (size_t t = 0; t < s.th.size(); t++)
				if (s.th[t].st == TS::BlockCond && s.th[t].waitOn == cv && !s.th[t].notified)
					w.push_back(t);
			s.schedDone = false;
			if (!w.empty())
				s.idleYields = 0;
			if (all)
				for (size_t t : w)
					s.th[t].notified = true;
			else if (!w.empty())
			{
				size_t pick = 0;
				if (w.size() > 1)
				{
					// explore every choice of the woken thread (recorded in the schedule)
					if (O.haveFixed && s.sched.size() < O.fixedSched.size())
					{
						int want = O.fixedSched[s.sched.size()];
						for (size_t i = 0; i < w.size(); i++)
							if ((int)w[i] == want)
								pick = i;
						s.sched.push_back(want);
					}
					else
					{
						for (size_t i = 1; i < w.size(); i++)
						{
							StateP n = clone(s);
							n->sched.push_back((int)w[i]);
							n->th[w[i]].notified = true;
							Frame& nf = n->th[(size_t)n->cur].fr.back();
							if (auto* inv = dyn_cast<InvokeInst>(cb))
							{
								(void)nf;
								transfer(*n, inv->getNormalDest());
							}
							else
								++nf.it;
							pushState(std::move(n));
						}
						s.sched.push_back((int)w[0]);
					}
				}
				s.th[w[pick]].notified = true;
			}
			return ret0();
		}
		if (name == "_ZSt25notify_all_at_thread_exit")
			return ret0();

		if (!f->isDeclaration())
			notExt[f] = true;
		return false;
	}

	void Executor::threadDone(State& s)
	{
		s.th[(size_t)s.cur].st = TS::Done;
		s.idleYields		   = 0;
		switchFrom(s);
	}

	// pause / yield: hand over to the next runnable thread (round robin, no fork); true when switched
	bool Executor::pauseOp(State& s)
	{
		if (s.th.size() <= 1)
		{
			if (++s.idleYields > 20000)
			{
				violation(s, "livelock", "single thread spins forever");
				throw Killed{};
			}
			return false;
		}
		if (s.schedDone)
		{
			s.schedDone = false;
			return false;
		}
		if (++s.idleYields > 4000)
		{
			violation(s, "livelock", "threads spin without progress");
			throw Killed{};
		}
		// (a waiter whose timed wait would have to expire only takes over when there is nobody else)
		for (size_t k = 1; k < 2 * s.th.size(); k++)
		{
			size_t t = ((size_t)s.cur + k) % s.th.size();
			if ((int)t == s.cur)
				continue;
			bool expiry = s.th[t].st == TS::BlockCond && !s.th[t].notified;
			if (enabled(s, t) && (!expiry || k > s.th.size()))
			{
				// resume *after* the pause when scheduled again
				Frame& f = top(s);
				if (auto* inv = dyn_cast<InvokeInst>(&*f.it))
					transfer(s, inv->getNormalDest());
				else
				{
					auto* I = &*f.it;
					if (!I->getType()->isVoidTy())
						setReg(s, I, Val{ mkConst(bits(I->getType()), 0) });
					++f.it;
				}
				s.cur = (int)t;
				st.switches++;
				// the thread that takes over may be blocked in a lock or wait call whose decision is already taken
				s.schedDone = s.th[t].st != TS::Run;
				return true;
			}
		}
		return false;
	}

	// ------------------------------------------------------------------ report
	static std::string esc(const std::string& s)
	{
		std::string r;
		for (char c : s)
		{
			if (c == '"' || c == '\\')
			{
				r.push_back('\\');
				r.push_back(c);
			}
			else if ((unsigned char)c < 32)
				r += ' ';
			else
				r.push_back(c);
		}
		return r;
	}
	static std::string hex(const APInt& v)
	{
		llvm::SmallString<64> b;
		v.toString(b, 16, false);
		return "0x" + std::string(b.str());
	}
	std::string Executor::json()
	{
		std::ostringstream o;
		o << "{\n \"entry\": \"" << esc(O.entry) << "\",\n";
		o << " \"status\": \"" << (!violations.empty() ? "violation" : !incomplete.empty() ? "incomplete" : "proved") << "\",\n";
		o << " \"wall_s\": " << wall << ",\n";
		o << " \"violations\": [";
		bool first = true;
		for (auto& v : violations)
		{
			o << (first ? "" : ",") << "\n  {\"kind\": \"" << esc(v.kind) << "\", \"msg\": \"" << esc(v.msg) << "\", \"where\": \"" << esc(v.where) << "\", \"inputs\": [";
			for (size_t i = 0; i < v.inputs.size(); i++)
				o << (i ? "," : "") << "[\"" << esc(v.inputs[i].first) << "\",\"" << hex(v.inputs[i].second) << "\"]";
			o << "], \"sched\": [";
			for (size_t i = 0; i < v.sched.size(); i++)
				o << (i ? "," : "") << v.sched[i];
			o << "]}";
			first = false;
		}
		o << "],\n \"incomplete\": {";
		first = true;
		for (auto& kv : incomplete)
		{
			o << (first ? "" : ",") << "\n  \"" << esc(kv.first) << "\": " << kv.second;
			first = false;
		}
		o << "},\n \"reached\": {";
		first = true;
		for (auto& kv : reached)
		{
			o << (first ? "" : ", ") << "\"" << esc(kv.first) << "\": " << kv.second;
			first = false;
		}
		o << "},\n \"samples\": [";
		first = true;
		for (auto& p : samples)
		{
			o << (first ? "" : ",") << "\n  {\"inputs\": [";
			for (size_t i = 0; i < p.inputs.size(); i++)
				o << (i ? "," : "") << "[\"" << esc(p.inputs[i].first) << "\",\"" << hex(p.inputs[i].second) << "\"]";
			o << "], \"observed\": [";
			for (size_t i = 0; i < p.observed.size(); i++)
				o << (i ? "," : "") << "[\"" << esc(p.observed[i].first) << "\",\"" << hex(p.observed[i].second) << "\"]";
			o << "]}";
			first = false;
		}
		o << "],\n";
		o << " \"stats\": {\"paths\": " << st.paths << ", \"instrs\": " << st.instrs << ", \"forks\": " << st.forks << ", \"merges\": " << st.merges
		  << ", \"checks\": " << st.checks << ", \"proved\": " << st.checksProved << ", \"trivial\": " << st.checksTrivial
		  << ", \"killed\": " << st.killedInfeasible << ", \"switches\": " << st.switches << ", \"states\": " << st.states << ", \"max_threads\": " << st.maxThreads
		  << ", \"exprs\": " << numExprs() << "},\n";
		auto& ss = S.stats;
		o << " \"solver\": {\"queries\": " << ss.queries << ", \"sat\": " << ss.sat << ", \"unsat\": " << ss.unsat << ", \"unknown\": " << ss.unknown
		  << ", \"cache_hits\": " << ss.cacheHits << ", \"external\": " << ss.external << ", \"sweeps\": " << ss.sweeps << ", \"seconds\": " << ss.seconds
		  << ", \"max_seconds\": " << ss.maxSeconds << ", \"by\": {";
		first = true;
		for (auto& kv : ss.by)
		{
			o << (first ? "" : ", ") << "\"" << esc(kv.first) << "\": " << kv.second;
			first = false;
		}
		o << "}},\n \"functions\": [";
		first = true;
		for (auto& n : srcFns)
		{
			o << (first ? "" : ",") << "\n  \"" << esc(n) << "\"";
			first = false;
		}
		o << "],\n \"lines\": {";
		std::map<std::string, std::vector<unsigned>> L;
		for (auto& p : srcLines)
			L[p.first].push_back(p.second);
		first = true;
		for (auto& kv : L)
		{
			o << (first ? "" : ",") << "\n  \"" << esc(kv.first) << "\": " << kv.second.size();
			first = false;
		}
		o << "},\n \"stubs\": [";
		first = true;
		for (auto& n : stubs)
		{
			o << (first ? "" : ", ") << "\"" << esc(n) << "\"";
			first = false;
		}
		o << "]\n}\n";
		return o.str();
	}
}
