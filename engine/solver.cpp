#include "solver.h"
#include <z3++.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <random>
#include <poll.h>

namespace sym
{
	double nowSec()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}

	struct Solver::Impl
	{
		z3::context c;
		std::unordered_map<uint32_t, z3::expr> bv, bl, fp;
		struct CacheEnt
		{
			Res r;
			std::vector<std::pair<uint32_t, APInt>> model;
		};
		std::map<std::vector<uint32_t>, CacheEnt> cache;
		int fileNo = 0;

		z3::sort fpSort(uint32_t w)
		{
			switch (w)
			{
				case 16: return c.fpa_sort(5, 11);
				case 32: return c.fpa_sort(8, 24);
				case 64: return c.fpa_sort(11, 53);
				case 80: return c.fpa_sort(15, 64);
				default: return c.fpa_sort(15, 113);
			}
		}
		z3::expr rm(uint32_t m)
		{
			Z3_ast a;
			switch (m)
			{
				case 1: a = Z3_mk_fpa_rtz(c); break;
				case 2: a = Z3_mk_fpa_rtp(c); break;
				case 3: a = Z3_mk_fpa_rtn(c); break;
				case 4: a = Z3_mk_fpa_rna(c); break;
				default: a = Z3_mk_fpa_rne(c); break;
			}
			return z3::expr(c, a);
		}
		z3::expr cst(const APInt& v)
		{
			llvm::SmallString<64> s;
			v.toString(s, 10, false);
			return c.bv_val(s.c_str(), v.getBitWidth());
		}
		static bool boolKind(E e)
		{
			if (e->w != 1)
				return false;
			switch (e->k)
			{
				case K::Eq:
				case K::Ult:
				case K::Ule:
				case K::Slt:
				case K::Sle:
				case K::FOEq:
				case K::FOLt:
				case K::FOLe:
				case K::FIsNaN:
				case K::And:
				case K::Or:
				case K::Xor:
				case K::Not:
				case K::Ite:
				case K::Const: return true;
				default: return false;
			}
		}
		z3::expr B(E e)
		{
			auto it = bl.find(e->id);
			if (it != bl.end())
				return it->second;
			z3::expr r = B_(e);
			bl.emplace(e->id, r);
			return r;
		}
		z3::expr B_(E e)
		{
			switch (e->k)
			{
				case K::Const: return c.bool_val(e->isOne());
				case K::And: return B(e->op[0]) && B(e->op[1]);
				case K::Or: return B(e->op[0]) || B(e->op[1]);
				case K::Xor: return B(e->op[0]) != B(e->op[1]);
				case K::Not: return !B(e->op[0]);
				case K::Ite: return z3::ite(B(e->op[0]), B(e->op[1]), B(e->op[2]));
				case K::Eq:
					if (e->op[0]->w == 1)
						return B(e->op[0]) == B(e->op[1]);
					return V(e->op[0]) == V(e->op[1]);
				case K::Ult: return z3::ult(V(e->op[0]), V(e->op[1]));
				case K::Ule: return z3::ule(V(e->op[0]), V(e->op[1]));
				case K::Slt: return V(e->op[0]) < V(e->op[1]);
				case K::Sle: return V(e->op[0]) <= V(e->op[1]);
				case K::FOEq: return z3::expr(c, Z3_mk_fpa_eq(c, F(e->op[0]), F(e->op[1])));
				case K::FOLt: return z3::expr(c, Z3_mk_fpa_lt(c, F(e->op[0]), F(e->op[1])));
				case K::FOLe: return z3::expr(c, Z3_mk_fpa_leq(c, F(e->op[0]), F(e->op[1])));
				case K::FIsNaN: return z3::expr(c, Z3_mk_fpa_is_nan(c, F(e->op[0])));
				default: return V(e) == c.bv_val(1, 1);
			}
		}
		z3::expr V(E e)
		{
			auto it = bv.find(e->id);
			if (it != bv.end())
				return it->second;
			z3::expr r = V_(e);
			bv.emplace(e->id, r);
			return r;
		}
		z3::expr V_(E e)
		{
			if (e->k == K::Const)
				return cst(*e->c);
			if (e->k == K::Var)
				return c.bv_const(("v" + std::to_string(e->id)).c_str(), e->w);
			if (boolKind(e))
				return z3::ite(B(e), c.bv_val(1, 1), c.bv_val(0, 1));
			switch (e->k)
			{
				case K::Add:
				{
					z3::expr r = V(e->op[0]);
					for (uint32_t i = 1; i < e->n; i++)
						r = r + V(e->op[i]);
					return r;
				}
				case K::Mul: return V(e->op[0]) * V(e->op[1]);
				case K::UDiv: return z3::udiv(V(e->op[0]), V(e->op[1]));
				case K::SDiv: return V(e->op[0]) / V(e->op[1]);
				case K::URem: return z3::urem(V(e->op[0]), V(e->op[1]));
				case K::SRem: return z3::srem(V(e->op[0]), V(e->op[1]));
				case K::And: return V(e->op[0]) & V(e->op[1]);
				case K::Or: return V(e->op[0]) | V(e->op[1]);
				case K::Xor: return V(e->op[0]) ^ V(e->op[1]);
				case K::Not: return ~V(e->op[0]);
				case K::Shl: return z3::shl(V(e->op[0]), V(e->op[1]));
				case K::LShr: return z3::lshr(V(e->op[0]), V(e->op[1]));
				case K::AShr: return z3::ashr(V(e->op[0]), V(e->op[1]));
				case K::Concat: return z3::concat(V(e->op[0]), V(e->op[1]));
				case K::Extract: return V(e->op[0]).extract(e->aux + e->w - 1, e->aux);
				case K::SExt: return z3::sext(V(e->op[0]), e->w - e->op[0]->w);
				case K::Ite: return z3::ite(B(e->op[0]), V(e->op[1]), V(e->op[2]));
				case K::FToSI: return z3::expr(c, Z3_mk_fpa_to_sbv(c, rm(1), F(e->op[0]), e->w));
				case K::FToUI: return z3::expr(c, Z3_mk_fpa_to_ubv(c, rm(1), F(e->op[0]), e->w));
				default: break;
			}
			if (isFpKind(e->k))
			{
				z3::expr f	 = F(e);
				z3::expr raw = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, f));
				z3::expr nan = z3::expr(c, Z3_mk_fpa_is_nan(c, f));
				APInt q		 = APFloat::getQNaN(sem(e->w)).bitcastToAPInt();
				if (e->w == 80)
				{
					z3::expr se = raw.extract(78, 63), fr = raw.extract(62, 0);
					z3::expr ib = z3::ite(raw.extract(77, 63) == c.bv_val(0, 15), c.bv_val(0, 1), c.bv_val(1, 1));
					raw			= z3::concat(se, z3::concat(ib, fr));
				}
				if (e->k == K::FNeg || e->k == K::FAbs)
				{
					// bit operation on the operand, keeps NaN sign behaviour
					z3::expr x = V(e->op[0]);
					z3::expr s = e->k == K::FAbs ? c.bv_val(0, 1) : ~x.extract(e->w - 1, e->w - 1);
					return z3::concat(s, x.extract(e->w - 2, 0));
				}
				return z3::ite(nan, cst(q), raw);
			}
			fprintf(stderr, "lowering: unsupported kind %d\n", (int)e->k);
			abort();
		}
		static bool fpishE(E e)
		{
			if (isFpKind(e->k))
				return true;
			if (e->k == K::Ite)
				return fpishE(e->op[1]) || fpishE(e->op[2]);
			return false;
		}
		z3::expr F(E e)
		{
			auto it = fp.find(e->id);
			if (it != fp.end())
				return it->second;
			z3::expr r = F_(e);
			fp.emplace(e->id, r);
			return r;
		}
		z3::expr F_(E e)
		{
			auto W = [&](Z3_ast a) {
				c.check_error();
				return z3::expr(c, a);
			};
			switch (e->k)
			{
				case K::FAdd: return W(Z3_mk_fpa_add(c, rm(0), F(e->op[0]), F(e->op[1])));
				case K::FSub: return W(Z3_mk_fpa_sub(c, rm(0), F(e->op[0]), F(e->op[1])));
				case K::FMul: return W(Z3_mk_fpa_mul(c, rm(0), F(e->op[0]), F(e->op[1])));
				case K::FDiv: return W(Z3_mk_fpa_div(c, rm(0), F(e->op[0]), F(e->op[1])));
				case K::FSqrt: return W(Z3_mk_fpa_sqrt(c, rm(0), F(e->op[0])));
				case K::FFma: return W(Z3_mk_fpa_fma(c, rm(0), F(e->op[0]), F(e->op[1]), F(e->op[2])));
				case K::FRint: return W(Z3_mk_fpa_round_to_integral(c, rm(e->aux), F(e->op[0])));
				case K::FNeg: return W(Z3_mk_fpa_neg(c, F(e->op[0])));
				case K::FAbs: return W(Z3_mk_fpa_abs(c, F(e->op[0])));
				case K::FCvt: return W(Z3_mk_fpa_to_fp_float(c, rm(e->aux), F(e->op[0]), fpSort(e->w)));
				case K::SIToF: return W(Z3_mk_fpa_to_fp_signed(c, rm(0), V(e->op[0]), fpSort(e->w)));
				case K::UIToF: return W(Z3_mk_fpa_to_fp_unsigned(c, rm(0), V(e->op[0]), fpSort(e->w)));
				case K::FRem: return c.constant(("frem" + std::to_string(e->id)).c_str(), fpSort(e->w)); // over-approximation
				case K::Ite:
					if (fpishE(e))
						return z3::ite(B(e->op[0]), F(e->op[1]), F(e->op[2]));
					break;
				default: break;
			}
			z3::expr b = V(e);
			if (e->w == 80)
				b = z3::concat(b.extract(79, 64), b.extract(62, 0));
			return W(Z3_mk_fpa_to_fp_bv(c, b, fpSort(e->w)));
		}

		static bool hasFp(const std::vector<E>& es)
		{
			std::vector<E> st(es.begin(), es.end());
			std::set<uint32_t> seen;
			while (!st.empty())
			{
				E x = st.back();
				st.pop_back();
				if (!seen.insert(x->id).second)
					continue;
				if (x->k >= K::FAdd && x->k <= K::FIsNaN && x->k != K::FNeg && x->k != K::FAbs)
					return true;
				for (uint32_t i = 0; i < x->n; i++)
					st.push_back(x->op[i]);
			}
			return false;
		}
	};

	Solver::Solver()
		: p(new Impl)
	{}
	Solver::~Solver()
	{
		delete p;
	}

	std::string Solver::smt2(const std::vector<E>& conj)
	{
		z3::solver s(p->c);
		for (E e : conj)
			s.add(p->B(e));
		return s.to_smt2();
	}

	static void varsUnion(const std::vector<E>& es, std::set<uint32_t>& out)
	{
		for (E e : es)
			for (uint32_t v : varsOf(e))
				out.insert(v);
	}

	namespace
	{
		struct Proc
		{
			pid_t pid;
			int fd;
			std::string name, out;
			bool done = false;
		};
		Proc spawn(const std::string& name, const std::vector<std::string>& argv)
		{
			int fds[2];
			if (pipe(fds))
				abort();
			pid_t pid = fork();
			if (pid == 0)
			{
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				setpgid(0, 0);
				dup2(fds[1], 1);
				int dn = open("/dev/null", O_RDWR);
				dup2(dn, 0);
				dup2(dn, 2);
				for (int i = 3; i < 256; i++)
					close(i);
				std::vector<char*> a;
				for (auto& s : argv)
					a.push_back(const_cast<char*>(s.c_str()));
				a.push_back(nullptr);
				execvp(a[0], a.data());
				_exit(127);
			}
			close(fds[1]);
			fcntl(fds[0], F_SETFL, O_NONBLOCK);
			return { pid, fds[0], name, "" };
		}
	}

	static bool isUninit(E v) { return v->name && (v->name->compare(0, 8, "$muninit") == 0 || v->name->compare(0, 6, "$undef") == 0); }

	Res Solver::check(const std::vector<E>& conj0, Model* model, double timeout)
	{
		// flatten conjunctions
		std::vector<E> conj;
		{
			std::vector<E> st(conj0.rbegin(), conj0.rend());
			std::set<uint32_t> seen;
			while (!st.empty())
			{
				E e = st.back();
				st.pop_back();
				if (e->isTrue())
					continue;
				if (e->isFalse())
					return Res::Unsat;
				if (e->k == K::And)
				{
					st.push_back(e->op[1]);
					st.push_back(e->op[0]);
					continue;
				}
				if (seen.insert(e->id).second)
					conj.push_back(e);
			}
			for (E e : conj)
				if (e->k == K::Not && seen.count(e->op[0]->id))
					return Res::Unsat;
		}
		if (conj.empty())
			return Res::Sat;
		std::vector<uint32_t> key;
		for (E e : conj)
			key.push_back(e->id);
		std::sort(key.begin(), key.end());
		auto it = p->cache.find(key);
		if (it != p->cache.end() && it->second.r != Res::Unknown)
		{
			stats.cacheHits++;
			if (model && it->second.r == Res::Sat)
				for (auto& v : it->second.model)
					model->set(varById(v.first), v.second);
			return it->second.r;
		}
		std::set<uint32_t> vars;
		varsUnion(conj, vars);
		double t0 = nowSec();
		stats.queries++;
		Impl::CacheEnt ent;
		ent.r		   = Res::Unknown;
		std::string by = "z3";
		auto verify	   = [&](const std::vector<std::pair<uint32_t, APInt>>& mv) {
			   Model m;
			   for (auto& v : mv)
				   m.set(varById(v.first), v.second);
			   for (E e : conj)
				   if (!eval(e, m).isOne())
					   return false;
			   return true;
		};
		bool fpq = Impl::hasFp(conj);
		// formulas over a handful of input bits: case split on the input, every case folds to a constant
		unsigned bits = 0;
		bool partial  = false; // with variables that stand for never-written bytes: usually on infeasible arms only
		for (uint32_t id : vars)
			if (isUninit(varById(id)))
				partial = true;
			else
				bits += varById(id)->w;
		const bool small = bits <= (partial ? 6 : 8) && bits > 0;
		size_t nodes = 0;
		if (small)
			for (E e : conj)
				nodes += dagSize(e);
		const bool direct = small && (fpq ? bits <= 8 : bits <= 6 && nodes > 300);
		auto caseSplit = [&] {
			if (partial)
			{
				by		 = "case-split";
				bool all = true;
				for (uint64_t x = 0; x < (uint64_t(1) << bits) && all; x++)
				{
					std::unordered_map<E, E> to, memo;
					uint64_t rest = x;
					for (uint32_t id : vars)
						if (E v = varById(id); !isUninit(v))
						{
							to[v] = mkConst(APInt(v->w, rest & ((uint64_t(1) << v->w) - 1)));
							rest >>= v->w;
						}
					bool dead = false;
					for (size_t i = conj.size(); i-- > 0 && !dead;)
						dead = substitute(conj[i], to, memo)->isFalse();
					all = dead;
				}
				if (all)
					ent.r = Res::Unsat;
			}
			else
			{
				by	  = "case-split";
				ent.r = Res::Unsat;
				for (uint64_t x = 0; x < (uint64_t(1) << bits) && ent.r == Res::Unsat; x++)
				{
					std::vector<std::pair<uint32_t, APInt>> mv;
					uint64_t rest = x;
					for (uint32_t id : vars)
					{
						uint32_t w = varById(id)->w;
						mv.emplace_back(id, APInt(w, rest & ((uint64_t(1) << w) - 1)));
						rest >>= w;
					}
					if (verify(mv))
					{
						ent.r	  = Res::Sat;
						ent.model = mv;
					}
				}
			}
			if (ent.r == Res::Unknown)
				by = "z3";
		};
		if (direct)
			caseSplit();
		if (ent.r == Res::Unknown)
			try
		{
			double t1 = opts.portfolio ? std::min(timeout, small && !direct ? 0.1 : opts.internalFirst) : timeout;
			z3::solver s = z3::tactic(p->c, fpq ? "qffp" : "qfbv").mk_solver();
			z3::params pr(p->c);
			pr.set("timeout", (unsigned)(t1 * 1000));
			s.set(pr);
			for (E e : conj)
				s.add(p->B(e));
			z3::check_result r = s.check();
			if (r == z3::unsat)
				ent.r = Res::Unsat;
			else if (r == z3::sat)
			{
				z3::model m = s.get_model();
				for (uint32_t id : vars)
				{
					E v		   = varById(id);
					z3::expr x = m.eval(p->V(v), true);
					std::string str;
					if (x.is_numeral(str))
						ent.model.emplace_back(id, APInt(v->w, str, 10));
					else
						ent.model.emplace_back(id, APInt(v->w, 0));
				}
				if (verify(ent.model))
					ent.r = Res::Sat;
				else
				{
					by = "z3-model-mismatch";
					ent.model.clear();
				}
			}
		}
		catch (z3::exception& ex)
		{
			fprintf(stderr, "z3: %s\n", ex.msg());
		}
		if (ent.r == Res::Unknown && small && !direct)
			caseSplit();
		if (ent.r == Res::Unknown && opts.portfolio && timeout > opts.internalFirst)
		{
			stats.external++;
			std::string base = opts.workdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(p->fileNo++);
			std::string f1	 = base + ".smt2";
			{
				std::ofstream o(f1);
				o << "(set-logic " << (fpq ? "QF_BVFP" : "QF_BV") << ")\n(set-option :produce-models true)\n";
				std::string txt = smt2(conj);
				// strip z3's set-info / check-sat
				std::istringstream is(txt);
				std::string line;
				while (std::getline(is, line))
				{
					if (line.rfind("(check-sat)", 0) == 0 || line.rfind("(set-info", 0) == 0 || line.rfind(";", 0) == 0)
						continue;
					o << line << "\n";
				}
				o << "(check-sat)\n";
				if (!vars.empty())
				{
					o << "(get-value (";
					for (uint32_t v : vars)
						o << " v" << v;
					o << "))\n";
				}
			}
			std::vector<Proc> ps;
			std::string tl = std::to_string((int)timeout + 1);
			ps.push_back(spawn("cvc5", { "cvc5", "--lang=smt2", "--tlimit=" + std::to_string((int)(timeout * 1000)), f1 }));
			ps.push_back(spawn("z3-cli", { "z3-new", "-T:" + tl, f1 }));
			std::string cnf = base + ".cnf";
			{
				// bit-blast in a child of our own, then kissat
				try
				{
					z3::goal g(p->c);
					for (E e : conj)
						g.add(p->B(e));
					z3::tactic t = z3::tactic(p->c, "simplify");
					if (fpq)
						t = t & z3::tactic(p->c, "fpa2bv");
					t = t & z3::tactic(p->c, "simplify") & z3::tactic(p->c, "propagate-values") & z3::tactic(p->c, "solve-eqs")
						& z3::tactic(p->c, "elim-uncnstr") & z3::tactic(p->c, "simplify") & z3::tactic(p->c, "bit-blast")
						& z3::tactic(p->c, "simplify") & z3::tactic(p->c, "tseitin-cnf");
					z3::tactic tt = z3::try_for(t, 30000);
					z3::apply_result ar = tt(g);
					if (ar.size() == 1)
					{
						std::ofstream o(cnf);
						o << ar[0].dimacs(false);
						o.close();
						ps.push_back(spawn("kissat", { "kissat", "-q", "-n", "--time=" + tl, cnf }));
						ps.push_back(spawn("cadical", { "cadical", "-q", "-n", "-t", tl, cnf }));
					}
				}
				catch (z3::exception&)
				{}
			}
			double deadline = t0 + timeout;
			size_t live		= ps.size();
			while (live && ent.r == Res::Unknown)
			{
				double left = deadline - nowSec();
				if (left <= 0)
					break;
				std::vector<pollfd> pf;
				for (auto& q : ps)
					if (!q.done)
						pf.push_back({ q.fd, POLLIN, 0 });
				poll(pf.data(), pf.size(), std::min(1000, (int)(left * 1000) + 1));
				for (auto& q : ps)
				{
					if (q.done)
						continue;
					char buf[4096];
					while (true)
					{
						ssize_t n = read(q.fd, buf, sizeof buf);
						if (n > 0)
							q.out.append(buf, (size_t)n);
						else
						{
							if (n == 0)
							{
								q.done = true;
								live--;
								waitpid(q.pid, nullptr, 0);
								q.pid = 0;
							}
							break;
						}
					}
					if (q.done && ent.r == Res::Unknown)
					{
						if (q.name == "kissat" || q.name == "cadical")
						{
							if (q.out.find("s UNSATISFIABLE") != std::string::npos)
							{
								ent.r = Res::Unsat;
								by	  = q.name;
							}
							continue;
						}
						if (q.out.find("unsat") == 0)
						{
							// "(error" after unsat comes from get-value; before it would not be at position 0
							ent.r = Res::Unsat;
							by	  = q.name;
						}
						else if (q.out.find("sat") == 0)
						{
							std::vector<std::pair<uint32_t, APInt>> mv;
							size_t pos = 0;
							while ((pos = q.out.find("(v", pos)) != std::string::npos)
							{
								size_t e   = q.out.find(' ', pos);
								uint32_t id = (uint32_t)std::stoul(q.out.substr(pos + 2, e - pos - 2));
								size_t f   = q.out.find(')', e);
								std::string val = q.out.substr(e + 1, f - e - 1);
								E v		   = varById(id);
								if (val.rfind("#b", 0) == 0)
									mv.emplace_back(id, APInt(v->w, val.substr(2), 2));
								else if (val.rfind("#x", 0) == 0)
									mv.emplace_back(id, APInt(v->w, val.substr(2), 16));
								pos = f;
							}
							if (verify(mv))
							{
								ent.r	  = Res::Sat;
								ent.model = mv;
								by		  = q.name;
							}
						}
					}
				}
			}
			for (auto& q : ps)
			{
				if (q.pid)
				{
					kill(-q.pid, SIGKILL);
					kill(q.pid, SIGKILL);
					waitpid(q.pid, nullptr, 0);
				}
				close(q.fd);
			}
			if (!getenv("MUUSYM_KEEP"))
			{
				unlink(f1.c_str());
				unlink(cnf.c_str());
			}
		}
		double dt = nowSec() - t0;
		stats.seconds += dt;
		stats.maxSeconds = std::max(stats.maxSeconds, dt);
		if (ent.r == Res::Sat)
			stats.sat++;
		else if (ent.r == Res::Unsat)
			stats.unsat++;
		else
			stats.unknown++;
		if (ent.r != Res::Unknown)
			stats.by[by]++;
		if (getenv("MUUSYM_TRACE_SOLVER") && dt > 1)
			fprintf(stderr, "[solver] %.1fs %s by %s (%zu conj)\n", dt, ent.r == Res::Sat ? "sat" : ent.r == Res::Unsat ? "unsat" : "unknown", by.c_str(), conj.size());
		if (model && ent.r == Res::Sat)
			for (auto& v : ent.model)
				model->set(varById(v.first), v.second);
		if (p->cache.size() < 200000)
			p->cache[key] = ent;
		return ent.r;
	}

	// ------------------------------------------------------------ SAT sweeping
	namespace
	{
		// per-bit linear form over GF(2): sorted leaf bits (id * 256 + bit) and a constant (id 0)
		using LinBits = std::vector<std::vector<uint64_t>>;
		const LinBits* linForm(E e)
		{
			static std::unordered_map<E, std::unique_ptr<LinBits>> memo;
			auto it = memo.find(e);
			if (it != memo.end())
				return it->second.get();
			auto r = std::make_unique<LinBits>();
			auto add = [](const std::vector<uint64_t>& x, const std::vector<uint64_t>& y) {
				std::vector<uint64_t> z;
				std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z));
				return z;
			};
			const std::vector<uint64_t> one{ 1 };
			if (e->isConst())
			{
				for (uint32_t i = 0; i < e->w; i++)
					r->push_back((*e->c)[i] ? one : std::vector<uint64_t>{});
			}
			else if (e->k == K::Xor)
			{
				const LinBits *a = linForm(e->op[0]), *b = linForm(e->op[1]);
				if (a && b)
					for (uint32_t i = 0; i < e->w; i++)
						r->push_back(add((*a)[i], (*b)[i]));
			}
			else if (e->k == K::Not)
			{
				if (const LinBits* a = linForm(e->op[0]))
					for (auto& x : *a)
						r->push_back(add(x, one));
			}
			else if (e->k == K::Concat)
			{
				const LinBits *h = linForm(e->op[0]), *l = linForm(e->op[1]);
				if (h && l)
				{
					*r = *l;
					r->insert(r->end(), h->begin(), h->end());
				}
			}
			else if (e->k == K::Extract)
			{
				if (const LinBits* a = linForm(e->op[0]))
					r->assign(a->begin() + e->aux, a->begin() + e->aux + e->w);
			}
			else if (e->w <= 256)
				for (uint32_t i = 0; i < e->w; i++)
					r->push_back({ ((uint64_t)e->id + 1) * 256 + i });
			size_t total = 0;
			for (auto& x : *r)
				total += x.size();
			if (r->size() != e->w || total > 64000)
				r.reset();
			return (memo[e] = std::move(r)).get();
		}
		// the first expression seen with the same linear form
		E linCanon(E e)
		{
			if (e->k != K::Xor && e->k != K::Concat && e->k != K::Not)
				return e;
			const LinBits* l = linForm(e);
			if (!l)
				return e;
			uint64_t h = e->w;
			for (auto& b : *l)
			{
				h = (h ^ b.size()) * 0x9E3779B97F4A7C15ull;
				for (uint64_t x : b)
					h = (h ^ x) * 0x100000001B3ull + (h >> 31);
			}
			static std::unordered_map<uint64_t, std::vector<E>> seen;
			auto& v = seen[h];
			for (E x : v)
				if (x == e || (x->w == e->w && *linForm(x) == *l))
					return x;
			v.push_back(e);
			return e;
		}
		struct Sweeper
		{
			Solver& s;
			const std::vector<E>& ctx;
			double deadline;
			std::unordered_map<E, E> repr; // proven equal replacement
			int abstractId = 0;

			// replace deep sub-terms by fresh variables
			E cut(E e, int depth, std::unordered_map<E, E>& memo)
			{
				if (e->n == 0)
					return e;
				if (depth <= 0)
				{
					auto it = memo.find(e);
					if (it != memo.end())
						return it->second;
					return memo[e] = mkVar(e->w, "$cut" + std::to_string(e->id));
				}
				std::vector<E> o(e->n);
				for (uint32_t i = 0; i < e->n; i++)
					o[i] = cut(e->op[i], depth - 1, memo);
				return rebuild(e, o);
			}
			void cone(E e, std::unordered_map<E, int>& c, size_t lim)
			{
				std::vector<E> st{ e };
				while (!st.empty() && c.size() < lim)
				{
					E x = st.back();
					st.pop_back();
					if (!c.emplace(x, 0).second)
						continue;
					for (uint32_t i = 0; i < x->n; i++)
						st.push_back(x->op[i]);
				}
			}
			// rebuilt with the nodes of the other cone as free variables; size counts the rebuilt nodes
			E cutAt(E e, const std::unordered_map<E, int>& other, std::unordered_map<E, E>& memo, size_t& size, bool bitwise)
			{
				if (e->n == 0)
					return e;
				auto it = memo.find(e);
				if (it != memo.end())
					return it->second;
				const bool wires = e->k == K::Concat || e->k == K::Extract || e->k == K::Not;
				const bool logic = wires || e->k == K::And || e->k == K::Or || e->k == K::Xor;
				if (!(bitwise ? wires : logic) && other.count(e))
					return memo[e] = mkVar(e->w, "$cut" + std::to_string(e->id));
				size++;
				std::vector<E> o(e->n);
				for (uint32_t i = 0; i < e->n; i++)
					o[i] = size > 600 ? e->op[i] : cutAt(e->op[i], other, memo, size, bitwise);
				return memo[e] = rebuild(e, o);
			}
			bool tryEqual(E a, E b)
			{
				auto lin = [](E e) { return e->k == K::Xor || e->k == K::Concat || e->k == K::Extract || e->k == K::Not; };
				if (lin(a) || lin(b))
				{
					const LinBits *x = linForm(a), *y = linForm(b);
					if (x && y && *x == *y)
						return true;
				}
				{
					std::unordered_map<E, int> ca, cb;
					cone(a, ca, 200000);
					cone(b, cb, 200000);
					if (!cb.count(a) && !ca.count(b))
						for (bool bitwise : { true, false })
						{
							std::unordered_map<E, E> ma, mb;
							size_t sa = 0, sb = 0;
							E x = cutAt(a, cb, ma, sa, bitwise), y = cutAt(b, ca, mb, sb, bitwise);
							if (sa <= 600 && sb <= 600)
							{
								E eq = mkEq(x, y);
								if (eq->isTrue())
									return true;
								if (!eq->isFalse() && s.check({ mkNot(eq) }, nullptr, 2.0) == Res::Unsat)
									return true;
							}
						}
				}
				for (int depth : { 3, 6, 10 })
				{
					std::unordered_map<E, E> memo;
					E x = cut(a, depth, memo), y = cut(b, depth, memo);
					E eq = mkEq(x, y);
					if (eq->isTrue())
						return true;
					if (eq->isFalse())
						continue;
					Model m;
					if (s.check({ mkNot(eq) }, &m, 2.0) == Res::Unsat)
						return true;
					if (nowSec() > deadline)
						return false;
				}
				return false;
			}
		};
	}

	static bool sweepProve(Solver& s, const std::vector<E>& ctx, E goal, double timeout, int seed)
	{
		s.stats.sweeps++;
		double deadline = nowSec() + timeout;
		// topological order
		std::vector<E> order;
		{
			std::unordered_map<E, int> st;
			std::vector<E> stack{ goal };
			while (!stack.empty())
			{
				E x = stack.back();
				if (st[x] == 0)
				{
					st[x] = 1;
					for (uint32_t i = 0; i < x->n; i++)
						if (!st[x->op[i]])
							stack.push_back(x->op[i]);
				}
				else
				{
					stack.pop_back();
					if (st[x] == 1)
					{
						st[x] = 2;
						order.push_back(x);
					}
				}
			}
		}
		if (order.size() > 400000)
			return false;
		// random simulation on the original dag; nothing proved here depends on the context, so it is kept for later goals
		const int N = 24;
		static std::mt19937_64 rng((uint64_t)seed);
		static std::vector<Model> ms(N);
		static std::set<uint32_t> haveVar;
		static std::map<std::string, std::vector<E>> classes; // signature -> representatives (rewritten)
		static std::unordered_map<E, E> nw;					   // original -> rewritten
		for (uint32_t v : varsOf(goal))
		{
			if (!haveVar.insert(v).second)
				continue;
			E x = varById(v);
			for (int i = 0; i < N; i++)
			{
				APInt a(x->w, 0);
				for (unsigned b = 0; b < x->w; b++)
					if (rng() & 1)
						a.setBit(b);
				if (i == 0)
					a = APInt(x->w, 0);
				ms[i].set(x, a);
			}
		}
		Sweeper sw{ s, ctx, deadline };
		for (E& e : order)
		{
			if (nw.count(e))
				continue;
			E r = e;
			if (e->n)
			{
				std::vector<E> o(e->n);
				bool ch = false;
				for (uint32_t i = 0; i < e->n; i++)
				{
					o[i] = nw[e->op[i]];
					ch |= o[i] != e->op[i];
				}
				if (ch)
					r = rebuild(e, o);
				// bits of a linear expression that cancel are constants
				if (r->k == K::Xor || r->k == K::Concat)
					if (const LinBits* lb = linForm(r))
					{
						const auto kb = known(r);
						bool news	  = false;
						auto cst	  = [&](uint32_t i) { return (*lb)[i].empty() || ((*lb)[i].size() == 1 && (*lb)[i][0] == 1); };
						for (uint32_t i = 0; i < r->w && !news; i++)
							news = cst(i) && !kb.Zero[i] && !kb.One[i];
						if (news)
						{
							E out = nullptr;
							for (uint32_t i = 0; i < r->w;)
							{
								uint32_t j = i;
								E piece;
								if (cst(i))
								{
									APInt v(1, 0);
									while (j < r->w && cst(j))
										j++;
									v = APInt(j - i, 0);
									for (uint32_t q = i; q < j; q++)
										if (!(*lb)[q].empty())
											v.setBit(q - i);
									piece = mkConst(v);
								}
								else
								{
									while (j < r->w && !cst(j))
										j++;
									piece = mkExtract(r, i, j - i);
								}
								out = out ? mkConcat(piece, out) : piece;
								i	= j;
							}
							r = out;
						}
					}
				r = linCanon(r);
				if (r->k == K::Add)
				{
					std::vector<E> q(r->op, r->op + r->n);
					bool chg = false;
					for (E& x : q)
					{
						E y = linCanon(x);
						chg |= y != x;
						x = y;
					}
					if (chg)
						r = rebuild(r, q);
				}
			}
			if (e->n && (e->w >= 8 || (e->w > 1 && order.size() < 30000)))
			{
				std::string sig = std::to_string(e->w) + ":";
				for (int i = 0; i < N; i++)
				{
					llvm::SmallString<40> ss;
					eval(e, ms[i]).toString(ss, 36, false);
					sig += ss.str();
					sig += ",";
				}
				auto& cl = classes[sig];
				bool found = false;
				for (E c : cl)
				{
					if (c == r)
					{
						found = true;
						break;
					}
				}
				if (!found)
				{
					int tries = 0;
					for (E c : cl)
					{
						if (tries++ > 3)
							break;
						double t0 = nowSec();
						bool okk = sw.tryEqual(c, r);
						if (getenv("MUUSYM_DBG") && nowSec()-t0 > 0.05) fprintf(stderr,"sweep %zu/%zu w%u k%d ok%d %.2fs\n A %s\n B %s\n", (size_t)(&e-&order[0]), order.size(), e->w, (int)e->k, (int)okk, nowSec()-t0, str(c,3).c_str(), str(r,3).c_str());
						if (okk)
						{
							r	  = c;
							found = true;
							break;
						}
					}
				}
				if (!found)
					cl.push_back(r);
			}
			nw[e] = r;
			if (nowSec() > deadline)
				return false;
		}
		E g = nw[goal];
		if (g->isTrue())
			return true;
		std::vector<E> q = ctx;
		q.push_back(mkNot(g));
		return s.check(q, nullptr, std::max(1.0, deadline - nowSec())) == Res::Unsat;
	}

	// A == B by structural congruence: descend while the two terms have the same operator and decide the leaves
	// where they differ with short queries under the context
	struct Congruence
	{
		Solver& s;
		const std::vector<E>& ctx;
		double deadline;
		int queries = 0, splits = 0;
		std::map<std::pair<E, E>, bool> memo;
		bool leaf(E a, E b)
		{
			if (queries >= 60 || nowSec() > deadline)
				return false;
			E eq = mkEq(a, b);
			if (eq->isTrue())
				return true;
			if (eq->isFalse() || dagSize(eq) > 250)
				return false;
			queries++;
			std::vector<E> q = ctx;
			q.push_back(mkNot(eq));
			bool u = s.check(q, nullptr, 1.0) == Res::Unsat; if (!u && getenv("MUUSYM_DBG")) fprintf(stderr, "congr leaf fail w%u\n A %s\n B %s\n", a->w, str(a, 6).c_str(), str(b, 6).c_str()); return u;
		}
		bool same(E a, E b, int depth)
		{
			if (a == b)
				return true;
			if (a->w != b->w || depth > 4000)
				return false;
			if (a > b)
				std::swap(a, b);
			auto it = memo.find({ a, b });
			if (it != memo.end())
				return it->second;
			bool r = false;
			if (a->k == b->k && a->n == b->n && a->n && a->aux == b->aux)
			{
				r = true;
				for (uint32_t i = 0; i < a->n && r; i++)
					r = a->op[i]->w == b->op[i]->w;
				for (uint32_t i = 0; i < a->n && r; i++)
					r = same(a->op[i], b->op[i], depth + 1);
				const bool comm = a->k == K::Add || a->k == K::Mul || a->k == K::Xor || a->k == K::And || a->k == K::Or;
				if (!r && comm && a->n == 2 && a->op[0]->w == b->op[1]->w)
					r = same(a->op[0], b->op[1], depth + 1) && same(a->op[1], b->op[0], depth + 1);
			}
			if (!r && (a->k == K::Ite || b->k == K::Ite) && splits < 12)
			{
				splits++;
				E ite = a->k == K::Ite ? a : b, other = a->k == K::Ite ? b : a;
				r	  = true;
				for (int side = 0; side < 2 && r; side++)
				{
					std::vector<E> sub = ctx;
					sub.push_back(side ? mkNot(ite->op[0]) : ite->op[0]);
					Congruence c{ s, sub, deadline, queries, splits };
					E x = ite->op[1 + side], y = other;
					// use the side condition: it becomes a constant, and x = const replaces x
					std::unordered_map<E, E> m, memo;
					m[ite->op[0]] = mkBool(side == 0);
					if (side == 0 && ite->op[0]->k == K::Eq)
					{
						E p = ite->op[0]->op[0], q = ite->op[0]->op[1];
						if (p->isConst())
							m[q] = p;
						else if (q->isConst())
							m[p] = q;
					}
					x		= substitute(x, m, memo);
					y		= substitute(y, m, memo);
					r		= c.same(x, y, depth + 1);
					queries = c.queries;
					splits	= c.splits;
				}
			}
			if (!r)
				r = leaf(a, b);
			return memo[{ a, b }] = r;
		}
	};

	// Do two floating-point terms denote the same value (bit-identical, or both zero, or both NaN) because they are built by
	// the same operations from operands that do? Whole-number subterms are compared as integers.
	struct FpCongruence
	{
		Solver& s;
		const std::vector<E>& ctx;
		double deadline;
		int queries = 0;
		std::map<std::pair<E, E>, bool> memo;

		bool holds(E c)
		{
			if (c->isTrue())
				return true;
			if (c->isFalse() || ++queries > 40 || nowSec() > deadline)
				return false;
			for (auto p : ctx)
				if (p == c)
					return true;
			return s.prove(ctx, c, nullptr, std::min(5.0, std::max(0.5, deadline - nowSec()))) == Res::Unsat;
		}
		bool nonZero(E x, E y) // one of two equal values: enough to know it of either
		{
			E cx = mkNot(mkFOEq(x, mkConst(x->w, 0))), cy = mkNot(mkFOEq(y, mkConst(y->w, 0)));
			for (auto p : ctx)
				if (p == cx || p == cy)
					return true;
			return holds(cy) || holds(cx);
		}
		bool same(E a, E b)
		{
			if (a == b)
				return true;
			if (a->w != b->w || nowSec() > deadline)
				return false;
			auto it = memo.find({ a, b });
			if (it != memo.end())
				return it->second;
			return memo[{ a, b }] = compute(a, b);
		}
		bool compute(E a, E b)
		{
			if (exact(a).ok && exact(b).ok)
				return holds(mkFOEq(a, b));
			if (a->k != b->k || a->aux != b->aux || a->n != b->n)
				return false;
			switch (a->k)
			{
				case K::FAdd:
				case K::FMul:
					return (same(a->op[0], b->op[0]) && same(a->op[1], b->op[1])) || (same(a->op[0], b->op[1]) && same(a->op[1], b->op[0]));
				case K::FSub: return same(a->op[0], b->op[0]) && same(a->op[1], b->op[1]);
				case K::FDiv:
					return same(a->op[0], b->op[0]) && same(a->op[1], b->op[1])
						&& (a->op[1] == b->op[1] || nonZero(a->op[1], b->op[1]));
				case K::FFma:
					return same(a->op[2], b->op[2])
						&& ((same(a->op[0], b->op[0]) && same(a->op[1], b->op[1])) || (same(a->op[0], b->op[1]) && same(a->op[1], b->op[0])));
				case K::FSqrt:
				case K::FRint:
				case K::FNeg:
				case K::FAbs: return same(a->op[0], b->op[0]);
				case K::FCvt: return a->op[0]->w == b->op[0]->w && same(a->op[0], b->op[0]);
				default: return false;
			}
		}
	};
	// facts of the form FOEq(a, b) that hold by congruence (unless both are NaN)
	static E fpRewrite(Solver& s, const std::vector<E>& ctx, E cond, double timeout)
	{
		std::vector<E> todo{ cond }, eqs;
		std::set<E> seen;
		while (!todo.empty() && eqs.size() < 16)
		{
			E e = todo.back();
			todo.pop_back();
			if (!seen.insert(e).second || e->w != 1)
				continue;
			if (e->k == K::FOEq && !(exact(e->op[0]).ok && exact(e->op[1]).ok))
				eqs.push_back(e);
			else if (e->k == K::And || e->k == K::Or || e->k == K::Not || e->k == K::Ite || e->k == K::Xor)
				for (uint32_t i = 0; i < e->n; i++)
					todo.push_back(e->op[i]);
		}
		if (eqs.empty())
			return cond;
		FpCongruence c{ s, ctx, nowSec() + timeout };
		std::unordered_map<E, E> m, memo;
		for (auto e : eqs)
			if (c.same(e->op[0], e->op[1]))
			{
				m[e]						= mkNot(mkFIsNaN(e->op[0]));
				E nb						= mkFIsNaN(e->op[1]);
				if (!nb->isConst() && nb != mkFIsNaN(e->op[0]))
					m[nb] = mkFIsNaN(e->op[0]);
			}
		return m.empty() ? cond : substitute(cond, m, memo);
	}

	Res Solver::prove(const std::vector<E>& ctx, E cond, Model* cex, double timeout)
	{
		if (cond->isTrue())
			return Res::Unsat;
		{
			std::vector<E> q = ctx;
			q.push_back(mkNot(cond));
			std::set<uint32_t> vars;
			varsUnion(q, vars);
			unsigned bits = 0;
			for (uint32_t id : vars)
				bits += isUninit(varById(id)) ? 0 : varById(id)->w;
			if (bits > 0 && bits <= 8 && Impl::hasFp(q) || bits <= 6 && dagSize(cond) > 100)
				return check(q, cex, timeout);
		}
		{
			E r = fpRewrite(*this, ctx, cond, timeout * 0.4);
			if (r != cond)
			{
				stats.by["fp-congruence"]++;
				cond = r;
				if (cond->isTrue())
					return Res::Unsat;
			}
		}
		// ring normalisation of equalities
		if (cond->k == K::Eq && cond->op[0]->w > 1)
		{
			E d = mkSub(cond->op[0], cond->op[1]);
			E n = polyNormalize(d);
			if (n->isZero())
			{
				stats.by["ring-normal-form"]++;
				return Res::Unsat;
			}
			if (n->isConst())
				cond = mkBool(false);
		}
		if (cond->k == K::And)
		{
			Res a = prove(ctx, cond->op[0], cex, timeout);
			if (a != Res::Unsat)
				return a;
			return prove(ctx, cond->op[1], cex, timeout);
		}
		std::vector<E> q = ctx;
		q.push_back(mkNot(cond));
		size_t sz = dagSize(cond);
		if (getenv("MUUSYM_DBG"))
			fprintf(stderr, "prove sz %zu k%d %s\n", sz, (int)cond->k, str(cond, 5).c_str());
		if (sz > 12 && cond->k == K::Eq && cond->op[0]->w > 1)
		{
			const bool pf	   = opts.portfolio;
			opts.portfolio = false;
			Congruence c{ *this, ctx, nowSec() + timeout * 0.2 };
			const bool ok = c.same(cond->op[0], cond->op[1], 0);
			if (getenv("MUUSYM_DBG"))
				fprintf(stderr, "congruence sz %zu ok %d queries %d splits %d %.1fs\n", sz, ok, c.queries, c.splits, nowSec() - c.deadline + timeout * 0.2);
			opts.portfolio = pf;
			if (ok)
			{
				stats.by["congruence"]++;
				return Res::Unsat;
			}
		}
		if (sz > 1500 && timeout > 20)
		{
			// likely an equivalence of two large circuits: short attempt, then sweeping, then the full budget
			if ((sweepWorked || sz > 4000) && sweepProve(*this, ctx, cond, timeout * 0.5, opts.seed))
			{
				stats.by["sweep"]++;
				return Res::Unsat;
			}
			double save = opts.internalFirst;
			bool pf = opts.portfolio;
			opts.portfolio = false;
			Res r = check(q, cex, 8);
			opts.portfolio = pf;
			opts.internalFirst = save;
			if (r != Res::Unknown)
				return r;
			if (!(sweepWorked || sz > 4000) && sweepProve(*this, ctx, cond, timeout * 0.5, opts.seed))
			{
				sweepWorked = true;
				stats.by["sweep"]++;
				return Res::Unsat;
			}
			return check(q, cex, timeout);
		}
		return check(q, cex, timeout);
	}
}
