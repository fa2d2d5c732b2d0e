#pragma once
#include "expr.h"
#include <string>
#include <vector>

namespace sym
{
	enum class Res
	{
		Sat,
		Unsat,
		Unknown
	};

	struct SolverStats
	{
		uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, external = 0, sweeps = 0;
		double seconds	 = 0;
		double maxSeconds = 0;
		std::map<std::string, uint64_t> by; // deciding engine
	};

	struct SolverOpts
	{
		double feasTimeout	= 30; // seconds, branch feasibility
		double proveTimeout = 200; // seconds, one assertion
		double internalFirst = 10; // seconds in-process before portfolio
		bool portfolio = true;
		std::string workdir = "/tmp";
		int seed = 1;
	};

	class Solver
	{
	  public:
		Solver();
		~Solver();
		SolverOpts opts;
		SolverStats stats;
		bool sweepWorked = false; // large equivalences: try sweeping first
		// conjunction satisfiable? model filled for the variables mentioned
		Res check(const std::vector<E>& conj, Model* model, double timeout);
		// validity of cond under the (already sliced) context
		Res prove(const std::vector<E>& ctx, E cond, Model* cex, double timeout);
		std::string smt2(const std::vector<E>& conj);

	  private:
		struct Impl;
		Impl* p;
	};
	double nowSec();
}
