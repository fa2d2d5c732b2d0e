#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <pthread.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sstream>

using namespace sym;

static int argc_;
static char** argv_;
static int rc_ = 0;

static void* body(void*)
{
	std::string file, out;
	ExecOpts o;
	Solver S;
	for (int i = 1; i < argc_; i++)
	{
		std::string a = argv_[i], k = a, v;
		size_t eq	  = a.find('=');
		if (a.rfind("--", 0) == 0)
		{
			if (eq != std::string::npos)
			{
				k = a.substr(0, eq);
				v = a.substr(eq + 1);
			}
			if (k == "--entry")
				o.entry = v;
			else if (k == "--budget")
				o.budget = atof(v.c_str());
			else if (k == "--prove-timeout")
				S.opts.proveTimeout = atof(v.c_str());
			else if (k == "--feas-timeout")
				S.opts.feasTimeout = atof(v.c_str());
			else if (k == "--internal-first")
				S.opts.internalFirst = atof(v.c_str());
			else if (k == "--seed")
				S.opts.seed = atoi(v.c_str());
			else if (k == "--preempt")
				o.maxPreempt = atoi(v.c_str());
			else if (k == "--spurious")
				o.spuriousWake = true;
			else if (k == "--no-merge")
				o.merge = false;
			else if (k == "--max-violations")
				o.maxViolations = (size_t)atoll(v.c_str());
			else if (k == "--max-steps")
				o.maxSteps = (uint64_t)atoll(v.c_str());
			else if (k == "--max-paths")
				o.maxPaths = (uint64_t)atoll(v.c_str());
			else if (k == "--samples")
				o.maxSamples = (size_t)atoll(v.c_str());
			else if (k == "--workdir")
				S.opts.workdir = v;
			else if (k == "--inputs" || k == "--sched")
			{
				o.haveFixed = true;
				std::istringstream is(v);
				std::string tok;
				while (std::getline(is, tok, ','))
				{
					if (tok.empty())
						continue;
					if (k == "--sched")
						o.fixedSched.push_back(atoi(tok.c_str()));
					else
					{
						if (tok.rfind("0x", 0) == 0)
							o.fixedInputs.push_back(APInt(256, tok.substr(2), 16));
						else
							o.fixedInputs.push_back(APInt(256, tok, 10));
					}
				}
			}
			else if (k == "--out")
				out = v;
			else
			{
				fprintf(stderr, "unknown option %s\n", a.c_str());
				rc_ = 2;
				return nullptr;
			}
		}
		else
			file = a;
	}
	llvm::LLVMContext ctx;
	llvm::SMDiagnostic err;
	auto M = llvm::parseIRFile(file, err, ctx);
	if (!M)
	{
		fprintf(stderr, "cannot read %s: %s\n", file.c_str(), err.getMessage().str().c_str());
		rc_ = 2;
		return nullptr;
	}
	Executor ex(*M, S, o);
	auto write = [&]()
	{
		std::ofstream f(out + ".tmp");
		f << ex.json();
		f.close();
		rename((out + ".tmp").c_str(), out.c_str());
	};
	if (!out.empty())
		ex.onViolation = write; // in case the rest of the run is cut off
	ex.run();
	if (out.empty())
		fputs(ex.json().c_str(), stdout);
	else
		write();
	fflush(stdout);
	fflush(stderr);
	_Exit(0); // no destructors: the DAG can be deep
	return nullptr;
}

int main(int argc, char** argv)
{
	argc_ = argc;
	argv_ = argv;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, (size_t)8 << 30);
	pthread_t t;
	if (pthread_create(&t, &at, body, nullptr))
	{
		pthread_attr_setstacksize(&at, (size_t)1 << 30);
		if (pthread_create(&t, &at, body, nullptr))
			return 2;
	}
	pthread_join(t, nullptr);
	return rc_;
}
