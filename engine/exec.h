#pragma once
#include <functional>
#include "expr.h"
#include "solver.h"
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/DenseSet.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

namespace sym
{
	using Val = llvm::SmallVector<E, 1>;

	struct MByte
	{
		E e			 = nullptr; // null: uninitialised
		uint32_t off = 0;
	};

	enum class OK : uint8_t
	{
		Global,
		Stack,
		Heap,
		Func
	};

	struct Obj
	{
		uint64_t base = 0, size = 0;
		OK kind		  = OK::Global;
		uint8_t alloc = 0; // heap: 0 malloc, 1 new, 2 new[], 3 exception, 4 internal
		uint32_t align = 1;
		bool ro		  = false;
		std::string name;
		std::vector<MByte> d;
	};
	using ObjP = std::shared_ptr<Obj>;

	struct Leaf
	{
		llvm::Type* ty;
		uint64_t off;
		uint32_t w;		// bit width
		uint32_t bytes; // store size
		bool packedBit = false;
	};
	struct TypeInfo
	{
		std::vector<Leaf> leaves;
		uint64_t alloc = 0;
		bool bitVector = false; // <N x i1>
	};

	struct FnInfo
	{
		llvm::DenseMap<const llvm::Value*, uint32_t> idx;
		uint32_t n = 0;
		std::unique_ptr<llvm::PostDominatorTree> pdt;
		llvm::DenseMap<const llvm::BasicBlock*, int> mergeable; // cached region decision
	};

	struct Frame
	{
		llvm::Function* f		 = nullptr;
		FnInfo* info			 = nullptr;
		llvm::BasicBlock* bb	 = nullptr;
		llvm::BasicBlock* prev	 = nullptr;
		llvm::BasicBlock::iterator it;
		std::vector<Val> regs;
		std::vector<uint64_t> allocas;
		llvm::CallBase* site = nullptr; // call site in the caller (null for thread / program entry)
		std::vector<Val> varargs;
	};

	struct MergeGroup;

	struct VClock
	{
		std::vector<uint32_t> c;
		uint32_t get(size_t i) const
		{
			return i < c.size() ? c[i] : 0;
		}
		void join(const VClock& o)
		{
			if (o.c.size() > c.size())
				c.resize(o.c.size());
			for (size_t i = 0; i < o.c.size(); i++)
				c[i] = std::max(c[i], o.c[i]);
		}
		void inc(size_t i)
		{
			if (i >= c.size())
				c.resize(i + 1);
			c[i]++;
		}
	};

	enum class TS : uint8_t
	{
		Run,
		BlockMutex,
		BlockCond,
		BlockJoin,
		Done
	};

	struct Thread
	{
		std::vector<Frame> fr;
		TS st		   = TS::Run;
		uint64_t waitOn = 0;  // mutex / cond / thread id
		uint64_t waitMutex = 0;
		bool notified  = false;
		bool timed	   = false; // blocked in a wait with a timeout
		VClock vc;
		// exceptions
		std::vector<uint64_t> caught; // exception object addresses
		uint32_t uncaught = 0;
		std::map<const llvm::GlobalVariable*, uint64_t> tls;
	};

	struct RaceCell
	{
		int wt		= -1;
		uint32_t wc = 0;
		VClock rd;
	};

	struct ExcInfo
	{
		uint64_t tinfo = 0, dtor = 0;
		int handlers   = 0;
		bool live	   = true;
		int refs	   = 1;
	};

	struct SymInput
	{
		std::string name;
		E e;
	};

	struct State
	{
		uint64_t id = 0;
		std::vector<Thread> th;
		int cur		  = 0;
		int preempts  = 0;
		bool schedDone = false; // schedule decision for the current visible op already taken
		std::map<uint64_t, ObjP> mem;
		std::vector<E> pc;
		std::set<uint32_t> pcIds;
		std::shared_ptr<Model> model;
		std::unordered_map<E, APInt> conc; // concretised expressions
		uint64_t heapNext = 0, stackNext = 0;
		std::map<uint64_t, ExcInfo> exc;
		std::vector<SymInput> inputs;
		std::vector<std::pair<std::string, E>> observed;
		std::map<std::string, int> nameCount;
		std::vector<std::shared_ptr<MergeGroup>> merges;
		uint64_t steps = 0;
		bool allowLeaks = false;
		bool allocMayFail = false;
		int freshCount = 0;
		std::map<uint64_t, int> mutexOwner; // mutex addr -> thread (or -1)
		std::map<uint64_t, VClock> syncClk; // mutex / atomic release clocks
		std::map<uint64_t, RaceCell> race;
		std::vector<int> sched;
		std::set<uint64_t> heapFreed;
		std::set<uint64_t> atexitDone;
		bool threadFailure = false;
		uint64_t allocMisalign = 0;
		int idleYields = 0;
		uint64_t clockNow = 0;
	};
	using StateP = std::unique_ptr<State>;

	struct MergeGroup
	{
		llvm::BasicBlock* stop = nullptr;
		size_t depth		   = 0;
		int pending			   = 0;
		size_t pcPrefix		   = 0;
		std::vector<StateP> arrived;
	};

	struct Violation
	{
		std::string kind, msg, where;
		std::vector<std::pair<std::string, APInt>> inputs;
		std::vector<int> sched;
	};

	struct PathSample
	{
		std::vector<std::pair<std::string, APInt>> inputs;
		std::vector<std::pair<std::string, APInt>> observed;
	};

	struct ExecOpts
	{
		std::string entry;
		uint64_t maxSteps	= 200000000; // per path
		uint64_t maxPaths	= 2000000;
		double budget		= 600;
		size_t maxViolations = 3;
		int maxPreempt		= 2;
		bool merge			= true;
		bool spuriousWake	= false;
		size_t maxSamples	= 16;
		uint64_t maxConcretize = 4096;
		std::vector<APInt> fixedInputs;
		std::vector<int> fixedSched;
		bool haveFixed = false;
	};

	struct ExecStats
	{
		uint64_t paths = 0, instrs = 0, forks = 0, merges = 0, checks = 0, checksProved = 0, checksTrivial = 0, killedInfeasible = 0,
				 switches = 0, states = 0, maxThreads = 0;
	};

	class Executor
	{
	  public:
		std::function<void()> onViolation;
		Executor(llvm::Module& m, Solver& s, ExecOpts o);
		void run();
		std::string json();
		std::vector<Violation> violations;
		std::map<std::string, uint64_t> reached;
		std::map<std::string, uint64_t> incomplete;
		std::vector<PathSample> samples;
		ExecStats st;
		double wall = 0;

	  private:
		llvm::Module& M;
		const llvm::DataLayout& DL;
		Solver& S;
		ExecOpts O;
		double t0 = 0;
		std::vector<StateP> work;
		uint64_t nextStateId = 1;
		llvm::DenseMap<llvm::Type*, std::unique_ptr<TypeInfo>> tinfo;
		llvm::DenseMap<const llvm::Function*, std::unique_ptr<FnInfo>> finfo;
		llvm::DenseMap<const llvm::Constant*, Val> constCache;
		llvm::DenseMap<const llvm::GlobalValue*, uint64_t> gaddr;
		std::map<uint64_t, ObjP> globals; // initial contents
		std::map<uint64_t, llvm::GlobalVariable*> lazyGlobals;
		std::map<uint64_t, llvm::Function*> funcs;
		llvm::DenseSet<const llvm::Instruction*> covered;
		std::set<std::string> srcFns, stubs;
		std::set<std::pair<std::string, unsigned>> srcLines;
		std::set<std::string> violKeys;
		bool stopAll = false;

		enum class R
		{
			Next,  // continue with next instruction (iterator already advanced by the handler or advanced by caller)
			Stay,  // control transferred; do not advance
			Redo,  // state forked; re-execute the instruction
			Dead,  // state finished
		};
		struct Killed
		{};
		struct RedoEx
		{};

		const TypeInfo& ti(llvm::Type* t);
		FnInfo& fi(llvm::Function* f);
		uint32_t bits(llvm::Type* t);
		void assignGlobals();
		ObjP materialize(llvm::GlobalVariable* g, uint64_t addr);
		void initBytes(Obj& o, uint64_t off, const llvm::Constant* c);
		Val evalConst(const llvm::Constant* c);
		E constScalar(const llvm::Constant* c);
		E fresh(State& s, uint32_t w, const char* why);

		Frame& top(State& s)
		{
			return s.th[(size_t)s.cur].fr.back();
		}
		const Val get(State& s, const llvm::Value* v);
		E get1(State& s, const llvm::Value* v);
		void setReg(State& s, const llvm::Instruction* i, Val v);

		// memory
		ObjP find(State& s, uint64_t addr);
		ObjP writable(State& s, const ObjP& o);
		uint64_t allocHeap(State& s, uint64_t size, uint64_t align, uint8_t kind, const std::string& name);
		void freeHeap(State& s, uint64_t addr, uint8_t kind);
		E readBytes(State& s, Obj& o, uint64_t off, uint64_t n);
		void writeBytes(Obj& o, uint64_t off, E v);
		struct Res2
		{
			ObjP o;
			E off;
		};
		Res2 resolve(State& s, E addr, uint64_t n, bool write);
		E loadN(State& s, E addr, uint64_t n);
		void storeN(State& s, E addr, E v);
		Val loadTy(State& s, E addr, llvm::Type* t);
		void storeTy(State& s, E addr, llvm::Type* t, const Val& v);
		E leafLoad(E raw, const Leaf& l);
		void checkRace(State& s, uint64_t addr, uint64_t n, bool write);

		// path conditions
		std::vector<E> slice(State& s, E cond);
		Res feasible(State& s, E cond, Model& out); // PC && cond
		void addPC(State& s, E c);
		bool assumeAfterViolation(State& s, E c);
		bool tryAssume(State& s, E c); // false if infeasible
		E simplifyWithPC(State& s, E e);
		bool decide(State& s, E cond); // may fork (throws RedoEx after queuing other side) -> returns truth value in this state
		APInt concretize(State& s, E e, const char* why);
		bool isKnownTrue(State& s, E c);
		StateP clone(State& s);
		void pushState(StateP n);

		// control
		void runState(StateP s);
		R step(State& s, llvm::Instruction* I);
		void transfer(State& s, llvm::BasicBlock* to);
		R doCall(State& s, llvm::CallBase* cb);
		R callFunction(State& s, llvm::CallBase* cb, llvm::Function* f, std::vector<Val> args);
		void pushFrame(State& s, llvm::Function* f, std::vector<Val> args, llvm::CallBase* site);
		R doReturn(State& s, std::optional<Val> v);
		R finishCall(State& s, llvm::CallBase* cb, const Val& v);
		R intrinsic(State& s, llvm::IntrinsicInst* ii);
		R finishCallNext(State&, llvm::Instruction*)
		{
			return R::Next;
		}
		static uint64_t GUARD_()
		{
			return 256;
		}
		bool external(State& s, llvm::CallBase* cb, llvm::Function* f, const std::string& name, std::vector<Val>& args, R& r);
		R unwind(State& s, uint64_t excAddr);
		R branchOn(State& s, llvm::Instruction* I, E cond, llvm::BasicBlock* t, llvm::BasicBlock* f);
		bool mergeRegion(State& s, llvm::Instruction* I, llvm::BasicBlock*& stop);
		void arrive(StateP s);
		void leaveGroup(State& s, bool all);
		void releaseGroup(std::shared_ptr<MergeGroup> g);
		bool tryMerge(State& a, State& b, MergeGroup& g);
		void popFrameObjects(State& s, Frame& f);
		void endPath(State& s);
		uint64_t typeInfoMatch(State& s, uint64_t thrown, uint64_t want);

		// misc
		void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
		void checkProp(State& s, E cond, const std::string& kind, const std::string& msg);
		void incompleteAt(State& s, const std::string& why);
		std::string where(State& s);
		std::string readCStr(State& s, E p);
		void cover(const llvm::Instruction* I);

		// ops
		E binop(State& s, unsigned op, E a, E b, const llvm::Instruction* I);
		E icmp(llvm::CmpInst::Predicate p, E a, E b);
		E fcmp(llvm::CmpInst::Predicate p, E a, E b);
		E fminmax(E a, E b, bool isMin, bool ieee2019);
		Val castOp(State& s, unsigned op, const Val& v, llvm::Type* from, llvm::Type* to);
		E toRaw(const Val& v, llvm::Type* t);
		Val fromRaw(E raw, llvm::Type* t);

		// bulk memory
		R memCopy(State& s, E dst, E src, E len, bool move);
		R memSet(State& s, E dst, E val, E len);
		E memCmp(State& s, E a, E b, uint64_t n);

		// threads
		bool visibleOp(State& s, bool isYield = false); // true: switched (caller must re-dispatch)
		void schedule(State& s, bool canStay, bool costs);
		bool enabled(State& s, size_t t);
		void switchFrom(State& s); // current thread cannot continue: fork over the enabled threads
		void acquire(State& s, uint64_t addr);
		void release(State& s, uint64_t addr);
		void threadDone(State& s);
		bool pauseOp(State& s);
		int curTid(State& s)
		{
			return s.cur;
		}
	};
}
