// Deterministic simulator core for NazaraUtils.
//
// One seed -> one Plan (scheduler decisions, operations, fault decisions) -> one execution.
// The execution of a Plan is a pure function of the Plan and of the code under test: no clock, no
// address, no thread and no real allocator state takes part in any decision.
#pragma once

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace sim
{
	using u64 = std::uint64_t;
	using i64 = std::int64_t;

	// ---------------------------------------------------------------- randomness
	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed) : s(seed) {}
		u64 next()
		{
			u64 z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		int range(int n) { return n <= 0 ? 0 : int(next() % u64(n)); }              // [0, n)
		int between(int a, int b) { return a + range(b - a + 1); }                  // [a, b]
		bool chance(int num, int den) { return range(den) < num; }
		int pick(const std::vector<int>& weights)
		{
			int total = 0;
			for (int w : weights) total += w;
			if (total <= 0) return 0;
			int r = range(total);
			for (std::size_t i = 0; i < weights.size(); ++i)
			{
				if (r < weights[i]) return int(i);
				r -= weights[i];
			}
			return int(weights.size()) - 1;
		}
	};

	// ---------------------------------------------------------------- plans
	enum Fault : int
	{
		F_NONE = 0,
		F_ALLOC = 1,  // the fn-th allocation made by the library during this call fails
		F_OOM = 2,    // the fn-th and every later allocation made by the library during this call fail
		F_THROW = 3,  // the fn-th operation of a user object (constructor, copy, move, assignment, call) throws
		F_COUNT
	};
	extern const char* const faultNames[F_COUNT];

	struct Op
	{
		int kind = 0;
		int client = 0;       // simulated party that the scheduler lets run
		int a = 0, b = 0, c = 0;
		int fk = F_NONE;      // fault injected into this operation
		int fn = 0;           // at its fn-th (1-based) opportunity
	};

	struct Plan
	{
		int variant = 0;                    // which instantiation of the code under test
		std::vector<int> cfg;               // configuration values
		std::vector<std::vector<Op>> lists; // lists[0]: the schedule; others: what callbacks do when called
	};

	// ---------------------------------------------------------------- process-shared report page
	struct Counter { char name[48]; u64 n; };
	struct Shared
	{
		volatile u64 runIndex;
		volatile u64 seed;
		volatile u64 runs, steps;
		volatile int violated;
		char prop[8];
		char cls[96];
		char msg[768];
		u64 hash;
		int opIndex;
		int counterCount;
		Counter counters[320];
	};
	extern Shared* g_shared;
	extern bool g_verbose;
	extern std::string g_prop; // property being decided ("" = all)

	int counterIndex(const char* name);
	inline void bump(int idx, u64 n = 1) { if (g_shared) g_shared->counters[idx].n += n; }
	#define SIM_COUNT(name) do { static const int sim_idx_ = ::sim::counterIndex(name); ::sim::bump(sim_idx_); } while (false)
	void countNamed(const std::string& name, u64 n = 1);

	// ---------------------------------------------------------------- trace
	struct Trace
	{
		u64 h = 0xcbf29ce484222325ull;
		void mix(u64 v)
		{
			for (int i = 0; i < 8; ++i)
			{
				h ^= (v >> (i * 8)) & 0xFF;
				h *= 0x100000001b3ull;
			}
		}
	};
	extern Trace g_trace;
	extern int g_opIndex;

	void traceText(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	#define SIM_EV(...) ::sim::event(__VA_ARGS__)
	template<typename... A> void event(A... a) { (g_trace.mix(u64(a)), ...); }

	// A distinct state of the simulated system, by the harness's stated abstraction
	void noteState(u64 h);

	// ---------------------------------------------------------------- violations
	// Records the violation and ends the process: nothing runs after a violation.
	[[noreturn]] void violateNow(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	inline bool wanted(const char* prop) { return g_prop.empty() || g_prop == prop; }

	// CHECK(property, class, condition, message...): judged only when this property is being decided
	#define CHECK(prop, cls, cond, ...) do { if (::sim::wanted(prop) && !(cond)) ::sim::violateNow(prop, cls, __VA_ARGS__); } while (false)

	// ---------------------------------------------------------------- fault injection
	struct Injected { int where; };  // thrown by user objects on an injected fault

	struct FaultState
	{
		int kind = F_NONE;
		int countdown = 0;
		bool fired = false;
		u64 allocPoints = 0, throwPoints = 0;
	};
	extern FaultState g_fault;
	extern int g_inLib;            // >0: control is inside code under test
	extern u64 g_libLive;          // allocations made by the library and not yet freed
	extern u64 g_libLiveBytes;

	struct LibScope   // control enters the library
	{
		int saved;
		LibScope() : saved(g_inLib) { g_inLib = 1; }
		~LibScope() { g_inLib = saved; }
	};
	struct HarnessScope // control is back in harness code (user callbacks, element bookkeeping)
	{
		int saved;
		HarnessScope() : saved(g_inLib) { g_inLib = 0; }
		~HarnessScope() { g_inLib = saved; }
	};

	// A point at which a user object may fail
	void throwPoint(int where);

	enum class Outcome { Ok, Injected, BadAlloc };
	// Runs f inside the library with the op's fault armed. Faults already armed by an enclosing call are suspended.
	template<typename F>
	Outcome libCall(int fk, int fn, F&& f)
	{
		FaultState saved = g_fault;
		g_fault = FaultState{};
		g_fault.kind = fk;
		g_fault.countdown = fn;
		Outcome out = Outcome::Ok;
		bool fired = false;
		{
			try
			{
				LibScope scope;
				f();
			}
			catch (const Injected&) { out = Outcome::Injected; }
			catch (const std::bad_alloc&) { out = Outcome::BadAlloc; }
			fired = g_fault.fired;
		}
		g_fault = saved;
		if (fired)
			countNamed(std::string("fault-fired:") + faultNames[fk]);
		event(int(out), fired);
		return out;
	}
	template<typename F> Outcome libCall(const Op& op, F&& f) { return libCall(op.fk, op.fn, std::forward<F>(f)); }

	// ---------------------------------------------------------------- tracked user objects
	// Every user object (element, captured state, payload) registers its address. The ledger detects
	// construction over a living object, use or destruction of a dead one, and leaks.
	constexpr i64 MovedFrom = -1;
	struct Ledger
	{
		std::unordered_map<const void*, int> live;
		u64 constructed = 0, destroyed = 0, copies = 0, moves = 0;
		void reset() { live.clear(); constructed = destroyed = copies = moves = 0; }
	};
	extern Ledger g_ledger;
	extern const char* g_lifetimeProp; // property that lifetime violations belong to

	void ledgerConstruct(const void* p);
	void ledgerDestroy(const void* p);
	void ledgerUse(const void* p, const char* how);

	enum ElemTraits { ThrowingMove = 1, NothrowMove = 2, MoveOnly = 4, NoDefault = 8, NoAssign = 16, CopyOnly = 32 };

	template<int Traits>
	struct Elem
	{
		static constexpr bool MoveThrows = !(Traits & NothrowMove);
		i64 val;
		const void* self; // detects bitwise relocation
		char payload[8];

		template<int T = Traits, typename = std::enable_if_t<!(T & NoDefault)>>
		Elem() : val(0), self(this) { HarnessScope hs; throwPoint(1); ledgerConstruct(this); }
		explicit Elem(i64 v) : val(v), self(this) { HarnessScope hs; throwPoint(2); ledgerConstruct(this); }
		Elem(i64 v, int add) : val(v + add), self(this) { HarnessScope hs; throwPoint(2); ledgerConstruct(this); }
		Elem(const Elem& o) : val(0), self(this)
		{
			HarnessScope hs;
			ledgerUse(&o, "copied from"); o.sane();
			throwPoint(3);
			val = o.val;
			ledgerConstruct(this);
			g_ledger.copies++;
		}
		Elem(Elem&& o) noexcept(!MoveThrows) : val(0), self(this)
		{
			HarnessScope hs;
			ledgerUse(&o, "moved from"); o.sane();
			if (MoveThrows) throwPoint(4);
			val = o.val;
			o.val = MovedFrom;
			ledgerConstruct(this);
			g_ledger.moves++;
		}
		~Elem() { HarnessScope hs; ledgerDestroy(this); val = -77; self = nullptr; }
		Elem& operator=(const Elem& o)
		{
			HarnessScope hs;
			ledgerUse(this, "assigned to"); ledgerUse(&o, "copied from"); o.sane(); sane();
			throwPoint(5);
			val = o.val;
			g_ledger.copies++;
			return *this;
		}
		Elem& operator=(Elem&& o) noexcept(!MoveThrows)
		{
			HarnessScope hs;
			ledgerUse(this, "assigned to"); ledgerUse(&o, "moved from"); o.sane(); sane();
			if (MoveThrows) throwPoint(6);
			i64 v = o.val;
			o.val = MovedFrom;
			val = v; // self-move keeps the value
			g_ledger.moves++;
			return *this;
		}
		void sane() const
		{
			if (self != this)
				violateNow(g_prop.empty() ? g_lifetimeProp : g_prop.c_str(), "bitwise-relocated", "an object was used at an address at which it was not constructed");
		}
		bool operator==(const Elem& o) const { return val == o.val; }
	};

	template<> inline Elem<MoveOnly | ThrowingMove>::Elem(const Elem&) = delete;
	template<> inline Elem<MoveOnly | ThrowingMove>& Elem<MoveOnly | ThrowingMove>::operator=(const Elem&) = delete;
	template<> inline Elem<MoveOnly | NothrowMove>::Elem(const Elem&) = delete;
	template<> inline Elem<MoveOnly | NothrowMove>& Elem<MoveOnly | NothrowMove>::operator=(const Elem&) = delete;

	template<int T> i64 valueOf(const Elem<T>& e)
	{
		HarnessScope hs;
		ledgerUse(&e, "read");
		e.sane();
		return e.val;
	}
	inline i64 valueOf(int v) { return v; }

	// Part of objects which need more than the default alignment
	template<std::size_t A> struct AlignProbe
	{
		AlignProbe() noexcept { sane(); }
		AlignProbe(const AlignProbe&) noexcept { sane(); }
		AlignProbe& operator=(const AlignProbe&) noexcept { sane(); return *this; }
		void sane() const
		{
			if (reinterpret_cast<std::uintptr_t>(this) % A != 0)
				violateNow(g_prop.empty() ? g_lifetimeProp : g_prop.c_str(), "misaligned", "an object of alignment %zu was made at an address which is a multiple of %zu only", A, std::size_t(reinterpret_cast<std::uintptr_t>(this) & (~reinterpret_cast<std::uintptr_t>(this) + 1)));
		}
	};
	template<std::size_t A> struct alignas(A) AlignedElem : AlignProbe<A>, Elem<NothrowMove>
	{
		using Elem<NothrowMove>::Elem;
		AlignedElem() = default;
	};

	// An argument handed through the library: its receiver notes whether it may take the content
	struct Parcel { i64 v; };
	struct Received
	{
		enum How { Nothing, AsLvalue, AsRvalue } how = Nothing;
		i64 v = 0;
		Received() = default;
		Received(const Parcel& p) noexcept : how(AsLvalue), v(p.v) {}
		Received(Parcel&& p) noexcept : how(AsRvalue), v(p.v) { p.v = MovedFrom; }
		bool is(How h, i64 value) const { return how == h && v == value; }
		const char* text() const { return how == AsLvalue ? "an lvalue" : how == AsRvalue ? "an rvalue" : "nothing"; }
	};

	// ---------------------------------------------------------------- components
	struct Component
	{
		const char* name = "";
		virtual ~Component() = default;
		virtual int variants() const = 0;
		virtual std::string variantName(int v) const = 0;
		virtual Plan generate(Rng& rng, int variant) = 0;    // may look at g_prop to bias the workload
		virtual void execute(const Plan& plan) = 0;
		virtual const char* opName(int kind) const = 0;
		virtual int opCount() const = 0;
		virtual std::vector<std::string> properties() const = 0;
	};
	Component* makeComponent();

	// Checks made at the end of every run, after everything the run created was destroyed
	void checkNoLeftovers(const char* prop);

	// Marks the start of an operation
	void beginOp(int index, const Op& op, const Component& comp);
	// Re-entrant scripts
	struct DepthGuard { int& d; explicit DepthGuard(int& x) : d(x) { ++d; } ~DepthGuard() { --d; } };

	// Scheduler: which simulated client runs next (uniform, bursts, or priority with change points)
	struct Scheduler
	{
		int clients, mode, current = 0, left = 0;
		std::vector<int> prio;
		Scheduler(Rng& r, int n) : clients(n), mode(r.range(3))
		{
			for (int i = 0; i < n; ++i) prio.push_back(r.range(1000));
		}
		int next(Rng& r)
		{
			if (mode == 0) return r.range(clients);
			if (mode == 1)
			{
				if (left-- <= 0) { current = r.range(clients); left = r.range(6); }
				return current;
			}
			if (r.chance(1, 5)) prio[std::size_t(r.range(clients))] = r.range(1000);
			int best = 0;
			for (int i = 1; i < clients; ++i) if (prio[std::size_t(i)] > prio[std::size_t(best)]) best = i;
			return best;
		}
	};
	// Per-run ("swarm") choice of which faults are possible and how often
	struct FaultMix
	{
		int weight[F_COUNT] = {};
		int num = 0;       // chance num/100 per eligible operation
		FaultMix(Rng& r, bool alloc, bool thr)
		{
			int mode = r.range(5); // 0: fault-free run
			if (mode == 0) return;
			if (alloc && (mode == 1 || mode >= 3)) { weight[F_ALLOC] = 2; weight[F_OOM] = 1; }
			if (thr && (mode == 2 || mode >= 3)) weight[F_THROW] = 3;
			num = (mode == 4) ? 50 : 15;
		}
		void apply(Rng& r, Op& op)
		{
			int total = weight[F_ALLOC] + weight[F_OOM] + weight[F_THROW];
			if (!total || !r.chance(num, 100)) return;
			int x = r.range(total);
			op.fk = x < weight[F_ALLOC] ? F_ALLOC : x < weight[F_ALLOC] + weight[F_OOM] ? F_OOM : F_THROW;
			op.fn = r.chance(3, 4) ? r.between(1, 3) : r.between(1, 12);
		}
	};
}
