// Simulated callers holding references to callable objects. Real code: FunctionRef.
#include "sim.hpp"
#include <NazaraUtils/FunctionRef.hpp>
#include <functional>

using namespace sim;

namespace
{
	enum Kind { K_TARGET, K_DROP_TARGET, K_BIND, K_UNBIND, K_COPY_CONSTRUCT, K_COPY, K_MOVE, K_SWAP, K_CALL, K_CALL_COPY, K_CALL_TEMPORARY, K_TEST, K_COUNT };
	const char* const names[] = { "NewTarget", "DropTarget", "Bind", "BindNull", "CopyConstruct", "CopyAssign", "MoveAssign", "Swap", "Call", "CallCopy", "CallTemporary", "Test" };

	using Payload = Elem<ThrowingMove>;
	using Unique = Elem<MoveOnly | NothrowMove>;

	struct Custom { int serial; }; // what a target throws on its own

	template<typename T> struct IsPayload : std::false_type {};
	template<int N> struct IsPayload<Elem<N>> : std::true_type {};
	template<typename T> i64 peek(const T& v) { if constexpr (std::is_arithmetic_v<T>) return i64(v); else return valueOf(v); }
	template<typename T> void poke(T& v, i64 x) { if constexpr (std::is_arithmetic_v<T>) v = T(x); else { ledgerUse(&v, "written"); v.val = x; } }

	template<typename Sig> struct World;
	template<typename Sig> World<Sig>* g_world = nullptr;

	template<typename Ret, typename... Args>
	struct World<Ret(Args...)>
	{
		using Sig = Ret(Args...);
		using Ref = Nz::FunctionRef<Sig>;
		static constexpr int Functions = 4; // plain functions that exist as targets
		enum TargetKind { T_FUNCTOR, T_CONST, T_STDFUNCTION, T_POINTER, T_FUNCTION, T_WRAPPER, T_OVERLOADED, T_CONST_OVERLOADED, T_LAMBDA, T_OTHER_RESULT, T_KINDS };

		struct Functor { World* w; int id; i64 cell = 0; Ret operator()(Args... args) { return w->called(id, &cell, 0, std::forward<Args>(args)...); } };
		struct ConstFunctor { World* w; int id; Ret operator()(Args... args) const { return w->called(id, &w->constCell, 0, std::forward<Args>(args)...); } };
		struct Overloaded
		{
			World* w; int id; i64 cell = 0;
			Ret operator()(Args... args) & { return w->called(id, &cell, 1, std::forward<Args>(args)...); }
			Ret operator()(Args... args) const & { return w->called(id, &w->constCell, 2, std::forward<Args>(args)...); }
		};
		// a result that has to be converted (or ignored)
		struct OtherResult
		{
			World* w; int id; i64 cell = 0;
			decltype(auto) operator()(Args... args)
			{
				if constexpr (std::is_void_v<Ret>) { w->called(id, &cell, 0, std::forward<Args>(args)...); return 42; }
				else if constexpr (std::is_same_v<Ret, i64>) return Conv{ w->called(id, &cell, 0, std::forward<Args>(args)...) };
				else return static_cast<Ret>(w->called(id, &cell, 0, std::forward<Args>(args)...));
			}
			struct Conv { i64 v; operator i64() const { return v; } };
		};
		template<int N> static Ret function(Args... args)
		{
			World* w = g_world<Sig>;
			return w->called(w->functionTarget[N], &w->constCell, 0, std::forward<Args>(args)...);
		}
		static auto makeLambda(World* w, int id)
		{
			return [w, id, cell = i64(0)](Args... args) mutable -> Ret { return w->called(id, &cell, 0, std::forward<Args>(args)...); };
		}

		struct Target
		{
			int kind, id, busy = 0;
			Functor functor;
			const ConstFunctor constant;
			std::function<Sig> stdFunction;
			Ret (*pointer)(Args...) = nullptr;
			std::reference_wrapper<Functor> wrapper;
			Overloaded overloaded;
			const Overloaded constOverloaded;
			std::shared_ptr<void> lambda;
			OtherResult other;
			int calls = 0;
			Target(World* w, int k, int i) : kind(k), id(i), functor{ w, i }, constant{ w, i }, stdFunction(Functor{ w, i }), wrapper(functor), overloaded{ w, i }, constOverloaded{ w, i }, other{ w, i } {}
		};
		struct Slot { Ref ref = nullptr; int target = -1; };
		struct Call
		{
			int target;
			bool customThrow;
			std::vector<i64> values;
			std::vector<const void*> addresses; // of arguments passed by reference
			u64 copiesAllowed, copies0;
			int entered = 0;
			int serial = 0;
			i64 result = 0;
			const i64* cell = nullptr;
			int overload = 0;
		};

		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		std::vector<std::unique_ptr<Target>> targets;
		int functionTarget[Functions] = { -1, -1, -1, -1 };
		i64 constCell = 0;
		Call* cur = nullptr;
		int depth = 0;
		i64 nextVal = 1;
		int serial = 0;

		World(const Plan& p, const Component& c) : plan(p), comp(c) { g_world<Sig> = this; }

		// ------------------------------------------------ the target side
		template<typename A> void inspect(std::size_t& i, std::remove_reference_t<A>& arg)
		{
			i64 v = peek(arg);
			CHECK("F01", "argument", v == cur->values[i], "argument %zu arrives as %lld instead of %lld", i, (long long)v, (long long)cur->values[i]);
			if (std::is_reference_v<A>)
				CHECK("F01", "argument-identity", static_cast<const void*>(std::addressof(arg)) == cur->addresses[i], "argument %zu arrives as another object than the one given by reference", i);
			++i;
		}
		Ret called(int id, i64* cell, int overload, Args... args)
		{
			HarnessScope hs;
			event(7000 + id, cur != nullptr);
			if (g_verbose) traceText("    target %d", id);
			CHECK("F01", "unexpected-call", cur != nullptr, "target %d is called although nothing calls it", id);
			Call& call = *cur;
			CHECK("F01", "wrong-target", call.target == id, "the reference to target %d calls target %d", call.target, id);
			call.entered++;
			CHECK("F01", "called-twice", call.entered == 1, "one call reaches its target %d times", call.entered);
			u64 copies = g_ledger.copies - call.copies0;
			CHECK("F01", "needless-copy", copies <= call.copiesAllowed, "the arguments were copied %llu time(s), %llu needed", (unsigned long long)copies, (unsigned long long)call.copiesAllowed);
			std::size_t i = 0;
			(inspect<Args>(i, args), ...);
			call.overload = overload;
			call.cell = cell;
			Target* t = target(id);
			if (t) t->calls++;
			throwPoint(40);
			script(id);
			(touch<Args>(args), ...);
			throwPoint(41);
			if (call.customThrow) throw Custom{ call.serial };
			if constexpr (std::is_void_v<Ret>) return;
			else
			{
				call.result = nextVal++;
				if constexpr (std::is_reference_v<Ret>) { *cell = call.result; return *cell; }
				else if constexpr (IsPayload<Ret>::value) return Ret(call.result);
				else return Ret(call.result);
			}
		}
		template<typename A> void touch(std::remove_reference_t<A>& arg)
		{
			if constexpr (std::is_lvalue_reference_v<A> && !std::is_const_v<std::remove_reference_t<A>>) poke(arg, peek(arg) + 1000000);
			else (void)arg;
		}
		void script(int id)
		{
			std::size_t scripts = plan.lists.size() - 1;
			if (!scripts || depth >= 3) return;
			DepthGuard dg(depth);
			FaultState saved = g_fault;
			Call* savedCall = cur;
			std::size_t i = std::size_t(id) % scripts;
			for (const Op& op : plan.lists[i + 1]) { beginOp(1000 + int(i), op, comp); SIM_COUNT("reach:target-uses-references"); step(op); }
			cur = savedCall;
			g_fault = saved;
		}
		Target* target(int id) { return id >= 0 && std::size_t(id) < targets.size() ? targets[std::size_t(id)].get() : nullptr; }

		// ------------------------------------------------ the caller side
		int newTarget(int kind)
		{
			int id = int(targets.size());
			int fn = -1;
			if (kind == T_POINTER || kind == T_FUNCTION)
			{
				for (int i = 0; i < Functions; ++i) if (functionTarget[i] < 0) { fn = i; break; }
				if (fn < 0) kind = T_FUNCTOR;
			}
			targets.push_back(std::make_unique<Target>(this, kind, id));
			if (kind == T_LAMBDA) targets.back()->lambda = std::make_shared<decltype(makeLambda(this, 0))>(makeLambda(this, id));
			if (fn >= 0)
			{
				functionTarget[fn] = id;
				Ret (*const table[])(Args...) = { &function<0>, &function<1>, &function<2>, &function<3> };
				targets.back()->pointer = table[fn];
			}
			return id;
		}
		void drop(int id)
		{
			Target* t = target(id);
			if (!t || t->busy) return;
			for (Slot& s : slots) if (s.target == id) { libCall(F_NONE, 0, [&] { s.ref = nullptr; }); s.target = -1; }
			for (int& f : functionTarget) if (f == id) f = -1;
			targets[std::size_t(id)].reset();
		}
		template<typename F> void withTarget(Target& t, F&& f)
		{
			switch (t.kind)
			{
				case T_FUNCTOR: f(t.functor); break;
#ifndef SIM_NO_CONST_TARGET
				case T_CONST: f(t.constant); break;
				case T_CONST_OVERLOADED: f(t.constOverloaded); break;
#endif
				case T_STDFUNCTION: f(t.stdFunction); break;
				case T_POINTER: f(t.pointer); break;
				case T_FUNCTION: f(*t.pointer); break;
				case T_WRAPPER: f(t.wrapper); break;
				case T_OVERLOADED: f(t.overloaded); break;
				case T_LAMBDA: f(*static_cast<decltype(makeLambda(this, 0))*>(t.lambda.get())); break;
#ifndef SIM_NO_IGNORED_RESULT
				case T_OTHER_RESULT: f(t.other); break;
#endif
				default: f(t.functor); break;
			}
		}
		void bind(Slot& s, Target& t, int how)
		{
			libCall(F_NONE, 0, [&] { withTarget(t, [&](auto& obj) { if (how % 2) s.ref = obj; else s.ref = Ref(obj); }); });
			s.target = t.id;
			test(s);
		}
		void test(const Slot& s)
		{
			CHECK("F01", "bool", bool(s.ref) == (s.target >= 0), "a%s reference tests %s", s.target >= 0 ? " bound" : "n empty", bool(s.ref) ? "true" : "false");
		}
		template<typename A> struct Store
		{
			using T = std::remove_cv_t<std::remove_reference_t<A>>;
			T v;
			explicit Store(i64 x) : v(T(x)) {}
		};
		template<typename A, bool Rv> static decltype(auto) pass(Store<A>& s)
		{
			using T = typename Store<A>::T;
			if constexpr (std::is_lvalue_reference_v<A>) return static_cast<A>(s.v);
			else if constexpr (std::is_rvalue_reference_v<A> || Rv || !std::is_copy_constructible_v<T> || std::is_same_v<T, Unique>) return std::move(s.v);
			else return (s.v);
		}
		template<typename A> static constexpr bool copiedFromLvalue = !std::is_reference_v<A> && IsPayload<A>::value && !std::is_same_v<A, Unique>;
		template<typename A> void afterArg(std::size_t& i, Store<A>& s, const Call& call, bool rv, bool completed)
		{
			i64 v = peek(s.v);
			bool mutableRef = std::is_lvalue_reference_v<A> && !std::is_const_v<std::remove_reference_t<A>>;
			bool given = !std::is_lvalue_reference_v<A> && (rv || std::is_rvalue_reference_v<A> || std::is_same_v<A, Unique>);
			i64 was = call.values[i];
			if (mutableRef) CHECK("F01", "argument", v == was || v == was + 1000000, "a reference argument is %lld after the call", (long long)v);
			if (mutableRef && completed) CHECK("F01", "argument", v == was + 1000000, "what the target stored in its argument is lost");
			if (!mutableRef && !given) CHECK("F01", "argument-changed", v == was, "the caller's argument %zu is %lld instead of %lld after the call", i, (long long)v, (long long)was);
			if (std::is_rvalue_reference_v<A>) CHECK("F01", "argument-changed", v == was, "the caller's argument %zu was moved although the target takes a reference", i);
			++i;
		}
		template<bool Rv, std::size_t... I>
		void doCall(const Ref& ref, Target& t, const Op& op, std::index_sequence<I...>)
		{
			FaultState savedFault = g_fault;
			g_fault = FaultState{};
			std::tuple<Store<Args>...> stores{ Store<Args>(i64(nextVal + i64(I)))... };
			nextVal += i64(sizeof...(Args));
			Call call;
			call.target = t.id;
			call.customThrow = op.c % 5 == 0;
			call.serial = ++serial;
			(call.values.push_back(peek(std::get<I>(stores).v)), ...);
			(call.addresses.push_back(std::addressof(std::get<I>(stores).v)), ...);
			call.copiesAllowed = Rv ? 0 : (0u + ... + (copiedFromLvalue<Args> ? 1u : 0u));
			call.copies0 = g_ledger.copies;
			Call* savedCall = cur;
			cur = &call;
			t.busy++;
			Outcome out = Outcome::Ok;
			bool custom = false;
			int savedLib = g_inLib;
			try
			{
				out = libCall(op, [&]
				{
					if constexpr (std::is_void_v<Ret>) ref(pass<Args, Rv>(std::get<I>(stores))...);
					else
					{
						decltype(auto) result = ref(pass<Args, Rv>(std::get<I>(stores))...);
						HarnessScope hs;
						static_assert(std::is_same_v<decltype(result), Ret>, "the result type is the one of the signature");
						if (std::is_reference_v<Ret>) CHECK("F01", "result", static_cast<const void*>(std::addressof(result)) == static_cast<const void*>(call.cell), "the call returns a reference to another object");
						i64 v = peek(result);
						CHECK("F01", "result", v == call.result, "the call returns %lld instead of %lld", (long long)v, (long long)call.result);
					}
				});
			}
			catch (const Custom& e)
			{
				custom = true;
				CHECK("F01", "exception", e.serial == call.serial, "another exception than the one the target threw arrives");
			}
			g_inLib = savedLib;
			t.busy--;
			cur = savedCall;
			g_fault = FaultState{};
			if (out == Outcome::Ok)
			{
				CHECK("F01", "not-called", call.entered == 1, "a call reached its target %d times", call.entered);
				CHECK("F01", "exception", custom == call.customThrow, custom ? "an exception appeared" : "the target's exception was lost");
				if (t.kind == T_OVERLOADED) CHECK("F01", "constness", call.overload == 1, "a modifiable target was called as const");
			}
			else { SIM_COUNT("reach:failed-call"); }
			if (custom) SIM_COUNT("reach:target-threw");
			std::size_t i = 0;
			(afterArg<Args>(i, std::get<I>(stores), call, Rv, out == Outcome::Ok && !custom), ...);
			g_fault = savedFault;
		}
		void call(const Ref& ref, Target& t, const Op& op)
		{
			if (op.c % 2) doCall<true>(ref, t, op, std::index_sequence_for<Args...>());
			else doCall<false>(ref, t, op, std::index_sequence_for<Args...>());
		}
		void callWith(Ref ref, Target& t, const Op& op) { call(ref, t, op); } // a function with a reference parameter

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			switch (op.kind)
			{
				case K_TARGET: if (targets.size() < 40) newTarget(op.c % T_KINDS); break;
				case K_DROP_TARGET: if (!targets.empty()) drop(int(std::size_t(op.c) % targets.size())); break;
				case K_BIND:
				{
					if (targets.empty()) newTarget(op.b % T_KINDS);
					Target* t = target(int(std::size_t(op.c) % targets.size()));
					if (!t) t = target(newTarget(op.c % T_KINDS));
					bind(s, *t, op.b);
					break;
				}
				case K_UNBIND: libCall(F_NONE, 0, [&] { if (op.c % 2) s.ref = nullptr; else s.ref = Ref(nullptr); }); s.target = -1; test(s); break;
				case K_COPY_CONSTRUCT:
				{
					if (s.target < 0) break;
					Target* t = target(s.target);
					Ref copy(s.ref);
					CHECK("F01", "bool", bool(copy), "a copy of a bound reference tests false");
					bind(s, *target(newTargetNear(op)), op.b); // rebinding the original leaves the copy alone
					call(copy, *t, op);
					break;
				}
				case K_COPY: libCall(F_NONE, 0, [&] { d.ref = s.ref; }); d.target = s.target; test(d); test(s); break;
				case K_MOVE: libCall(F_NONE, 0, [&] { Ref& alias = s.ref; d.ref = std::move(alias); }); d.target = s.target; test(d); test(s); break;
				case K_SWAP: libCall(F_NONE, 0, [&] { std::swap(s.ref, d.ref); }); std::swap(s.target, d.target); test(d); test(s); break;
				case K_CALL: if (Target* t = target(s.target)) call(s.ref, *t, op); break;
				case K_CALL_COPY: if (Target* t = target(s.target)) callWith(s.ref, *t, op); break;
				case K_CALL_TEMPORARY:
				{
					// a temporary callable as the argument of a function
					Target* t = target(newTargetNear(op));
					if (t->kind == T_STDFUNCTION) callWith(std::function<Sig>(t->functor), *t, op);
					else if (t->kind == T_LAMBDA) callWith(makeLambda(this, t->id), *t, op);
					else if (t->kind == T_OVERLOADED) callWith(Overloaded{ this, t->id }, *t, op);
					else callWith(Functor{ this, t->id }, *t, op);
					break;
				}
				case K_TEST: test(s); break;
			}
		}
		int newTargetNear(const Op& op)
		{
			if (targets.size() < 40) return newTarget(op.c % T_KINDS);
			for (std::size_t i = 0; i < targets.size(); ++i)
				if (targets[i]) return int(i);
			targets.clear(); // nothing is alive, so nothing refers to any
			return newTarget(op.c % T_KINDS);
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				CHECK("F01", "argument-leak", g_ledger.live.empty(), "%zu argument(s) or result(s) outlive the call", g_ledger.live.size());
				u64 h = 11;
				for (Slot& s : slots) { Target* t = target(s.target); h = h * 31 + (t ? 1 + t->kind + 16 * std::size_t(t->calls > 2 ? 2 : t->calls) : 0); }
				noteState(h);
			}
			g_opIndex = idx;
			for (Slot& s : slots) if (Target* t = target(s.target)) { Op op; op.c = 1; call(s.ref, *t, op); }
			targets.clear();
			slots.clear();
			targets.shrink_to_fit();
			checkNoLeftovers("F01");
			g_world<Sig> = nullptr;
		}
	};

	using Sig0 = i64(int, Payload, const Payload&, i64&);
	using Sig1 = void(Unique);
	using Sig2 = Payload();
	using Sig3 = i64&(int);
	using Sig4 = Unique(Payload&&, Payload, Unique, Payload&);

	struct FuncRefComponent : Component
	{
		FuncRefComponent() { name = "funcref"; g_lifetimeProp = "F01"; }
		int variants() const override { return 5; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "FunctionRef<int64(int, Payload, const Payload&, int64&)>", "FunctionRef<void(move-only)>", "FunctionRef<Payload()>", "FunctionRef<int64&(int)>",
				"FunctionRef<move-only(Payload&&, Payload, move-only, Payload&)>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "F01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 4);
			p.cfg.push_back(n);
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, false, true);
			auto weights = [&](bool script)
			{
				std::vector<int> w(K_COUNT);
				for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 3) : 0;
				w[K_BIND] += 2; w[K_CALL] += script ? 1 : 3;
				w[K_DROP_TARGET] = std::min(w[K_DROP_TARGET], 1);
				w[K_UNBIND] = std::min(w[K_UNBIND], 1);
				return w;
			};
			std::vector<int> w = weights(false), ws = weights(true);
			auto make = [&](const std::vector<int>& wt)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(wt);
				op.a = r.range(n); op.b = r.range(24); op.c = r.range(120);
				if (op.kind == K_CALL || op.kind == K_CALL_COPY || op.kind == K_CALL_TEMPORARY) faults.apply(r, op);
				return op;
			};
			p.lists.emplace_back();
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			for (int i = 0; i < len; ++i) p.lists[0].push_back(make(w));
			int scripts = r.range(4);
			for (int s = 0; s < scripts; ++s)
			{
				p.lists.emplace_back();
				int m = r.range(4);
				for (int i = 0; i < m; ++i) p.lists.back().push_back(make(ws));
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Sig0>(plan, *this).run(); break;
				case 1: World<Sig1>(plan, *this).run(); break;
				case 2: World<Sig2>(plan, *this).run(); break;
				case 3: World<Sig3>(plan, *this).run(); break;
				case 4: World<Sig4>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new FuncRefComponent; }
