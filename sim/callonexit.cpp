// Simulated scopes and clients holding exit actions. Real code: CallOnExit, NAZARA_DEFER.
#include "sim.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <algorithm>

using namespace sim;

namespace
{
	enum Kind { K_CREATE, K_CREATE_EMPTY, K_DESTROY, K_CALL, K_RESET, K_MOVE_ASSIGN, K_FRAME, K_OWN, K_MOVE_CONSTRUCT, K_COUNT };
	const char* const names[] = { "Create", "CreateEmpty", "LeaveScope", "CallAndReset", "Reset", "MoveAssign", "Frame", "TouchOwnGuard", "MoveConstruct" };

	struct Hub { virtual ~Hub() = default; virtual void ran(int id, bool movedFrom) = 0; };

	struct Tracked // an action with state; being moved from leaves it recognisable
	{
		Elem<NothrowMove> state;
		Hub* hub;
		int id;
		Tracked(Hub* h, int i) : state(i64(i) + 1), hub(h), id(i) {}
		void operator()()
		{
			HarnessScope hs;
			Elem<NothrowMove>* s = &state;
			bool moved = valueOf(*s) == MovedFrom;
			hub->ran(id, moved);
			CHECK("C01", "action-dead", g_ledger.live.count(s), "the action was destroyed while it was running");
		}
	};
	struct Plain // an action that is copied when moved, like a lambda that captures pointers
	{
		Hub* hub;
		int id;
		Plain(Hub* h, int i) : hub(h), id(i) {}
		void operator()() const { HarnessScope hs; hub->ran(id, false); }
	};

	template<typename F> F makeAction(Hub* h, int id) { return F(h, id); }
	template<> std::function<void()> makeAction(Hub* h, int id) { return std::function<void()>(Tracked(h, id)); }

	template<typename F>
	struct World : Hub
	{
		using Guard = Nz::CallOnExit<F>;
		struct Slot { Guard* g = nullptr; int pending = -1; int busy = 0; bool leaving = false; };
		struct Action { int runs = 0; bool mayRun = true; bool mayDrop = false; };
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		std::vector<Action> actions;
		int depth = 0;
		bool quiet = false;
		std::vector<int> order;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		int newAction() { actions.emplace_back(); return int(actions.size()) - 1; }

		void ran(int id, bool movedFrom) override
		{
			event(5000 + id);
			if (g_verbose) traceText("    action %d", id);
			CHECK("C01", "moved-from-ran", !movedFrom, "a moved-from exit action ran");
			if (movedFrom) return;
			Action& a = actions[std::size_t(id)];
			a.runs++;
			CHECK("C01", "ran-twice", a.runs == 1, "an exit action ran %d times", a.runs);
			CHECK("C01", "ran-after-reset", a.mayRun, "an exit action ran although it was reset or dropped before");
			order.push_back(id);
			throwPoint(50);
			script(id);
			throwPoint(51);
		}
		void script(int id)
		{
			std::size_t scripts = plan.lists.size() - 1;
			if (!scripts || depth >= 3 || quiet) return;
			DepthGuard dg(depth);
			FaultState saved = g_fault;
			std::size_t i = std::size_t(id) % scripts;
			SIM_COUNT("reach:action-touches-guards");
			for (const Op& op : plan.lists[i + 1]) { beginOp(1000 + int(i), op, comp); step(op); }
			g_fault = saved;
		}

		void create(Slot& s, bool empty)
		{
			if (s.busy) return;
			leave(s);
			void* mem = ::operator new(sizeof(Guard));
			Guard* g = nullptr;
			if (empty)
				libCall(F_NONE, 0, [&] { g = new (mem) Guard(); });
			else
			{
				int id = newAction();
				F f = makeAction<F>(this, id);
				libCall(F_NONE, 0, [&] { g = new (mem) Guard(std::move(f)); });
				s.pending = id;
			}
			s.g = g;
		}
		void leave(Slot& s) // the scope of this guard is left
		{
			if (!s.g || s.busy) return;
			Guard* g = s.g;
			int id = s.pending;
			s.pending = -1;
			s.busy++;
			s.leaving = true;
			libCall(F_NONE, 0, [&] { g->~Guard(); });
			s.leaving = false;
			s.busy--;
			s.g = nullptr;
			::operator delete(static_cast<void*>(g));
			if (id >= 0)
			{
				CHECK("C01", "not-run", actions[std::size_t(id)].runs == 1 || actions[std::size_t(id)].mayDrop, "an exit action ran %d times when its scope was left", actions[std::size_t(id)].runs);
				actions[std::size_t(id)].mayRun = false;
			}
		}
		void call(Slot& s, const Op& op)
		{
			if (!s.g) return;
			Guard* g = s.g;
			int id = s.pending;
			s.pending = -1; // started, from now on
			s.busy++;
			Outcome out = libCall(op, [&] { g->CallAndReset(); });
			s.busy--;
			if (out != Outcome::Ok) SIM_COUNT("reach:action-threw");
			if (id >= 0)
			{
				CHECK("C01", "not-run", actions[std::size_t(id)].runs == 1 || actions[std::size_t(id)].mayDrop, "CallAndReset ran the action %d times", actions[std::size_t(id)].runs);
				actions[std::size_t(id)].mayRun = false;
			}
		}
		void reset(Slot& s)
		{
			if (!s.g) return;
			if (s.pending >= 0) actions[std::size_t(s.pending)].mayRun = false;
			s.pending = -1;
			Guard* g = s.g;
			s.busy++;
			libCall(F_NONE, 0, [&] { g->Reset(); });
			s.busy--;
		}
		void moveAssign(Slot& d, Slot& s)
		{
			if (!d.g || !s.g || d.busy || s.busy) return;
			if (&d == &s) // keeps the action or drops it, but may not run it twice nor run a moved-from one
			{
				if (s.pending >= 0) { actions[std::size_t(s.pending)].mayDrop = true; SIM_COUNT("reach:guard-assigned-to-itself"); }
				Guard *self = s.g, *alias = s.g;
				libCall(F_NONE, 0, [&] { *self = std::move(*alias); });
				return;
			}
			int old = d.pending;
			Guard *dst = d.g, *src = s.g;
			d.pending = s.pending;
			s.pending = -1;
			if (old >= 0) SIM_COUNT("reach:pending-action-assigned-over");
			d.busy++; s.busy++;
			libCall(F_NONE, 0, [&] { *dst = std::move(*src); });
			d.busy--; s.busy--;
			// Whether the replaced action runs now or never is not specified; it may not run later
			if (old >= 0) actions[std::size_t(old)].mayRun = false;
		}

		void moveConstruct(Slot& d, Slot& s) // guards cannot be moved into new ones; if they can one day, the action still runs once
		{
			if constexpr (std::is_move_constructible_v<Guard>)
			{
				if (&d == &s || !s.g || d.busy || s.busy) return;
				leave(d);
				if (d.g || !s.g || s.busy) return;
				void* mem = ::operator new(sizeof(Guard));
				d.pending = s.pending;
				s.pending = -1;
				libCall(F_NONE, 0, [&] { d.g = new (mem) Guard(std::move(*s.g)); });
			}
			else { (void)d; (void)s; }
		}

		// Scopes on the real stack, left in every way
		struct Exit { int how; };
		int frame(const Op& op, int level, std::vector<int>& ids, std::vector<int>& expected)
		{
			int bits = op.c >> (level * 3);
			int how = (bits & 7) % 6;
			int id = newAction();
			F f = makeAction<F>(this, id);
			LibScope ls;
			Nz::CallOnExit<F> guard(std::move(f));
			HarnessScope hs;
			ids.push_back(id);
			expected.push_back(1);
			std::size_t me = ids.size() - 1;
			int deferred = newAction();
			Hub* hub = this;
			NAZARA_DEFER({ HarnessScope inner; hub->ran(deferred, false); });
			ids.push_back(deferred);
			expected.push_back(1);
			if (level < 2 && (op.b >> level) % 2) frame(op, level + 1, ids, expected);
			switch (how)
			{
				case 0: return level;                                   // early return
				case 1: throw Injected{ 60 + level };                   // exception through the scope
				case 2: expected[me] = 0; actions[std::size_t(id)].mayRun = false; guard.Reset(); break;
				case 3:                                                 // explicit call, then normal exit
				{
					guard.CallAndReset();
					actions[std::size_t(id)].mayRun = false;
					break;
				}
				case 4:                                                 // explicit call, then exception
				{
					guard.CallAndReset();
					actions[std::size_t(id)].mayRun = false;
					throw Injected{ 70 + level };
				}
				default: break;
			}
			return -1;
		}
		void runFrame(const Op& op)
		{
			std::vector<int> ids, expected;
			FaultState saved = g_fault;
			g_fault = FaultState{};
			int savedLib = g_inLib;
			try { frame(op, 0, ids, expected); }
			catch (const Injected&) { SIM_COUNT("reach:scope-left-by-exception"); }
			g_inLib = savedLib;
			g_fault = saved;
			for (std::size_t i = 0; i < ids.size(); ++i)
			{
				Action& a = actions[std::size_t(ids[i])];
				CHECK("C01", expected[i] ? "not-run" : "ran-after-reset", a.runs == expected[i], "an exit action of a scope ran %d times instead of %d", a.runs, expected[i]);
				a.mayRun = false;
			}
		}

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			switch (op.kind)
			{
				case K_CREATE: create(s, false); break;
				case K_CREATE_EMPTY: create(s, true); break;
				case K_DESTROY: leave(s); break;
				case K_CALL: call(s, op); break;
				case K_RESET: reset(s); break;
				case K_MOVE_ASSIGN: moveAssign(d, s); break;
				case K_MOVE_CONSTRUCT: moveConstruct(d, s); break;
				case K_FRAME: if (depth < 2) runFrame(op); break;
				case K_OWN: // the running action touches the guard that is running it
					for (Slot& x : slots)
						if (x.busy && x.g)
						{
							SIM_COUNT("reach:action-touches-own-guard");
							if (op.c % 2) { Op o = op; o.fk = F_NONE; call(x, o); }
							else reset(x);
						}
					break;
			}
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				u64 h = 3;
				for (Slot& s : slots) h = h * 31 + (s.g ? 2 : 0) + (s.pending >= 0);
				h = h * 31 + order.size() % 16;
				noteState(h);
			}
			g_opIndex = idx;
			for (int round = 0; round < 3; ++round)
			{
				quiet = round > 0; // the actions of the last round touch nothing
				for (Slot& s : slots) leave(s);
			}
			checkNoLeftovers("C01");
		}
	};

	struct CallOnExitComponent : Component
	{
		CallOnExitComponent() { name = "callonexit"; g_lifetimeProp = "C01"; }
		int variants() const override { return 3; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "CallOnExit<tracked action>", "CallOnExit<trivial action>", "CallOnExit<std::function<void()>>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "C01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			p.cfg = { r.between(1, 4) };
			int clients = r.between(1, 3);
			Scheduler sched(r, clients);
			FaultMix faults(r, false, true);
			std::vector<int> w = { 6, 1, r.between(1, 4), r.between(1, 5), r.range(3), r.range(4), r.range(5), 0, r.range(2) };
			std::vector<int> wn = { 3, 1, r.range(3), r.range(4), r.range(3), r.range(3), r.range(2), r.between(1, 5), 0 };
			auto make = [&](const std::vector<int>& weights)
			{
				Op op;
				op.client = sched.next(r);
				op.kind = r.pick(weights);
				op.a = r.range(4); op.b = r.range(4); op.c = r.range(512);
				if (op.kind == K_CALL) faults.apply(r, op);
				return op;
			};
			p.lists.emplace_back();
			int len = r.chance(1, 8) ? r.between(30, 80) : r.between(2, 25);
			for (int i = 0; i < len; ++i) p.lists[0].push_back(make(w));
			int scripts = r.range(4);
			for (int s = 0; s < scripts; ++s)
			{
				p.lists.emplace_back();
				int m = r.between(0, 3);
				for (int i = 0; i < m; ++i) p.lists.back().push_back(make(wn));
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Tracked>(plan, *this).run(); break;
				case 1: World<Plain>(plan, *this).run(); break;
				case 2: World<std::function<void()>>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new CallOnExitComponent; }
