// A small world built the way an engine uses the library: entities live in a pool, listen to each other through
// signals, hold their listeners in growing vectors, keep masks and private implementations, and are spawned, watched
// and killed by simulated clients - also from inside the callbacks.
// Real code, used together: MemoryPool, Signal (Connection, ConnectionGuard), HybridVector, Bitset, PrivateImpl,
// EnumArray, MovablePtr, CallOnExit, FunctionRef, Result, StackVector.
#include "sim.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <deque>
#include <set>

using namespace sim;

namespace
{
	enum Kind
	{
		K_SPAWN, K_KILL, K_WATCH, K_UNWATCH, K_UNWATCH_ALL, K_TAKE_WATCHES, K_EMIT, K_TICK, K_MASK, K_MASK_MERGE, K_BODY, K_BODY_COPY,
		K_QUERY, K_CULL, K_LOOKUP, K_POOL_MOVE, K_TICK_MOVE, K_RESET, K_KILL_SELF, K_PARENT, K_SPAWN_MANY, K_COUNT
	};
	const char* const names[] = {
		"Spawn", "Kill", "Watch", "Unwatch", "UnwatchAll", "TakeWatches", "Emit", "Tick", "SetMask", "MergeMask", "SetBody", "CopyBody",
		"Query", "Cull", "Lookup", "MovePool", "MoveTickSignal", "ResetWorld", "KillSelf", "SetParent", "SpawnMany" };

	enum class Event : std::uint8_t { Hit, Moved, Max = Moved };
	constexpr int Events = 2;
	constexpr int MaxAlive = 14;

	struct Hub
	{
		virtual ~Hub() = default;
		virtual void called(int sub, int source, i64 arg) = 0;
		virtual void captured(int sub, int delta) = 0;
		virtual void died(int entity) = 0;
	};

	struct Token // state captured by a subscription
	{
		Elem<NothrowMove> e;
		Hub* hub;
		int sub;
		Token(Hub* h, int s) : e(i64(s)), hub(h), sub(s) { HarnessScope hs; hub->captured(sub, 1); }
		Token(const Token& o) : e(o.e), hub(o.hub), sub(o.sub) { HarnessScope hs; if (sub >= 0) hub->captured(sub, 1); }
		Token(Token&& o) noexcept : e(std::move(o.e)), hub(o.hub), sub(o.sub) { o.sub = -1; }
		Token& operator=(const Token&) = delete;
		~Token() { HarnessScope hs; int s = sub; sub = -2; if (s >= 0) hub->captured(s, -1); }
	};

	struct Body
	{
		Elem<ThrowingMove> value;
		Elem<NothrowMove> other;
		Body(i64 v) : value(v), other(v + 1) {}
	};
	struct HeapBody { using Impl = Nz::PrivateImpl<Body>; static constexpr const char* text = "body on the heap"; };
	struct LocalBody { using Impl = Nz::PrivateImpl<Body, sizeof(Body), alignof(Body)>; static constexpr const char* text = "body in place"; };

	template<typename BodyKind, typename MaskBlock, std::size_t Inline>
	struct World : Hub
	{
		struct Entity;
		using EventSignal = Nz::Signal<const Entity&, i64>;
		using TickSignal = Nz::Signal<i64>;
		using Guard = typename EventSignal::ConnectionGuard;
		using TickGuard = typename TickSignal::ConnectionGuard;
		using Impl = typename BodyKind::Impl;
		using Mask = Nz::Bitset<MaskBlock, Nz::HybridVector<MaskBlock, 2>>;
		using Pool = Nz::MemoryPool<Entity>;
		using Registry = Nz::HybridVector<Entity*, 4>;

		struct LastWords // destroyed after everything else of its entity
		{
			Hub* hub = nullptr;
			int id = -1;
			~LastWords() { HarnessScope hs; if (hub) hub->died(id); }
		};
		struct Entity
		{
			LastWords lastWords;
			Elem<NothrowMove> tag;
			int id;
			Impl body;
			Mask mask;
			Nz::MovablePtr<Entity> parent;
			mutable Nz::EnumArray<Event, EventSignal> events;
			Nz::HybridVector<Guard, Inline> watching;
			TickGuard tick;
			Entity(int i, i64 bodyValue) : tag(i64(i)), id(i), body(bodyValue) {}
		};
		struct EventFn { Token t; void operator()(const Entity& e, i64 arg) const { HarnessScope hs; run(t, e.id, arg); } };
		struct TickFn { Token t; void operator()(i64 arg) { HarnessScope hs; run(t, -1, arg); } };
		static void run(const Token& t, int source, i64 arg)
		{
			CHECK("G01", "captured-state-dead", g_ledger.live.count(&t.e), "the state a listener captured was destroyed before it was called");
			t.hub->called(t.sub, source, arg);
			CHECK("G01", "captured-state-dead", g_ledger.live.count(&t.e), "the state a listener captured was destroyed while it was running");
		}

		// Reference model
		struct Sub { int target = -1, event = 0, receiver = -1, script = -1; bool attached = false, heir = false; int tokens = 0, running = 0; };
		struct Model
		{
			Entity* e = nullptr;
			std::size_t index = 0;
			bool alive = false, dying = false;
			i64 body = 0;
			std::vector<bool> mask;
			std::vector<int> watches;
			int tickSub = -1, parent = -1, script = -1;
		};
		struct Frame { int target, event; std::set<int> start; std::map<int, int> calls; i64 arg; };

		const Plan& plan;
		const Component& comp;
		Pool* pool = nullptr;
		Registry registry;
		Nz::Bitset<> aliveMask;
		TickSignal* onTick = nullptr;
		std::vector<Model> models; // by id
		std::vector<int> order;    // alive, in spawn order
		std::vector<Sub> subs;
		std::deque<Frame> frames;
		std::vector<std::pair<Entity*, std::size_t>> leaving; // being destroyed
		std::size_t blockSize;
		int budget = 60, depth = 0;
		bool quiet = false; // nothing happens by itself any more
		i64 nextArg = 1000;

		World(const Plan& p, const Component& c) : plan(p), comp(c), blockSize(std::size_t(p.cfg[0])) {}

		// ------------------------------------------------------------ model helpers
		bool emitting(int target) const { for (const Frame& f : frames) if (f.target == target) return true; return false; }
		int pickAlive(int x) const { return order.empty() ? -1 : order[std::size_t(x) % order.size()]; }
		void detach(int sub)
		{
			if (sub < 0) return;
			Sub& s = subs[std::size_t(sub)];
			if (s.attached && s.running) SIM_COUNT("reach:listener-detached-while-running");
			s.attached = false;
		}
		int newSub(int target, int event, int receiver, int c)
		{
			Sub s;
			s.target = target; s.event = event; s.receiver = receiver;
			int scripts = int(plan.lists.size()) - 1;
			if (scripts > 0 && c % 3) s.script = c % scripts;
			subs.push_back(s);
			return int(subs.size()) - 1;
		}

		void captured(int sub, int delta) override
		{
			Sub& s = subs[std::size_t(sub)];
			s.tokens += delta;
			CHECK("G01", "captured-state-destroyed-twice", s.tokens >= 0, "the state captured by listener %d was destroyed more often than created", sub);
			if (s.tokens == 0 && delta < 0 && s.heir && !s.attached && !quiet && budget > 0)
			{
				// what a listener kept alive is gone for good: somebody else takes over
				s.heir = false;
				budget -= 4;
				SIM_COUNT("reach:spawn-from-released-state");
				Op op{};
				op.kind = K_SPAWN; op.b = sub; op.c = sub * 2;
				spawn(op);
			}
		}
		void died(int id) override
		{
			int script = models[std::size_t(id)].script;
			if (quiet || script < 0 || budget <= 0 || leaving.size() > 2) return;
			SIM_COUNT("reach:operations-from-a-destructor");
			budget -= 3;
			for (Op op : plan.lists[std::size_t(script) + 1])
			{
				if (op.kind == K_POOL_MOVE || op.kind == K_RESET || op.kind == K_QUERY) continue; // not while the pool destroys an entry
				op.fk = F_NONE;
				op.c = op.c * 3 + 1; // no exception leaves a destructor
				beginOp(2000 + script, op, comp);
				step(op, -1);
				check();
			}
		}

		void called(int sub, int source, i64 arg) override
		{
			event(7000 + sub);
			if (g_verbose) traceText("    listener %d of entity %d (source %d)", sub, subs[std::size_t(sub)].receiver, source);
			CHECK("G01", "call-outside-emission", !frames.empty(), "listener %d was called outside any emission", sub);
			if (frames.empty()) return;
			Frame& f = frames.back();
			Sub& s = subs[std::size_t(sub)];
			CHECK("G01", "dead-receiver-called", s.receiver < 0 || models[std::size_t(s.receiver)].alive, "a listener of entity %d was called after the entity was killed", s.receiver);
			CHECK("G01", "called-after-disconnect", s.attached, "listener %d was called after it stopped listening", sub);
			CHECK("G01", "called-by-other", s.target == f.target && s.event == f.event, "listener %d of source %d event %d was called by source %d event %d", sub, s.target, s.event, f.target, f.event);
			CHECK("G01", "called-by-other", source == f.target, "listener %d was given entity %d by an event of entity %d", sub, source, f.target);
			CHECK("G01", "wrong-argument", arg == f.arg, "listener %d received %lld instead of %lld", sub, (long long)arg, (long long)f.arg);
			int n = ++f.calls[sub];
			CHECK("G01", "called-twice", n == 1, "listener %d was called %d times by one event", sub, n);
			if (quiet) return;
			struct Running { World& w; int s; ~Running() { w.subs[std::size_t(s)].running--; } } running{ *this, sub };
			s.running++;
			throwPoint(20);
			int script = s.script, receiver = s.receiver;
			if (script >= 0 && budget-- > 0 && frames.size() <= 3)
			{
				for (const Op& op : plan.lists[std::size_t(script) + 1])
				{
					beginOp(1000 + script, op, comp);
					step(op, receiver);
					check();
				}
			}
			throwPoint(21);
		}

		// ------------------------------------------------------------ operations
		void spawn(const Op& op)
		{
			if (order.size() >= MaxAlive || models.size() > 120) return;
			int id = int(models.size());
			models.emplace_back();
			i64 body = 10 * id + op.b % 7;
			std::size_t maskBits = std::size_t(op.c % 23);
			int sub = op.b % 4 ? newSub(-1, 0, id, op.c) : -1;
			Entity* e = nullptr;
			std::size_t index = Pool::InvalidIndex;
			Hub* hub = this;
			// What a user writes: several steps, each of which may fail, undone by exit actions
			Outcome out = libCall(op, [&]
			{
				e = pool->Allocate(index, id, body);
				Nz::CallOnExit undoEntity([&] { pool->Free(index); });
				if (maskBits) e->mask.UnboundedSet(maskBits);
				registry.push_back(e);
				Nz::CallOnExit undoRegistry([&] { registry.pop_back(); });
				if (sub >= 0) e->tick.Connect(*onTick, TickFn{ Token(hub, sub) });
				aliveMask.UnboundedSet(index);
				undoRegistry.Reset();
				undoEntity.Reset();
				e->lastWords.hub = hub;
				e->lastWords.id = id;
			});
			Model& m = models.back();
			if (out != Outcome::Ok)
			{
				SIM_COUNT("reach:spawn-failed");
				if (e) SIM_COUNT("reach:spawn-undone");
				return;
			}
			CHECK("G01", "index-in-use", index != Pool::InvalidIndex, "a spawned entity has no index");
			for (int other : order)
			{
				CHECK("G01", "index-in-use", models[std::size_t(other)].index != index, "a new entity has the index of living entity %d", other);
				CHECK("G01", "index-in-use", models[std::size_t(other)].e != e, "a new entity was given the memory of living entity %d", other);
			}
			for (const auto& other : leaving)
				CHECK("G01", "index-in-use", other.first != e && other.second != index, "a new entity was given the place of one that is still being destroyed");
			m.e = e; m.index = index; m.alive = true; m.body = body; m.tickSub = sub;
			if (maskBits) { m.mask.assign(maskBits + 1, false); m.mask[maskBits] = true; }
			if (sub >= 0) { subs[std::size_t(sub)].attached = true; subs[std::size_t(sub)].heir = op.c % 5 == 3; }
			int scripts = int(plan.lists.size()) - 1;
			if (scripts > 0 && op.b % 3 == 0) m.script = (op.b + op.c) % scripts;
			order.push_back(id);
		}

		void kill(int id)
		{
			if (id < 0) return;
			Model& m = models[std::size_t(id)];
			if (!m.alive) return;
			if (emitting(id)) // its own signals are running: it dies when they are done
			{
				if (!m.dying) SIM_COUNT("reach:kill-deferred");
				m.dying = true;
				return;
			}
			if (!frames.empty()) SIM_COUNT("reach:killed-during-emission");
			m.alive = false;
			for (int s : m.watches) detach(s);
			detach(m.tickSub);
			m.watches.clear();
			m.tickSub = -1;
			for (Sub& s : subs) if (s.target == id) s.attached = false; // nobody listens to the dead
			for (Model& o : models) if (o.parent == id) { o.parent = -1; if (o.alive) o.e->parent = nullptr; }
			order.erase(std::find(order.begin(), order.end(), id));
			Entity* e = m.e;
			std::size_t index = m.index;
			m.e = nullptr;
			leaving.emplace_back(e, index);
			libCall(F_NONE, 0, [&]
			{
				aliveMask.Reset(index);
				auto it = std::find(registry.begin(), registry.end(), e);
				registry.erase(it);
				pool->Free(index);
			});
			leaving.pop_back();
		}
		void bury() // entities that were killed while their own signals were running
		{
			for (std::size_t i = 0; i < models.size(); ++i)
				if (models[i].alive && models[i].dying && !emitting(int(i))) { kill(int(i)); }
		}

		void watch(const Op& op)
		{
			int a = pickAlive(op.a), b = pickAlive(op.b);
			if (a < 0 || models[std::size_t(a)].watches.size() >= 8) return;
			int ev = op.c % Events;
			int sub = newSub(b, ev, a, op.c);
			Entity *ea = models[std::size_t(a)].e, *eb = models[std::size_t(b)].e;
			Hub* hub = this;
			Outcome out = libCall(op, [&]
			{
				if (op.c % 4 == 1) // connects in place
				{
					ea->watching.emplace_back();
					Nz::CallOnExit undo([&] { ea->watching.pop_back(); });
					ea->watching.back().Connect(eb->events[Event(ev)], EventFn{ Token(hub, sub) });
					undo.Reset();
				}
				else
				{
					Guard g(eb->events[Event(ev)].Connect(EventFn{ Token(hub, sub) }));
					if (op.c % 4 == 2)
						ea->watching.insert(ea->watching.begin(), std::move(g));
					else
						ea->watching.push_back(std::move(g));
				}
			});
			Model& m = models[std::size_t(a)];
			if (out == Outcome::Ok)
			{
				subs[std::size_t(sub)].attached = true;
				subs[std::size_t(sub)].heir = op.a % 4 == 3;
				if (op.c % 4 == 2) m.watches.insert(m.watches.begin(), sub);
				else m.watches.push_back(sub);
			}
			else SIM_COUNT("reach:watch-failed");
		}

		void emit(int target, int ev, const Op& op)
		{
			frames.emplace_back();
			Frame& f = frames.back();
			f.target = target; f.event = ev;
			f.arg = nextArg++;
			for (std::size_t i = 0; i < subs.size(); ++i)
				if (subs[i].attached && subs[i].target == target && subs[i].event == ev) f.start.insert(int(i));
			Outcome out;
			if (target < 0)
				out = libCall(op, [&] { (*onTick)(f.arg); });
			else
			{
				const Entity& e = *models[std::size_t(target)].e;
				out = libCall(op, [&] { e.events[Event(ev)](e, f.arg); });
			}
			Frame done = std::move(frames.back());
			frames.pop_back();
			event(9000 + int(out), done.calls.size());
			if (out == Outcome::Ok)
			{
				for (int s : done.start)
					if (subs[std::size_t(s)].attached)
						CHECK("G01", "not-called", done.calls.count(s), "listener %d of entity %d kept listening to source %d, which never called it", s, subs[std::size_t(s)].receiver, target);
			}
			else SIM_COUNT("reach:event-threw");
			bury();
			if (out != Outcome::Ok && !frames.empty() && op.c % 3 == 0)
			{
				SIM_COUNT("reach:exception-through-nested-event");
				throw Injected{ 30 };
			}
		}

		Nz::Result<Entity*, int> lookup(std::size_t index)
		{
			if (!aliveMask.UnboundedTest(index)) return Nz::Err(int(index) + 1);
			return Nz::Ok(pool->RetrieveFromIndex(index));
		}
		Nz::Result<i64, int> bodyOf(std::size_t index)
		{
			NAZARA_TRY_VALUE(Entity* e, lookup(index));
			return Nz::Ok(i64(e->body->value.val));
		}
		void forEach(Nz::FunctionRef<void(Entity&)> callback)
		{
			for (Entity& e : *pool) callback(e);
		}

		void step(const Op& op, int self)
		{
			int a = pickAlive(op.a), b = pickAlive(op.b);
			switch (op.kind)
			{
				case K_SPAWN: spawn(op); break;
				case K_SPAWN_MANY:
					for (int i = 0; i < 3 + op.a % 4; ++i) { Op o = op; o.kind = K_SPAWN; o.b = op.b + i; o.c = op.c + i; spawn(o); }
					break;
				case K_KILL: kill(a); break;
				case K_KILL_SELF:
					if (self >= 0 && models[std::size_t(self)].alive) { SIM_COUNT("reach:entity-killed-itself"); kill(self); }
					break;
				case K_WATCH: watch(op); break;
				case K_UNWATCH:
				{
					if (a < 0) break;
					Model& m = models[std::size_t(a)];
					if (m.watches.empty()) break;
					std::size_t from = std::size_t(op.b) % m.watches.size(), to = std::min(m.watches.size(), from + 1 + std::size_t(op.c % 3));
					if (op.c % 2 == 0) to = from + 1;
					for (std::size_t i = from; i < to; ++i) detach(m.watches[i]);
					m.watches.erase(m.watches.begin() + long(from), m.watches.begin() + long(to));
					Entity* e = m.e;
					if (op.c % 2 == 0)
						libCall(F_NONE, 0, [&] { e->watching.erase(e->watching.begin() + long(from)); });
					else
						libCall(F_NONE, 0, [&] { e->watching.erase(e->watching.begin() + long(from), e->watching.begin() + long(to)); });
					break;
				}
				case K_UNWATCH_ALL:
				{
					if (a < 0) break;
					Model& m = models[std::size_t(a)];
					for (int s : m.watches) detach(s);
					m.watches.clear();
					Entity* e = m.e;
					libCall(F_NONE, 0, [&] { e->watching.clear(); });
					break;
				}
				case K_TAKE_WATCHES: // the listeners of one entity are handed over to another one
				{
					if (a < 0 || a == b) break;
					Model &ma = models[std::size_t(a)], &mb = models[std::size_t(b)];
					for (int s : ma.watches) detach(s);
					Entity *ea = ma.e, *eb = mb.e;
					ma.watches = std::move(mb.watches);
					mb.watches.clear();
					for (int s : ma.watches) subs[std::size_t(s)].receiver = a;
					libCall(F_NONE, 0, [&] { ea->watching = std::move(eb->watching); eb->watching.clear(); });
					SIM_COUNT("reach:listeners-handed-over");
					break;
				}
				case K_EMIT:
					if (a < 0 || frames.size() >= 3 || (!frames.empty() && budget <= 0)) break;
					emit(a, op.b % Events, op);
					break;
				case K_TICK:
					if (frames.size() >= 3 || (!frames.empty() && budget <= 0)) break;
					emit(-1, 0, op);
					break;
				case K_MASK:
				{
					if (a < 0) break;
					Model& m = models[std::size_t(a)];
					Entity* e = m.e;
					std::size_t bit = std::size_t(op.b * 13 + op.c) % 70;
					bool val = op.c % 3 != 0;
					Outcome out = libCall(op, [&] { e->mask.UnboundedSet(bit, val); });
					if (out == Outcome::Ok)
					{
						if (bit >= m.mask.size() && val) m.mask.resize(bit + 1, false);
						if (bit < m.mask.size()) m.mask[bit] = val;
					}
					break;
				}
				case K_MASK_MERGE:
				{
					if (a < 0) break;
					Model &ma = models[std::size_t(a)], &mb = models[std::size_t(b)];
					Entity *ea = ma.e, *eb = mb.e;
					Outcome out = libCall(op, [&] { if (op.c % 2) ea->mask |= eb->mask; else ea->mask = eb->mask; });
					if (out != Outcome::Ok) break;
					if (op.c % 2)
					{
						if (ma.mask.size() < mb.mask.size()) ma.mask.resize(mb.mask.size(), false);
						for (std::size_t i = 0; i < mb.mask.size(); ++i) if (mb.mask[i]) ma.mask[i] = true;
					}
					else ma.mask = mb.mask;
					break;
				}
				case K_BODY:
				{
					if (a < 0) break;
					Model& m = models[std::size_t(a)];
					Entity* e = m.e;
					i64 v = 5000 + op.b * 7 + op.c;
					libCall(F_NONE, 0, [&] { e->body->value = Elem<ThrowingMove>(v); e->body->other = Elem<NothrowMove>(v + 1); });
					m.body = v;
					break;
				}
				case K_BODY_COPY:
				{
					if (a < 0 || a == b) break;
					Model &ma = models[std::size_t(a)], &mb = models[std::size_t(b)];
					Entity *ea = ma.e, *eb = mb.e;
					if (op.c % 3 == 0) // each gets what the other had
					{
						libCall(F_NONE, 0, [&] { std::swap(ea->body, eb->body); });
						std::swap(ma.body, mb.body);
						break;
					}
					Op o = op;
					o.fk = F_NONE; // a failed copy may be half-way through the members of a body
					libCall(o, [&] { ea->body = eb->body; });
					ma.body = mb.body;
					break;
				}
				case K_QUERY:
				{
					if (!leaving.empty()) break; // it may or may not see the entity being destroyed
					std::set<int> seen;
					i64 sum = 0, expected = 0;
					std::size_t visited = 0;
					Outcome out = libCall(op, [&]
					{
						forEach([&](Entity& e)
						{
							HarnessScope hs;
							throwPoint(40);
							visited++;
							seen.insert(e.id);
							sum += e.id < int(models.size()) ? e.id : 0;
						});
					});
					if (out != Outcome::Ok) { SIM_COUNT("reach:query-threw"); break; }
					for (int id : order) expected += id;
					CHECK("G01", "query", visited == order.size() && seen.size() == order.size() && sum == expected, "a query visited %zu entities (%zu different ones), %zu are alive", visited, seen.size(), order.size());
					break;
				}
				case K_CULL: // collect, then kill
				{
					std::size_t bit = std::size_t(op.b * 5) % 24;
					std::vector<int> ids, expected;
					for (int id : order)
					{
						const std::vector<bool>& m = models[std::size_t(id)].mask;
						if (bit < m.size() && m[bit]) expected.push_back(id);
					}
					libCall(F_NONE, 0, [&]
					{
						Nz::StackVector<Entity*> doomed = NazaraStackVector(Entity*, registry.size());
						for (Entity* e : registry)
							if (e->mask.UnboundedTest(bit)) doomed.push_back(e);
						HarnessScope hs;
						for (Entity* e : doomed) ids.push_back(e->id);
					});
					CHECK("G01", "cull", ids == expected, "%zu entities have bit %zu, %zu were found", expected.size(), bit, ids.size());
					for (int id : ids) kill(id);
					break;
				}
				case K_LOOKUP:
				{
					std::size_t index = std::size_t(op.b + op.c) % (blockSize * 4);
					const Model* owner = nullptr;
					for (int id : order) if (models[std::size_t(id)].index == index) owner = &models[std::size_t(id)];
					bool ok = false;
					i64 value = 0;
					int error = 0;
					libCall(F_NONE, 0, [&]
					{
						Nz::Result<i64, int> r = bodyOf(index);
						ok = r.IsOk();
						if (ok) value = r.GetValue();
						else error = r.GetError();
						i64 mapped = r.Map([](i64 v) { return v + 1; }).GetValueOr(-9);
						if (mapped != (ok ? value + 1 : -9)) value = -99;
					});
					CHECK("G01", "lookup", ok == (owner != nullptr), "looking up index %zu %s", index, ok ? "found a dead entity" : "did not find a living entity");
					CHECK("G01", "lookup", ok ? value == owner->body : error == int(index) + 1, "looking up index %zu gave %lld (error %d)", index, (long long)value, error);
					break;
				}
				case K_POOL_MOVE:
				{
					if (!leaving.empty()) break; // not while the pool destroys an entry
					Pool* old = pool;
					Pool* next = nullptr;
					void* mem = ::operator new(sizeof(Pool));
					libCall(F_NONE, 0, [&] { next = new (mem) Pool(std::move(*old)); });
					if (op.c % 2)
					{
						Outcome out = libCall(op, [&] { *old = Pool(blockSize); });
						(void)out;
						libCall(F_NONE, 0, [&] { *old = std::move(*next); next->~Pool(); });
						::operator delete(static_cast<void*>(next));
						next = old;
					}
					else
					{
						libCall(F_NONE, 0, [&] { old->~Pool(); });
						::operator delete(static_cast<void*>(old));
					}
					pool = next;
					SIM_COUNT("reach:pool-moved");
					break;
				}
				case K_TICK_MOVE:
				{
					if (emitting(-1)) break;
					TickSignal* old = onTick;
					void* mem = ::operator new(sizeof(TickSignal));
					libCall(F_NONE, 0, [&] { onTick = new (mem) TickSignal(std::move(*old)); old->~TickSignal(); });
					::operator delete(static_cast<void*>(old));
					SIM_COUNT("reach:tick-signal-moved");
					break;
				}
				case K_RESET:
				{
					if (!frames.empty() || !leaving.empty()) break;
					for (Model& m : models) m.script = -1;
					for (Sub& s : subs) s.heir = false;
					for (Model& m : models) { m.alive = m.dying = false; m.e = nullptr; m.parent = -1; m.watches.clear(); m.tickSub = -1; }
					for (Sub& s : subs) s.attached = false;
					order.clear();
					libCall(F_NONE, 0, [&]
					{
						registry.clear();
						if (op.c % 2) aliveMask.Reset(); else aliveMask.Clear();
						pool->Reset();
					});
					SIM_COUNT("reach:world-reset");
					break;
				}
				case K_PARENT:
				{
					if (a < 0) break;
					Model& m = models[std::size_t(a)];
					Entity *ea = m.e, *eb = models[std::size_t(b)].e;
					if (op.c % 3 == 0 && a != b)
					{
						int old = models[std::size_t(b)].parent;
						libCall(F_NONE, 0, [&] { ea->parent = std::move(eb->parent); eb->parent = nullptr; });
						m.parent = old;
						models[std::size_t(b)].parent = -1;
					}
					else
					{
						libCall(F_NONE, 0, [&] { ea->parent = eb; });
						m.parent = b;
					}
					break;
				}
			}
		}

		// ------------------------------------------------------------ invariants
		void check()
		{
			libCall(F_NONE, 0, [&] { checkInside(); });
		}
		void checkInside()
		{
			const Pool& cpool = *pool;
			std::size_t held = pool->size(); // whether an entry counts while it is being destroyed is left open
			CHECK("G01", "count", held >= order.size() && held <= order.size() + leaving.size() && cpool.GetAllocatedEntryCount() == held, "%zu entities are alive, the pool holds %zu", order.size(), pool->size());
			CHECK("G01", "count", registry.size() == order.size(), "%zu entities are alive, the registry lists %zu", order.size(), registry.size());
			CHECK("G01", "count", aliveMask.Count() == order.size(), "%zu entities are alive, the mask of living indices has %zu bits", order.size(), aliveMask.Count());
			for (std::size_t i = 0; i < order.size(); ++i)
				CHECK("G01", "registry", registry[i] == models[std::size_t(order[i])].e, "the %zuth entity of the registry is not the %zuth spawned of the living", i, i);
			std::size_t n = 0;
			std::size_t last = 0;
			for (auto it = cpool.begin(); it != cpool.end(); ++it)
			{
				const Entity& e = *it;
				std::size_t index = it.GetIndex();
				bool leaves = false;
				for (const auto& other : leaving) leaves |= other.first == &e;
				if (leaves) continue;
				CHECK("G01", "iteration", n < order.size(), "iterating over the pool visits more than the %zu living entities", order.size());
				CHECK("G01", "iteration", e.id >= 0 && std::size_t(e.id) < models.size() && models[std::size_t(e.id)].alive, "iterating over the pool visits a dead entity");
				CHECK("G01", "iteration", models[std::size_t(e.id)].index == index && models[std::size_t(e.id)].e == &e, "iterating over the pool visits entity %d under index %zu", e.id, index);
				CHECK("G01", "iteration", n == 0 || index > last, "iterating over the pool visits index %zu after %zu", index, last);
				last = index;
				n++;
			}
			CHECK("G01", "iteration", n == order.size(), "iterating over the pool visits %zu of %zu living entities", n, order.size());
			u64 h = 11 + frames.size();
			for (int id : order)
			{
				const Model& m = models[std::size_t(id)];
				Entity& e = *m.e;
				CHECK("G01", "identity", pool->RetrieveFromIndex(m.index) == &e && pool->RetrieveEntryIndex(&e) == m.index, "index and address of entity %d do not belong together any more", id);
				CHECK("G01", "identity", aliveMask.UnboundedTest(m.index), "entity %d is alive, its index is not", id);
				CHECK("G01", "state", e.id == id && valueOf(e.tag) == id, "entity %d lost its tag", id);
				CHECK("G01", "state", valueOf(e.body->value) == m.body && valueOf(e.body->other) == m.body + 1, "the body of entity %d has value %lld instead of %lld", id, (long long)e.body->value.val, (long long)m.body);
				CHECK("G01", "state", e.parent.Get() == (m.parent < 0 ? nullptr : models[std::size_t(m.parent)].e), "entity %d lost its parent", id);
				std::size_t bits = 0;
				for (std::size_t i = 0; i < 72; ++i)
				{
					bool expected = i < m.mask.size() && m.mask[i];
					bits += expected;
					CHECK("G01", "mask", e.mask.UnboundedTest(i) == expected, "bit %zu of the mask of entity %d is %d", i, id, int(!expected));
				}
				CHECK("G01", "mask", e.mask.Count() == bits, "the mask of entity %d has %zu bits instead of %zu", id, e.mask.Count(), bits);
				CHECK("G01", "listeners", e.watching.size() == m.watches.size(), "entity %d holds %zu listeners instead of %zu", id, e.watching.size(), m.watches.size());
				for (std::size_t i = 0; i < m.watches.size(); ++i)
				{
					bool attached = subs[std::size_t(m.watches[i])].attached;
					CHECK("G01", "listeners", e.watching[i].IsConnected() == attached, "listener %zu of entity %d reports %s", i, id, attached ? "disconnected although its source lives" : "connected although its source is dead");
					h = h * 1000003 + u64(attached ? subs[std::size_t(m.watches[i])].target + 2 : 1);
				}
				bool ticks = m.tickSub >= 0;
				CHECK("G01", "listeners", e.tick.IsConnected() == ticks, "entity %d %s to the tick", id, ticks ? "stopped listening" : "listens");
				h = h * 31 + u64(m.index) + 64 * ticks;
			}
			noteState(h);
			for (std::size_t i = 0; i < subs.size(); ++i)
			{
				const Sub& s = subs[i];
				if (s.attached)
					CHECK("G01", "captured-state-lost", s.tokens >= 1, "the state captured by listener %zu was destroyed while it listens", i);
				else if (!s.running)
					CHECK("G01", "captured-state-kept", s.tokens == 0, "listener %zu stopped listening and is not running, but %d copies of its captured state are alive", i, s.tokens);
			}
		}

		void run()
		{
			{
				void* mem = ::operator new(sizeof(Pool));
				libCall(F_NONE, 0, [&] { pool = new (mem) Pool(blockSize); });
				void* mem2 = ::operator new(sizeof(TickSignal));
				libCall(F_NONE, 0, [&] { onTick = new (mem2) TickSignal(); });
			}
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op, -1);
				check();
			}
			g_opIndex = idx;
			// Once faults stop: everybody who listens hears everything once
			quiet = true;
			emit(-1, 0, Op{});
			for (int id : std::vector<int>(order))
				for (int ev = 0; ev < Events; ++ev) emit(id, ev, Op{});
			check();
			int how = plan.cfg[1] % 3;
			if (how == 0) // one by one, newest first
			{
				while (!order.empty()) { kill(order.back()); check(); }
			}
			if (how == 1) // the tick goes first
			{
				for (Sub& s : subs) if (s.target < 0) s.attached = false;
				libCall(F_NONE, 0, [&] { onTick->~TickSignal(); });
				::operator delete(static_cast<void*>(onTick));
				onTick = nullptr;
			}
			for (Sub& s : subs) s.attached = false;
			libCall(F_NONE, 0, [&] { pool->~Pool(); });
			::operator delete(static_cast<void*>(pool));
			if (onTick)
			{
				libCall(F_NONE, 0, [&] { (*onTick)(1); onTick->~TickSignal(); });
				::operator delete(static_cast<void*>(onTick));
			}
			libCall(F_NONE, 0, [&] { registry = Registry(); aliveMask = Nz::Bitset<>(); });
			for (std::size_t i = 0; i < subs.size(); ++i)
				CHECK("G01", "captured-state-kept", subs[i].tokens == 0, "the state captured by listener %zu outlived the world", i);
		}
	};

	struct SystemComponent : Component
	{
		SystemComponent() { name = "system"; g_lifetimeProp = "G01"; }
		int variants() const override { return 3; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "body on the heap, 8-bit masks, 2 inline listeners", "body in place, 32-bit masks, 1 inline listener", "body in place, 64-bit masks, 4 inline listeners" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "G01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			p.cfg = { r.between(1, 5), r.range(3) };
			int clients = r.between(1, 4);
			Scheduler sched(r, clients);
			FaultMix faults(r, true, true);
			std::vector<int> w(K_COUNT, 0);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.range(3);
			w[K_SPAWN] = r.between(2, 6); w[K_SPAWN_MANY] = 1;
			w[K_WATCH] = r.between(1, 8);
			w[K_KILL] = r.range(4);
			w[K_EMIT] = r.between(1, 6); w[K_TICK] = r.range(3);
			w[K_RESET] = r.chance(1, 4); w[K_POOL_MOVE] = r.chance(1, 2); w[K_TICK_MOVE] = r.chance(1, 2); w[K_CULL] = r.chance(1, 3);
			w[K_KILL_SELF] = 0;
			std::vector<int> wn = w;
			wn[K_KILL] = r.range(5); wn[K_KILL_SELF] = r.range(4); wn[K_WATCH] = r.range(5); wn[K_UNWATCH] = r.range(5); wn[K_EMIT] = r.range(4);
			wn[K_SPAWN] = r.range(3); wn[K_SPAWN_MANY] = 0; wn[K_TAKE_WATCHES] = r.range(3); wn[K_POOL_MOVE] = r.range(2);
			auto make = [&](const std::vector<int>& weights)
			{
				Op op;
				op.client = sched.next(r);
				op.kind = r.pick(weights);
				op.a = r.range(MaxAlive); op.b = r.range(MaxAlive); op.c = r.range(60);
				faults.apply(r, op);
				return op;
			};
			p.lists.emplace_back();
			int len = r.chance(1, 6) ? r.between(50, 120) : r.between(8, 50);
			for (int i = 0; i < len; ++i) p.lists[0].push_back(make(w));
			int scripts = r.range(5);
			for (int s = 0; s < scripts; ++s)
			{
				p.lists.emplace_back();
				int m = r.between(1, 4);
				for (int i = 0; i < m; ++i) p.lists.back().push_back(make(wn));
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<HeapBody, std::uint8_t, 2>(plan, *this).run(); break;
				case 1: World<LocalBody, std::uint32_t, 1>(plan, *this).run(); break;
				case 2: World<LocalBody, std::uint64_t, 4>(plan, *this).run(); break;
			}
			checkNoLeftovers("G01");
		}
	};
}

sim::Component* sim::makeComponent() { return new SystemComponent; }
