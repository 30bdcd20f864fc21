// Simulated clients connected to shared signals. Real code: Signal, Connection, ConnectionGuard, HybridVector.
// Callbacks run seeded scripts: they connect, disconnect, clear, emit again, throw, or release what they captured.
#include "sim.hpp"
#include <NazaraUtils/Signal.hpp>
#include <algorithm>
#include <deque>
#include <set>

using namespace sim;

namespace
{
	enum Kind
	{
		K_CONNECT_MOVE, K_CONNECT_COPY, K_CONNECT_FUNCTOR, K_CONNECT_METHOD, K_HANDLE_CONNECT, K_GUARD_CONNECT, K_EMIT,
		K_DISCONNECT, K_DISCONNECT_SELF, K_GUARD_DISCONNECT, K_CLEAR,
		K_HANDLE_COPY, K_HANDLE_MOVE, K_HANDLE_COPY_CONSTRUCT, K_HANDLE_MOVE_CONSTRUCT,
		K_GUARD_CREATE, K_GUARD_ASSIGN, K_GUARD_MOVE_ASSIGN, K_GUARD_MOVE_CONSTRUCT, K_GUARD_CONNECTION,
		K_SIGNAL_MOVE_CONSTRUCT, K_SIGNAL_MOVE_ASSIGN, K_SIGNAL_COPY, K_SIGNAL_DESTROY, K_CROWD, K_COUNT
	};
	const char* const names[] = {
		"ConnectMove", "ConnectCopy", "ConnectFunctor", "ConnectMethod", "ConnectionConnect", "GuardConnect", "Emit",
		"Disconnect", "DisconnectSelf", "GuardDisconnect", "Clear",
		"ConnectionCopyAssign", "ConnectionMoveAssign", "ConnectionCopyConstruct", "ConnectionMoveConstruct",
		"GuardCreate", "GuardAssign", "GuardMoveAssign", "GuardMoveConstruct", "GuardGetConnection",
		"SignalMoveConstruct", "SignalMoveAssign", "SignalCopy", "SignalDestroy", "ConnectCrowd" };

	constexpr int Handles = 3, Guards = 2;

	struct Hub // what callbacks and captured state report to
	{
		virtual ~Hub() = default;
		virtual void called(int cb, i64 arg, const void* payload, i64 payloadValue, i64* shared) = 0;
		virtual void captured(int cb, int delta) = 0;
	};

	// State captured by a callback
	struct Token
	{
		Elem<NothrowMove> e;
		Hub* hub;
		int cb;
		Token(Hub* h, int c) : e(i64(c)), hub(h), cb(c) { HarnessScope hs; hub->captured(cb, 1); }
		Token(const Token& o) : e(o.e), hub(o.hub), cb(o.cb) { HarnessScope hs; if (cb >= 0) hub->captured(cb, 1); }
		Token(Token&& o) noexcept : e(std::move(o.e)), hub(o.hub), cb(o.cb) { o.cb = -1; }
		Token& operator=(const Token&) = delete;
		~Token()
		{
			HarnessScope hs;
			int c = cb;
			cb = -2;
			if (c >= 0) hub->captured(c, -1);
		}
	};

	// An object whose member function gets connected
	struct ReceiverBase
	{
		Hub* h = nullptr;
		int cb = -1;
		const void* self = nullptr;
		void here() const { CHECK("S01", "wrong-receiver", self == this, "callback %d was called on another object than the connected one", cb); }
	};

	// Argument lists
	struct NoArgs
	{
		using Signal = Nz::Signal<>;
		static constexpr const char* text = "Signal<>";
		static void emit(const Signal& s, i64, i64&, const void*& ) { s(); }
		struct Fn { Token t; void operator()() const { HarnessScope hs; run(t.hub, t.cb, &t); } };
		struct Receiver : ReceiverBase { void on() { HarnessScope hs; here(); run(h, cb, nullptr); } void onC() const { HarnessScope hs; here(); run(h, cb, nullptr); } };
		static void run(Hub* h, int cb, const Token* t);
	};
	struct ValueArg
	{
		using Signal = Nz::Signal<i64>;
		static constexpr const char* text = "Signal<long>";
		static void emit(const Signal& s, i64 arg, i64&, const void*&) { s(arg); }
		struct Fn { Token t; void operator()(i64 v) { HarnessScope hs; run(t.hub, t.cb, &t, v); } };
		struct Receiver : ReceiverBase { void on(i64 v) { HarnessScope hs; here(); run(h, cb, nullptr, v); } void onC(i64 v) const { HarnessScope hs; here(); run(h, cb, nullptr, v); } };
		static void run(Hub* h, int cb, const Token* t, i64 v);
	};
	struct PayloadArg
	{
		using Payload = Elem<NothrowMove>; // copying it can throw
		using Signal = Nz::Signal<i64, Payload>;
		static constexpr const char* text = "Signal<long, Payload>";
		static void emit(const Signal& s, i64 arg, i64&, const void*&)
		{
			Payload* p = nullptr;
			{
				HarnessScope hs;
				FaultState saved = g_fault;
				g_fault = FaultState{};
				p = new Payload(arg);
				g_fault = saved;
			}
			struct Free { Payload* p; ~Free() { HarnessScope hs; delete p; } } guard{ p };
			s(arg, *p);
		}
		struct Fn { Token t; void operator()(i64 v, Payload p) { HarnessScope hs; run(t.hub, t.cb, &t, v, p); } };
		struct Receiver : ReceiverBase { void on(i64 v, Payload p) { HarnessScope hs; here(); run(h, cb, nullptr, v, p); } void onC(i64 v, Payload p) const { HarnessScope hs; here(); run(h, cb, nullptr, v, p); } };
		static void run(Hub* h, int cb, const Token* t, i64 v, const Payload& p);
	};
	struct RefArg
	{
		using Payload = Elem<MoveOnly | NothrowMove>; // can only be passed by reference
		using Signal = Nz::Signal<const Payload&, i64&>;
		static constexpr const char* text = "Signal<const Payload&, long&>";
		static void emit(const Signal& s, i64 arg, i64& shared, const void*& payload)
		{
			Payload* p = nullptr;
			{
				HarnessScope hs;
				FaultState saved = g_fault;
				g_fault = FaultState{};
				p = new Payload(arg);
				g_fault = saved;
			}
			payload = p;
			struct Free { Payload* p; ~Free() { HarnessScope hs; delete p; } } guard{ p };
			s(*p, shared);
		}
		struct Fn { Token t; void operator()(const Payload& p, i64& n) { HarnessScope hs; run(t.hub, t.cb, &t, p, n); } };
		struct Receiver : ReceiverBase { void on(const Payload& p, i64& n) { HarnessScope hs; here(); run(h, cb, nullptr, p, n); } void onC(const Payload& p, i64& n) const { HarnessScope hs; here(); run(h, cb, nullptr, p, n); } };
		static void run(Hub* h, int cb, const Token* t, const Payload& p, i64& n);
	};
	// The captured state must outlive the call that uses it
	struct Alive
	{
		const Token* t;
		explicit Alive(const Token* token) : t(token) { check("when its callback was called"); }
		~Alive() noexcept(false) { check("while its callback was running"); }
		void check(const char* when)
		{
			if (t) CHECK("S03", "captured-state-dead", g_ledger.live.count(&t->e), "the state a callback captured was destroyed %s", when);
		}
	};
	void NoArgs::run(Hub* h, int cb, const Token* t) { Alive a(t); h->called(cb, -5, nullptr, -5, nullptr); }
	void ValueArg::run(Hub* h, int cb, const Token* t, i64 v) { Alive a(t); h->called(cb, v, nullptr, v, nullptr); }
	void PayloadArg::run(Hub* h, int cb, const Token* t, i64 v, const Payload& p) { Alive a(t); h->called(cb, v, nullptr, valueOf(p), nullptr); }
	void RefArg::run(Hub* h, int cb, const Token* t, const Payload& p, i64& n) { Alive a(t); h->called(cb, valueOf(p), &p, valueOf(p), &n); }

	template<typename A>
	struct World : Hub
	{
		using Signal = typename A::Signal;
		using Callback = typename Signal::Callback;
		using Connection = typename Signal::Connection;
		using Guard = typename Signal::ConnectionGuard;
		using Fn = typename A::Fn;
		using Receiver = typename A::Receiver;

		struct Cb { int signal = -1; bool attached = false, wasAttached = false, hasToken = false; int running = 0, tokens = 0, script = -1, release = -1, owner = 0; Receiver* receiver = nullptr; };
		struct Frame { int signal; std::set<int> start; std::map<int, int> calls; i64 arg; i64 shared; const void* payload; };
		struct HandleSlot { Connection* c = nullptr; int cb = -1; };
		struct GuardSlot { Guard* g = nullptr; int cb = -1; };

		const Plan& plan;
		const Component& comp;
		std::vector<Signal*> signals;
		std::vector<std::set<int>> attached; // reference model: who is connected to each signal
		std::vector<Cb> cbs;
		std::deque<Frame> frames;
		std::vector<std::vector<HandleSlot>> handles;
		std::vector<std::vector<GuardSlot>> guards;
		std::deque<Receiver> receivers;
		int budget = 80, emitDepth = 0, releasing = 0;
		bool quiet = false; // final audit: callbacks only count
		bool hooksOff = false;
		std::vector<const void*> busy; // handles being assigned up the stack: what a re-entrant call on them does is not specified
		struct Busy
		{
			World& w;
			Busy(World& world, const void* a, const void* b) : w(world) { w.busy.push_back(a); w.busy.push_back(b); }
			~Busy() { w.busy.resize(w.busy.size() - 2); }
		};
		bool isBusy(const void* p) const { return std::find(busy.begin(), busy.end(), p) != busy.end(); }
		i64 nextArg = 100;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		template<typename T, typename... Args> T* make(Args&&... args)
		{
			void* mem = ::operator new(sizeof(T));
			T* raw = nullptr;
			libCall(F_NONE, 0, [&] { raw = new (mem) T(std::forward<Args>(args)...); });
			return raw;
		}
		template<typename T> void destroy(T*& p)
		{
			if (!p) return;
			T* q = p;
			p = nullptr;
			libCall(F_NONE, 0, [&] { q->~T(); });
			::operator delete(static_cast<void*>(q));
		}

		bool emitting(int s) const { for (const Frame& f : frames) if (f.signal == s) return true; return false; }
		void detach(int cb)
		{
			if (cb < 0 || !cbs[std::size_t(cb)].attached) return;
			Cb& c = cbs[std::size_t(cb)];
			c.attached = false;
			attached[std::size_t(c.signal)].erase(cb);
			if (c.running) SIM_COUNT("reach:detached-while-running");
			else if (emitting(c.signal)) SIM_COUNT("reach:detached-during-emission");
		}
		void detachAll(int s) { std::set<int> all = attached[std::size_t(s)]; for (int cb : all) detach(cb); }

		int newCallback(const Op& op, bool token)
		{
			Cb c;
			c.hasToken = token;
			c.owner = op.client;
			int scripts = int(plan.lists.size()) - 1;
			if (scripts > 0 && op.c % 3 != 0) c.script = op.c % scripts;
			if (scripts > 0 && op.c % 7 == 3) c.release = op.c / 7;
			cbs.push_back(c);
			return int(cbs.size()) - 1;
		}
		void attach(int cb, int s)
		{
			Cb& c = cbs[std::size_t(cb)];
			c.signal = s;
			c.attached = c.wasAttached = true;
			attached[std::size_t(s)].insert(cb);
			if (emitting(s)) SIM_COUNT("reach:connected-during-emission");
		}

		void captured(int cb, int delta) override
		{
			Cb& c = cbs[std::size_t(cb)];
			c.tokens += delta;
			CHECK("S03", "captured-state-destroyed-twice", c.tokens >= 0, "the state captured by callback %d was destroyed more often than created", cb);
			// releasing captured state may itself disconnect somebody (a captured guard)
			if (c.tokens == 0 && delta < 0 && c.wasAttached && c.release >= 0 && !hooksOff && releasing < 3)
			{
				DepthGuard dg(releasing);
				SIM_COUNT("reach:release-disconnects");
				int rel = c.release, owner = c.owner;
				FaultState saved = g_fault;
				g_fault = FaultState{};
				if (rel % 2)
				{
					GuardSlot& g = guards[std::size_t(owner)][std::size_t(rel / 2) % Guards];
					if (g.g && !isBusy(&g)) { detach(g.cb); libCall(F_NONE, 0, [&] { g.g->Disconnect(); }); }
				}
				else
				{
					HandleSlot& h = handles[std::size_t(owner)][std::size_t(rel / 2) % Handles];
					if (h.c && !isBusy(&h)) { detach(h.cb); libCall(F_NONE, 0, [&] { h.c->Disconnect(); }); }
				}
				g_fault = saved;
			}
		}

		void called(int cb, i64 arg, const void* payload, i64 payloadValue, i64* shared) override
		{
			event(7000 + cb);
			if (g_verbose) traceText("    callback %d", cb);
			CHECK("S01", "call-outside-emission", !frames.empty(), "callback %d was called outside any emission", cb);
			if (frames.empty()) return;
			Frame& f = frames.back();
			Cb& c = cbs[std::size_t(cb)];
			CHECK("S01", "called-after-disconnect", c.attached, "callback %d was called after it was disconnected", cb);
			CHECK("S01", "called-by-other-signal", c.signal == f.signal, "callback %d of signal %d was called by an emission of signal %d", cb, c.signal, f.signal);
			int n = ++f.calls[cb];
			CHECK("S01", "called-twice", n == 1, "callback %d was called %d times by one emission", cb, n);
			if (arg != -5) // -5: this signal has no arguments
			{
				CHECK("S01", "wrong-argument", arg == f.arg, "callback %d received %lld instead of %lld", cb, (long long)arg, (long long)f.arg);
				CHECK("S01", "wrong-argument", payloadValue == f.arg, "callback %d received a payload of %lld instead of %lld", cb, (long long)payloadValue, (long long)f.arg);
			}
			if (shared)
			{
				CHECK("S01", "wrong-argument", payload == f.payload && shared == &f.shared, "callback %d did not receive the emitter's own objects", cb);
				++*shared;
			}
			if (quiet) return;
			struct Running { World& w; int cb; ~Running() { w.cbs[std::size_t(cb)].running--; } } running{ *this, cb };
			c.running++;
			if (c.running > 1) SIM_COUNT("reach:callback-re-entered");
			throwPoint(20);
			int script = c.script;
			if (script >= 0 && budget-- > 0 && emitDepth <= 3)
			{
				SIM_COUNT("reach:script-ran");
				std::size_t level = frames.size();
				for (const Op& op : plan.lists[std::size_t(script) + 1])
				{
					beginOp(1000 + script, op, comp);
					step(op, cb);
					check();
				}
				CHECK("S01", "emission-nesting", frames.size() == level, "an emission did not return");
			}
			throwPoint(21);
		}

		void emit(int s, const Op& op, bool audit)
		{
			frames.emplace_back();
			Frame& f = frames.back(); // references into a deque survive push and pop at its end
			f.signal = s;
			f.start = attached[std::size_t(s)];
			f.arg = nextArg++;
			f.shared = 0;
			f.payload = nullptr;
			bool nested = false;
			for (std::size_t i = 0; i + 1 < frames.size(); ++i) nested |= frames[i].signal == s;
			if (nested) SIM_COUNT("reach:nested-emission-of-same-signal");
			emitDepth++;
			Outcome out = libCall(audit ? int(F_NONE) : op.fk, op.fn, [&] { A::emit(*signals[std::size_t(s)], f.arg, f.shared, f.payload); });
			emitDepth--;
			Frame done = std::move(frames.back());
			frames.pop_back();
			event(9000 + int(out), done.calls.size());
			if (out == Outcome::Ok)
			{
				for (int cb : done.start)
					if (cbs[std::size_t(cb)].attached)
					{
						int n = done.calls.count(cb) ? done.calls[cb] : 0;
						CHECK("S01", "not-called", n >= 1, "callback %d stayed connected through an emission that never called it", cb);
					}
				if (std::is_same_v<A, RefArg>)
				{
					i64 total = 0;
					for (auto& [cb, n] : done.calls) total += n;
					CHECK("S01", "wrong-argument", done.shared == total, "%lld calls changed the emitter's counter %lld times", (long long)total, (long long)done.shared);
				}
			}
			else
			{
				SIM_COUNT("reach:emission-threw");
				if (emitDepth > 0 && op.c % 3 == 0)
				{
					SIM_COUNT("reach:exception-through-nested-emission");
					throw Injected{ 30 };
				}
			}
		}

		void connect(const Op& op, int s, HandleSlot& h)
		{
			Signal& sig = *signals[std::size_t(s)];
			bool method = op.kind == K_CONNECT_METHOD;
			int cb = newCallback(op, !method);
			Outcome out;
			Connection* dst = h.c;
			if (method)
			{
				receivers.emplace_back();
				Receiver& r = receivers.back();
				r.h = this;
				r.cb = cb;
				r.self = &r;
				const Receiver& rc = r;
				int kind = op.b % 4;
				out = libCall(op, [&]
				{
					switch (kind)
					{
						case 0: *dst = sig.Connect(r, &Receiver::on); break;
						case 1: *dst = sig.Connect(&r, &Receiver::on); break;
						case 2: *dst = sig.Connect(rc, &Receiver::onC); break;
						default: *dst = sig.Connect(&rc, &Receiver::onC); break;
					}
				});
			}
			else
			{
				FaultState saved = g_fault;
				g_fault = FaultState{};
				{
					Callback cbk(Fn{ Token(this, cb) }); // the user's own function object
					g_fault = saved;
					switch (op.kind)
					{
						case K_CONNECT_MOVE: out = libCall(op, [&] { *dst = sig.Connect(std::move(cbk)); }); break;
						case K_CONNECT_COPY: out = libCall(op, [&] { *dst = sig.Connect(static_cast<const Callback&>(cbk)); }); break;
						case K_HANDLE_CONNECT: out = libCall(op, [&] { dst->Connect(sig, std::move(cbk)); }); break;
						default:
						{
							Fn* fn = cbk.template target<Fn>();
							out = libCall(op, [&] { *dst = sig.Connect(*fn); });
							break;
						}
					}
					hooksOff = true; // the user's leftovers are not the signal's business
				}
				hooksOff = false;
			}
			if (out == Outcome::Ok)
			{
				attach(cb, s);
				h.cb = cb;
			}
			else
			{
				SIM_COUNT("reach:connect-failed");
				CHECK("S03", "captured-state-leak", cbs[std::size_t(cb)].tokens == 0, "a failed connect kept %d copies of the captured state", cbs[std::size_t(cb)].tokens);
			}
		}

		void step(const Op& op, int self)
		{
			int s = op.a % int(signals.size());
			int client = op.client % int(handles.size());
			HandleSlot& h = handles[std::size_t(client)][std::size_t(op.b) % Handles];
			HandleSlot& h2 = handles[std::size_t(op.c / 3) % handles.size()][std::size_t(op.c) % Handles];
			GuardSlot& g = guards[std::size_t(client)][std::size_t(op.b) % Guards];
			GuardSlot& g2 = guards[std::size_t(op.c / 3) % guards.size()][std::size_t(op.c) % Guards];
			switch (op.kind)
			{
				case K_CONNECT_MOVE:
				case K_CONNECT_COPY:
				case K_CONNECT_FUNCTOR:
				case K_CONNECT_METHOD:
				case K_HANDLE_CONNECT:
					connect(op, s, h);
					break;
				case K_CROWD: // thousands of receivers at once; the handles keep the last ones
					for (int i = 0; i < op.c; ++i)
					{
						Op o = op;
						o.kind = K_CONNECT_MOVE; o.b = i; o.c = 0;
						connect(o, s, handles[std::size_t(client)][std::size_t(i) % Handles]);
					}
					break;
				case K_GUARD_CONNECT:
				{
					int cb = newCallback(op, true);
					int old = g.cb;
					FaultState saved = g_fault;
					g_fault = FaultState{};
					Outcome out;
					Signal& sig = *signals[std::size_t(s)];
					Guard* guard = g.g;
					{
						Callback cbk(Fn{ Token(this, cb) });
						g_fault = saved;
						// whether a failing re-connect still releases the guard's previous callback is not specified
						Op o = op;
						if (old >= 0 && cbs[std::size_t(old)].attached) o.fk = F_NONE;
						detach(old);
						g.cb = -1;
						if (op.c % 2)
							out = libCall(o, [&] { guard->Connect(sig, std::move(cbk)); });
						else
							out = libCall(o, [&] { guard->Connect(sig, static_cast<const Callback&>(cbk)); });
						hooksOff = true;
					}
					hooksOff = false;
					if (out == Outcome::Ok) { attach(cb, s); g.cb = cb; }
					else
					{
						SIM_COUNT("reach:connect-failed");
						CHECK("S03", "captured-state-leak", cbs[std::size_t(cb)].tokens == 0, "a failed connect kept %d copies of the captured state", cbs[std::size_t(cb)].tokens);
					}
					break;
				}
				case K_EMIT:
					if (emitDepth >= 3 || (emitDepth && budget <= 0)) break;
					emit(s, op, false);
					break;
				case K_DISCONNECT:
				{
					detach(h.cb);
					Connection* c = h.c;
					libCall(F_NONE, 0, [&] { c->Disconnect(); });
					break;
				}
				case K_DISCONNECT_SELF:
				{
					if (self < 0) break;
					for (auto& list : handles)
						for (HandleSlot& x : list)
							if (x.cb == self)
							{
								detach(self);
								Connection* c = x.c;
								libCall(F_NONE, 0, [&] { c->Disconnect(); });
								return;
							}
					for (auto& list : guards)
						for (GuardSlot& x : list)
							if (x.cb == self)
							{
								detach(self);
								Guard* y = x.g;
								libCall(F_NONE, 0, [&] { y->Disconnect(); });
								return;
							}
					break;
				}
				case K_GUARD_DISCONNECT:
				{
					detach(g.cb);
					Guard* y = g.g;
					libCall(F_NONE, 0, [&] { y->Disconnect(); });
					break;
				}
				case K_CLEAR:
				{
					detachAll(s);
					Signal* sig = signals[std::size_t(s)];
					libCall(F_NONE, 0, [&] { sig->Clear(); });
					break;
				}
				case K_HANDLE_COPY:
				{
					Connection *d = h.c, *src = h2.c;
					libCall(F_NONE, 0, [&] { *d = static_cast<const Connection&>(*src); });
					h.cb = h2.cb;
					break;
				}
				case K_HANDLE_MOVE:
				{
					if (&h == &h2) break;
					Connection *d = h.c, *src = h2.c;
					libCall(F_NONE, 0, [&] { *d = std::move(*src); });
					h.cb = h2.cb;
					h2.cb = -1;
					break;
				}
				case K_HANDLE_COPY_CONSTRUCT:
				case K_HANDLE_MOVE_CONSTRUCT:
				{
					if (&h == &h2) break;
					Connection* src = h2.c;
					destroy(h.c);
					h.c = op.kind == K_HANDLE_COPY_CONSTRUCT ? make<Connection>(static_cast<const Connection&>(*src)) : make<Connection>(std::move(*src));
					h.cb = h2.cb;
					if (op.kind == K_HANDLE_MOVE_CONSTRUCT) h2.cb = -1;
					break;
				}
				case K_GUARD_CREATE: // destroy the guard and make a new one (default, from a connection, from a moved connection)
				{
					detach(g.cb);
					g.cb = -1;
					Guard* old = g.g;
					g.g = nullptr;
					destroy(old);
					Connection* src = h.c;
					switch (op.c % 3)
					{
						case 0: g.g = make<Guard>(); break;
						case 1: g.g = make<Guard>(static_cast<const Connection&>(*src)); g.cb = h.cb; break;
						default: g.g = make<Guard>(std::move(*src)); g.cb = h.cb; h.cb = -1; break;
					}
					break;
				}
				case K_GUARD_ASSIGN:
				{
					if (g.cb == h.cb && g.cb >= 0) break; // re-assigning a guard to its own callback: not specified
					Busy b(*this, &g, &h);
					detach(g.cb);
					Guard* y = g.g;
					Connection* src = h.c;
					int cb = h.cb;
#ifndef SIM_NO_GUARD_MOVE
					if (op.c % 2 == 0)
					{
						h.cb = -1;
						libCall(F_NONE, 0, [&] { *y = std::move(*src); });
					}
					else
#endif
						libCall(F_NONE, 0, [&] { *y = static_cast<const Connection&>(*src); });
					g.cb = cb;
					break;
				}
				case K_GUARD_MOVE_ASSIGN:
				{
					if (g.cb == g2.cb && g.cb >= 0 && &g != &g2) break;
					Busy b(*this, &g, &g2);
					Guard *d = g.g, *src = g2.g;
					if (&g != &g2)
					{
						detach(g.cb);
						g.cb = g2.cb;
						g2.cb = -1;
					}
					libCall(F_NONE, 0, [&] { *d = std::move(*src); });
					break;
				}
				case K_GUARD_MOVE_CONSTRUCT:
				{
					if (&g == &g2) break;
					detach(g.cb);
					Guard* old = g.g;
					g.g = nullptr;
					g.cb = -1;
					destroy(old);
					if (!g2.g || g.g) break;
					Guard* src = g2.g;
					g.g = make<Guard>(std::move(*src));
					g.cb = g2.cb;
					g2.cb = -1;
					break;
				}
				case K_GUARD_CONNECTION:
				{
					Guard* src = g.g;
					Connection* d = h.c;
					if (op.c % 2)
					{
						libCall(F_NONE, 0, [&] { *d = static_cast<const Connection&>(src->GetConnection()); });
						h.cb = g.cb;
					}
					else // release the callback from its guard
					{
						libCall(F_NONE, 0, [&] { *d = std::move(src->GetConnection()); });
						h.cb = g.cb;
						g.cb = -1;
					}
					break;
				}
				case K_SIGNAL_MOVE_CONSTRUCT:
				case K_SIGNAL_MOVE_ASSIGN:
				{
					int d = op.b % int(signals.size());
					if (d == s || emitting(s) || emitting(d)) break;
					std::set<int> dropped = attached[std::size_t(d)];
					detachAll(d);
					Signal *src = signals[std::size_t(s)], *dst = signals[std::size_t(d)];
					if (op.kind == K_SIGNAL_MOVE_ASSIGN)
					{
						move(s, d);
						libCall(F_NONE, 0, [&] { *dst = std::move(*src); });
					}
					else
					{
						Signal* old = dst;
						destroy(old);
						move(s, d);
						signals[std::size_t(d)] = make<Signal>(std::move(*src));
					}
					SIM_COUNT("reach:signal-moved");
					break;
				}
				case K_SIGNAL_COPY:
				{
					int d = op.b % int(signals.size());
					if (op.c % 2) // copy assignment carries nothing over and drops nothing
					{
						Signal *src = signals[std::size_t(s)], *dst = signals[std::size_t(d)];
						libCall(F_NONE, 0, [&] { *dst = static_cast<const Signal&>(*src); });
					}
					else
					{
						if (d == s || emitting(d)) break;
						detachAll(d);
						Signal* old = signals[std::size_t(d)];
						destroy(old);
						signals[std::size_t(d)] = make<Signal>(static_cast<const Signal&>(*signals[std::size_t(s)]));
					}
					break;
				}
				case K_SIGNAL_DESTROY:
				{
					if (emitting(s)) break;
					detachAll(s);
					Signal* old = signals[std::size_t(s)];
					destroy(old);
					signals[std::size_t(s)] = make<Signal>();
					SIM_COUNT("reach:signal-destroyed");
					break;
				}
			}
		}
		void move(int s, int d)
		{
			for (int cb : attached[std::size_t(s)]) cbs[std::size_t(cb)].signal = d;
			attached[std::size_t(d)] = std::move(attached[std::size_t(s)]);
			attached[std::size_t(s)].clear();
		}

		void check()
		{
			u64 hash = 11 + frames.size();
			for (auto& f : frames) hash = hash * 31 + u64(f.signal);
			for (auto& list : handles)
				for (HandleSlot& h : list)
				{
					bool expected = h.cb >= 0 && cbs[std::size_t(h.cb)].attached;
					if (wanted("S02"))
					{
						bool is = false;
						const Connection* c = h.c;
						libCall(F_NONE, 0, [&] { is = c->IsConnected(); });
						CHECK("S02", "connection-state", is == expected, "a connection of callback %d reports %s, its callback is %s", h.cb, is ? "connected" : "disconnected", expected ? "attached" : "detached");
					}
					hash = hash * 1000003 + u64(expected ? cbs[std::size_t(h.cb)].signal + 2 : h.cb >= 0);
				}
			for (auto& list : guards)
				for (GuardSlot& g : list)
				{
					bool expected = g.cb >= 0 && cbs[std::size_t(g.cb)].attached;
					if (wanted("S02"))
					{
						bool is = false;
						const Guard* c = g.g;
						libCall(F_NONE, 0, [&] { is = c->IsConnected(); });
						CHECK("S02", "guard-state", is == expected, "a guard of callback %d reports %s, its callback is %s", g.cb, is ? "connected" : "disconnected", expected ? "attached" : "detached");
					}
					hash = hash * 1000003 + u64(expected ? cbs[std::size_t(g.cb)].signal + 2 : g.cb >= 0);
				}
			for (auto& l : attached) hash = hash * 31 + l.size();
			noteState(hash);
			if (!releasing)
				for (std::size_t i = 0; i < cbs.size(); ++i)
				{
					Cb& c = cbs[i];
					if (!c.hasToken) continue;
					if (c.attached)
						CHECK("S03", "captured-state-lost", c.tokens >= 1, "the state captured by callback %zu was destroyed while it is attached", i);
					else if (!c.running)
						CHECK("S03", "captured-state-kept", c.tokens == 0, "callback %zu is detached and not running, but %d copies of its captured state are alive", i, c.tokens);
				}
		}

		void run()
		{
			int n = plan.cfg[0], clients = plan.cfg[1];
			for (int i = 0; i < n; ++i) { signals.push_back(make<Signal>()); attached.emplace_back(); }
			handles.resize(std::size_t(clients));
			guards.resize(std::size_t(clients));
			for (auto& l : handles) { l.resize(Handles); for (HandleSlot& h : l) h.c = make<Connection>(); }
			for (auto& l : guards) { l.resize(Guards); for (GuardSlot& g : l) g.g = make<Guard>(); }
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op, -1);
				check();
			}
			g_opIndex = idx;
			// Once faults stop: every emission reaches everybody
			quiet = true;
			for (int i = 0; i < n; ++i)
			{
				emit(i, Op{}, true);
				emit(i, Op{}, true);
			}
			check();
			// Whatever is destroyed first, the rest stays safe to use
			if (plan.cfg[2] % 2)
			{
				for (int i = 0; i < n; ++i) { detachAll(i); Signal* s = signals[std::size_t(i)]; destroy(s); }
				check();
			}
			for (auto& l : handles)
				for (HandleSlot& h : l)
				{
					Connection* c = h.c;
					if (plan.cfg[2] % 3 == 0) { detach(h.cb); libCall(F_NONE, 0, [&] { c->Disconnect(); }); }
				}
			check();
			hooksOff = true;
			for (auto& l : guards)
				for (GuardSlot& g : l) { detach(g.cb); destroy(g.g); }
			for (auto& l : handles)
				for (HandleSlot& h : l) destroy(h.c);
			if (plan.cfg[2] % 2 == 0)
				for (int i = 0; i < n; ++i) { detachAll(i); Signal* s = signals[std::size_t(i)]; destroy(s); }
			for (std::size_t i = 0; i < cbs.size(); ++i)
				CHECK("S03", "captured-state-leak", cbs[i].tokens == 0, "the state captured by callback %zu outlived its signal", i);
			checkNoLeftovers("S03");
		}
	};

	struct SignalComponent : Component
	{
		SignalComponent() { name = "signal"; g_lifetimeProp = "S03"; }
		int variants() const override { return 4; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { ValueArg::text, PayloadArg::text, RefArg::text, NoArgs::text };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "S03", "S01", "S02" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }

		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 3), clients = r.between(1, 3);
			p.cfg = { n, clients, r.range(6) };
			Scheduler sched(r, clients);
			FaultMix faults(r, true, true);
			std::vector<int> w(K_COUNT);
			for (int k = K_CONNECT_MOVE; k <= K_GUARD_CONNECT; ++k) w[std::size_t(k)] = r.range(4);
			w[K_CONNECT_MOVE] += 2;
			w[K_EMIT] = r.between(2, 10);
			w[K_DISCONNECT] = r.range(5); w[K_GUARD_DISCONNECT] = r.range(3); w[K_CLEAR] = r.range(2);
			for (int k = K_HANDLE_COPY; k <= K_GUARD_CONNECTION; ++k) w[std::size_t(k)] = r.range(3);
			bool moves = g_prop == "S02" ? r.chance(3, 4) : r.chance(1, 4);
			if (moves) { w[K_SIGNAL_MOVE_CONSTRUCT] = r.range(3); w[K_SIGNAL_MOVE_ASSIGN] = r.range(3); w[K_SIGNAL_COPY] = r.range(2); w[K_SIGNAL_DESTROY] = r.range(2); }
			std::vector<int> wn = w; // inside callbacks
			wn[K_EMIT] = r.range(4); wn[K_DISCONNECT_SELF] = r.range(6); wn[K_DISCONNECT] = r.range(8); wn[K_CLEAR] = r.range(3); wn[K_CONNECT_MOVE] = r.range(5);
			auto make = [&](const std::vector<int>& weights)
			{
				Op op;
				op.client = sched.next(r);
				op.kind = r.pick(weights);
				op.a = r.range(6); op.b = r.range(12); op.c = r.range(63);
				if (op.kind <= K_EMIT) faults.apply(r, op);
				return op;
			};
			p.lists.emplace_back();
			int len = r.chance(1, 6) ? r.between(40, 120) : r.between(4, 40);
			for (int i = 0; i < len; ++i) p.lists[0].push_back(make(w));
			if (r.chance(1, 120)) // a crowd: more receivers than fit a byte
			{
				Op crowd;
				crowd.kind = K_CONNECT_MOVE;
				crowd.a = r.range(6);
				std::vector<Op>& list = p.lists[0];
				std::size_t at = std::size_t(r.range(int(list.size())));
				int count = r.between(250, 270);
				std::vector<Op> ops;
				for (int i = 0; i < count; ++i) { crowd.b = i; crowd.c = r.chance(1, 20) ? r.range(63) : 0; ops.push_back(crowd); }
				list.insert(list.begin() + long(at), ops.begin(), ops.end());
				Op emitOp;
				emitOp.kind = K_EMIT;
				emitOp.a = crowd.a;
				list.push_back(emitOp);
			}
			if (r.chance(1, 20000)) // more receivers than fit 16 bits; few operations, as each of them is slow
			{
				std::vector<Op>& list = p.lists[0];
				if (list.size() > 6) list.resize(6);
				Op crowd;
				crowd.kind = K_CROWD;
				crowd.a = r.range(6); crowd.c = r.between(65530, 66000);
				crowd.client = list[0].client;
				list.insert(list.begin(), crowd);
				for (int i = 0; i < 3; ++i)
				{
					Op op;
					op.client = crowd.client;
					op.kind = r.chance(1, 2) ? K_DISCONNECT : K_EMIT; op.a = crowd.a; op.b = r.range(12);
					list.push_back(op);
				}
			}
			int scripts = r.range(5);
			for (int s = 0; s < scripts; ++s)
			{
				p.lists.emplace_back();
				int m = r.between(1, 4);
				for (int i = 0; i < m; ++i) p.lists.back().push_back(make(wn));
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<ValueArg>(plan, *this).run(); break;
				case 1: World<PayloadArg>(plan, *this).run(); break;
				case 2: World<RefArg>(plan, *this).run(); break;
				case 3: World<NoArgs>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new SignalComponent; }
