// Simulated owners built on movable wrappers. Real code: MovablePtr, MovableLiteral, MovableValue.
#include "sim.hpp"
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <algorithm>

using namespace sim;

#ifndef SIM_NO_WRAPPER_ASSIGN
#define LVALUE(x) (x)
#else
#define LVALUE(x) std::as_const(x)
#endif

namespace
{
	enum Kind { K_DEFAULT, K_FROM_LVALUE, K_FROM_CONST, K_FROM_RVALUE, K_DESTROY, K_COPY, K_COPY_CONST, K_MOVE, K_STORE_LVALUE, K_STORE_CONST, K_STORE_RVALUE,
		K_ASSIGN_LVALUE, K_ASSIGN_CONST, K_ASSIGN_MOVE, K_SELF_COPY, K_SELF_MOVE, K_SWAP, K_READ, K_WRITE, K_TAKE, K_ERASE, K_ROTATE, K_COUNT };
	const char* const names[] = { "Default", "FromLvalue", "FromConst", "FromRvalue", "Destroy", "CopyFromLvalue", "CopyFromConst", "MoveConstruct", "StoreLvalue", "StoreConst", "StoreRvalue",
		"AssignLvalueWrapper", "AssignConstWrapper", "MoveAssign", "SelfCopyAssign", "SelfMoveAssign", "Swap", "Read", "Write", "TakeContent", "ListErase", "ListRotate" };

	struct Rich // owns memory
	{
		std::vector<i64> data;
		Rich() : data(2, 0) {}
		explicit Rich(i64 v) : data(2, v) {}
	};
	enum class Mode : unsigned { Off = 3, Last = 1000000000 };
	struct Cell { i64 v; };

	// How to make and read the contents of each wrapper
	struct ElemPolicy
	{
		using T = Elem<NothrowMove>; using W = Nz::MovableValue<T>;
		static constexpr bool CanThrow = true, Alloc = false, Value = true, Literal = false;
		static T make(i64 v) { return T(v); }
		static i64 get(const T& t) { return valueOf(t); }
		static void put(T& t, i64 v) { ledgerUse(&t, "written"); t.val = v; }
		static constexpr i64 Default = 0;
	};
	struct RichPolicy
	{
		using T = Rich; using W = Nz::MovableValue<T>;
		static constexpr bool CanThrow = false, Alloc = true, Value = true, Literal = false;
		static T make(i64 v) { return T(v); }
		static i64 get(const T& t) { return t.data.empty() ? MovedFrom : t.data.size() == 2 && t.data[0] == t.data[1] ? t.data[0] : -999; }
		static void put(T& t, i64 v) { t.data.assign(2, v); }
		static constexpr i64 Default = 0;
	};
	struct IntPolicy
	{
		using T = int; using W = Nz::MovableLiteral<int, -1>;
		static constexpr bool CanThrow = false, Alloc = false, Value = false, Literal = true;
		static T make(i64 v) { return int(v); }
		static i64 get(const T& t) { return t; }
		static void put(T& t, i64 v) { t = int(v); }
		static constexpr i64 Default = -1;
	};
	struct EnumPolicy
	{
		using T = Mode; using W = Nz::MovableLiteral<Mode, Mode::Off>;
		static constexpr bool CanThrow = false, Alloc = false, Value = false, Literal = true;
		static T make(i64 v) { return Mode(v); }
		static i64 get(const T& t) { return i64(t); }
		static void put(T& t, i64 v) { t = Mode(v); }
		static constexpr i64 Default = 3;
	};
	struct PtrPolicy
	{
		using T = Cell*; using W = Nz::MovablePtr<Cell>;
		static constexpr bool CanThrow = false, Alloc = false, Value = false, Literal = false;
		static T make(i64 v) { return reinterpret_cast<Cell*>(std::uintptr_t(v) * 16); } // never dereferenced
		static i64 get(T t) { return i64(reinterpret_cast<std::uintptr_t>(t) / 16); }
		static constexpr i64 Default = 0;
	};

	template<typename P>
	struct WrapperWorld
	{
		using T = typename P::T;
		using W = typename P::W;
		static constexpr bool Ptr = std::is_pointer_v<T>;
		struct Slot { W* w = nullptr; i64 model = 0; };
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		i64 nextVal = 100;

		WrapperWorld(const Plan& p, const Component& c) : plan(p), comp(c) {}

		static i64 content(const W& w) { return P::get(w.Get()); }
		void read(Slot& s, const char* what)
		{
			if (!s.w) return;
			W& w = *s.w;
			const W& c = w;
			i64 v = P::get(c.Get());
			CHECK("W01", "content", v == s.model, "%s: the wrapper holds %lld instead of %lld", what, (long long)v, (long long)s.model);
			if constexpr (Ptr)
			{
				Cell* conv = c;
				CHECK("W01", "accessors", P::get(w.Get()) == v && P::get(conv) == v && P::get(c.operator->()) == v, "%s: the accessors give different pointers", what);
			}
			else
			{
				T& ref = w;
				const T& cref = c;
				T&& rref = std::move(w);
				CHECK("W01", "accessors", &w.Get() == &c.Get() && &ref == &c.Get() && &cref == &ref && &rref == &ref, "%s: the accessors give different objects", what);
				T&& taken = std::move(w).Get();
				CHECK("W01", "accessors", &taken == &ref, "%s: the accessors give different objects", what);
			}
			s.model = v;
		}
		template<typename F> Outcome construct(Slot& s, const Op& op, F&& f)
		{
			destroy(s);
			void* mem = ::operator new(sizeof(W), std::align_val_t(64));
			Outcome out = libCall(op, [&] { f(mem); });
			if (out == Outcome::Ok) s.w = static_cast<W*>(mem);
			else { SIM_COUNT("reach:failed-construction"); ::operator delete(mem, std::align_val_t(64)); }
			return out;
		}
		void destroy(Slot& s)
		{
			if (!s.w) return;
			W* w = s.w;
			s.w = nullptr;
			libCall(F_NONE, 0, [&] { w->~W(); });
			::operator delete(static_cast<void*>(w), std::align_val_t(64));
		}
		void stored(Slot& s, Outcome out, i64 before, i64 wanted, const char* what)
		{
			if (out == Outcome::Ok) { s.model = wanted; read(s, what); return; }
			SIM_COUNT("reach:failed-store");
			i64 v = content(*s.w);
			CHECK("W01", "content", v == before || v == wanted, "%s failed and left %lld", what, (long long)v);
			s.model = v;
		}
		void untouched(const T& source, i64 v, const char* what)
		{
			i64 now = P::get(source);
			CHECK("W01", "source-taken", now == v, "%s changed its source from %lld to %lld", what, (long long)v, (long long)now);
		}
		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			Op noFault = op; noFault.fk = F_NONE;
			switch (op.kind)
			{
				case K_DEFAULT: if (construct(s, op, [&](void* at) { new (at) W(); }) == Outcome::Ok) s.model = P::Default; read(s, "default construction"); break;
				case K_FROM_LVALUE: case K_FROM_CONST: case K_FROM_RVALUE:
				{
					i64 v = nextVal++;
					T source = P::make(v);
					const T& csource = source;
					Outcome out = op.kind == K_FROM_LVALUE ? construct(s, op, [&](void* at) { new (at) W(source); })
						: op.kind == K_FROM_CONST ? construct(s, op, [&](void* at) { new (at) W(csource); })
						: construct(s, noFault, [&](void* at) { new (at) W(std::move(source)); });
					if (out == Outcome::Ok) s.model = v;
					read(s, "construction from a value");
					if (op.kind != K_FROM_RVALUE) untouched(source, v, "construction from an lvalue");
					else if (P::Value) CHECK("W01", "copied", P::get(source) != v, "construction from an expiring value copied it");
					break;
				}
				case K_DESTROY: destroy(s); break;
				case K_COPY: case K_COPY_CONST:
				{
					if (&s == &d || !s.w) break;
					const W& csource = *s.w;
					i64 v = s.model;
					Outcome out = op.kind == K_COPY ? construct(d, op, [&](void* at) { new (at) W(*s.w); }) : construct(d, op, [&](void* at) { new (at) W(csource); });
					if (out == Outcome::Ok) d.model = v;
					read(d, "copy construction");
					untouched(s.w->Get(), v, "copy construction");
					break;
				}
				case K_MOVE:
				{
					if (&s == &d || !s.w) break;
					i64 v = s.model;
					construct(d, noFault, [&](void* at) { new (at) W(std::move(*s.w)); });
					d.model = v;
					read(d, "move construction");
					i64 now = content(*s.w);
					if (P::Value) { if (v != MovedFrom) CHECK("W01", "not-transferred", now != v, "move construction left the content in the source too"); }
					else CHECK("W01", "not-reset", now == P::Default, "after move construction the source holds %lld instead of its default value", (long long)now);
					s.model = now;
					break;
				}
				case K_STORE_LVALUE: case K_STORE_CONST: case K_STORE_RVALUE:
				{
					if (!s.w) break;
					i64 v = nextVal++, before = s.model;
					T source = P::make(v);
					const T& csource = source;
					W* result = nullptr;
					Outcome out = op.kind == K_STORE_LVALUE ? libCall(op, [&] { result = &(*s.w = source); })
						: op.kind == K_STORE_CONST ? libCall(op, [&] { result = &(*s.w = csource); })
						: libCall(noFault, [&] { result = &(*s.w = std::move(source)); });
					if (out == Outcome::Ok) CHECK("W01", "result", result == s.w, "an assignment returns another wrapper");
					stored(s, out, before, v, "storing a value");
					if (op.kind != K_STORE_RVALUE) untouched(source, v, "storing an lvalue");
					else if (P::Value) CHECK("W01", "copied", P::get(source) != v, "storing an expiring value copied it");
					break;
				}
				case K_ASSIGN_LVALUE: case K_ASSIGN_CONST:
				{
					if (&s == &d || !s.w || !d.w) break;
					i64 v = s.model, before = d.model;
					const W& csource = *s.w;
					Outcome out = op.kind == K_ASSIGN_LVALUE ? libCall(op, [&] { *d.w = LVALUE(*s.w); }) : libCall(op, [&] { *d.w = csource; });
					stored(d, out, before, v, "copy assignment");
					untouched(s.w->Get(), v, "copy assignment");
					break;
				}
				case K_ASSIGN_MOVE:
				{
					if (&s == &d || !s.w || !d.w) break;
					i64 v = s.model, before = d.model;
					libCall(noFault, [&] { *d.w = std::move(*s.w); });
					d.model = v;
					read(d, "move assignment");
					i64 now = content(*s.w);
					if (P::Value) { if (v != MovedFrom && before != v) CHECK("W01", "not-transferred", now != v, "move assignment left the content in the source too"); }
					else CHECK("W01", "not-transferred", now == P::Default || now == before, "after move assignment the source holds %lld", (long long)now);
					s.model = now;
					break;
				}
				case K_SELF_COPY: // through a const reference, or a plain one
				{
					if (!s.w) break;
					i64 before = s.model;
					W& alias = *s.w;
					const W& calias = *s.w;
					Outcome out = op.c % 2 ? libCall(op, [&] { *s.w = LVALUE(alias); }) : libCall(op, [&] { *s.w = calias; });
					stored(s, out, before, before, "self-assignment");
					break;
				}
				case K_SELF_MOVE:
				{
					if (!s.w) break;
					if constexpr (std::is_same_v<T, Rich>) break; // up to the wrapped type
					W& alias = *s.w;
					libCall(noFault, [&] { *s.w = std::move(alias); });
					read(s, "self-move-assignment");
					break;
				}
				case K_SWAP:
					if (&s == &d || !s.w || !d.w) break;
					libCall(noFault, [&] { std::swap(*s.w, *d.w); });
					std::swap(s.model, d.model);
					read(s, "swap"); read(d, "swap");
					break;
				case K_READ: read(s, "reading"); break;
				case K_WRITE:
					if (!s.w) break;
					if constexpr (!Ptr)
					{
						if (op.c % 2) P::put(s.w->Get(), nextVal);
						else { T& ref = *s.w; P::put(ref, nextVal); }
						s.model = nextVal++;
					}
					break;
				case K_TAKE: // the content is taken out of an expiring wrapper
				{
					if (!s.w) break;
					if constexpr (!Ptr)
					{
						i64 v = s.model;
						if (op.c % 2)
						{
							T taken(std::move(*s.w).Get());
							CHECK("W01", "content", P::get(taken) == v, "%lld was taken out instead of %lld", (long long)P::get(taken), (long long)v);
						}
						else
						{
							T taken(static_cast<T&&>(std::move(*s.w)));
							CHECK("W01", "content", P::get(taken) == v, "%lld was taken out instead of %lld", (long long)P::get(taken), (long long)v);
						}
						s.model = content(*s.w);
						if (P::Value && v != MovedFrom) CHECK("W01", "not-transferred", s.model != v, "taking the content out copied it");
					}
					break;
				}
			}
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				u64 h = 5;
				std::size_t n = 0;
				for (Slot& s : slots)
				{
					if (s.w) { n++; i64 v = content(*s.w); CHECK("W01", "changed", v == s.model, "a wrapper that was not used holds %lld instead of %lld", (long long)v, (long long)s.model); }
					h = h * 7 + (s.w ? (s.model == P::Default ? 1 : s.model == MovedFrom ? 2 : 3) : 0);
				}
				if (std::is_same_v<P, ElemPolicy>) CHECK("W01", "object-count", g_ledger.live.size() == n, "%zu objects are alive in %zu wrappers", g_ledger.live.size(), n);
				noteState(h);
			}
			g_opIndex = idx;
			for (Slot& s : slots) destroy(s);
			checkNoLeftovers("W01");
		}
	};

	// An owner whose members are movable wrappers and whose moves are defaulted
	struct Registry { std::map<int, int> open; int next = 1; u64 closedTwice = 0; };
	Registry* g_registry = nullptr;
	struct Owner
	{
		Nz::MovablePtr<Elem<NothrowMove>> object;
		Nz::MovableLiteral<int, -1> handle;
		Nz::MovableValue<Elem<NothrowMove>> value{ Elem<NothrowMove>(0) };
		Nz::MovableLiteral<Mode, Mode::Off> mode;
		Owner() = default;
		Owner(Elem<NothrowMove>* obj, int h, i64 v) : object(obj), handle(h), value(Elem<NothrowMove>(v)), mode(Mode(v)) {}
		Owner(const Owner&) = delete;
		Owner(Owner&&) = default;
		Owner& operator=(const Owner&) = delete;
		Owner& operator=(Owner&&) = default;
		~Owner()
		{
			delete object.Get();
			if (handle.Get() != -1)
			{
				HarnessScope hs;
				int left = --g_registry->open[handle.Get()];
				CHECK("W01", "closed-twice", left == 0, "a handle was closed twice");
			}
		}
	};
	struct OwnerWorld
	{
		struct Model { bool has = false; i64 object = 0; int handle = -1; i64 value = 0; i64 mode = i64(Mode::Off); };
		const Plan& plan;
		const Component& comp;
		Registry registry;
		std::vector<Owner> owners;
		std::vector<Model> models;
		i64 nextVal = 100;

		OwnerWorld(const Plan& p, const Component& c) : plan(p), comp(c) { g_registry = &registry; }
		void check(const char* what)
		{
			std::size_t objects = 0, handles = 0;
			for (std::size_t i = 0; i < owners.size(); ++i)
			{
				Owner& o = owners[i];
				Model& m = models[i];
				bool has = o.object.Get() != nullptr;
				CHECK("W01", "owner-object", has == m.has, "%s: an owner %s its object", what, has ? "still has" : "lost");
				if (has) { objects++; i64 v = valueOf(*o.object.Get()); CHECK("W01", "owner-object", v == m.object, "%s: an owner has object %lld instead of %lld", what, (long long)v, (long long)m.object); }
				CHECK("W01", "owner-handle", o.handle.Get() == m.handle, "%s: an owner has handle %d instead of %d", what, o.handle.Get(), m.handle);
				if (o.handle.Get() != -1) handles++;
				if (m.value != MovedFrom) CHECK("W01", "owner-value", valueOf(o.value.Get()) == m.value, "%s: an owner has value %lld instead of %lld", what, (long long)valueOf(o.value.Get()), (long long)m.value);
				CHECK("W01", "owner-mode", i64(o.mode.Get()) == m.mode, "%s: an owner has mode %lld instead of %lld", what, (long long)o.mode.Get(), (long long)m.mode);
			}
			CHECK("W01", "object-count", g_ledger.live.size() == objects + owners.size(), "%s: %zu objects are alive, the owners have %zu", what, g_ledger.live.size() - owners.size(), objects);
			std::size_t open = 0;
			for (auto& [h, n] : registry.open) open += std::size_t(n);
			CHECK("W01", "handle-count", open == handles, "%s: %zu handles are open, the owners have %zu", what, open, handles);
		}
		// what a move left in the source
		void source(std::size_t i, const Model& target, bool constructed)
		{
			Owner& o = owners[i];
			Model& m = models[i];
			if (constructed)
				m = Model{ false, 0, -1, MovedFrom, i64(Mode::Off) };
			else
			{
				// nothing or what the target had
				bool has = o.object.Get() != nullptr;
				i64 v = has ? valueOf(*o.object.Get()) : 0;
				CHECK("W01", "owner-object", !has || (target.has && v == target.object), "after a move the source has an object that the target did not have");
				m.has = has; m.object = v;
				CHECK("W01", "owner-handle", o.handle.Get() == -1 || o.handle.Get() == target.handle, "after a move the source has handle %d", o.handle.Get());
				m.handle = o.handle.Get();
				CHECK("W01", "owner-mode", i64(o.mode.Get()) == target.mode || o.mode.Get() == Mode::Off, "after a move the source has mode %lld", (long long)o.mode.Get());
				m.mode = i64(o.mode.Get());
				m.value = valueOf(o.value.Get());
			}
		}
		void step(const Op& op)
		{
			std::size_t n = owners.size();
			std::size_t i = n ? std::size_t(op.a) % n : 0, j = n ? std::size_t(op.b) % n : 0;
			switch (op.kind)
			{
				case K_DEFAULT: case K_FROM_LVALUE: case K_FROM_CONST: case K_FROM_RVALUE:
				{
					if (n >= 6) break;
					if (op.kind == K_DEFAULT) { libCall(F_NONE, 0, [&] { owners.emplace_back(); }); models.push_back({}); }
					else
					{
						i64 v = nextVal++;
						Elem<NothrowMove>* obj = nullptr;
						libCall(F_NONE, 0, [&] { obj = new Elem<NothrowMove>(v); });
						int h = registry.next++;
						registry.open[h] = 1;
						libCall(F_NONE, 0, [&] { owners.emplace_back(obj, h, v); });
						models.push_back({ true, v, h, v, v });
					}
					check("growing the list");
					break;
				}
				case K_DESTROY: if (n) { libCall(F_NONE, 0, [&] { owners.pop_back(); }); models.pop_back(); check("dropping the last owner"); } break;
				case K_MOVE:
				{
					if (!n || n >= 6) break;
					Model m = models[i];
					libCall(F_NONE, 0, [&] { Owner o(std::move(owners[i])); owners.push_back(std::move(o)); });
					models.push_back(m);
					source(i, {}, true);
					check("moving into the list");
					break;
				}
				case K_ASSIGN_MOVE:
				{
					if (i == j || !n) break;
					Model m = models[i], had = models[j];
					libCall(F_NONE, 0, [&] { owners[j] = std::move(owners[i]); });
					models[j] = m;
					source(i, had, false);
					check("move assignment");
					break;
				}
				case K_SELF_MOVE: if (n) { Owner& alias = owners[i]; libCall(F_NONE, 0, [&] { owners[i] = std::move(alias); }); check("self-move-assignment"); } break;
				case K_SWAP: if (i != j) { libCall(F_NONE, 0, [&] { std::swap(owners[i], owners[j]); }); std::swap(models[i], models[j]); check("swap"); } break;
				case K_ERASE: if (n) { libCall(F_NONE, 0, [&] { owners.erase(owners.begin() + std::ptrdiff_t(i)); }); models.erase(models.begin() + std::ptrdiff_t(i)); check("erasing an owner"); } break;
				case K_ROTATE: if (n) { libCall(F_NONE, 0, [&] { std::rotate(owners.begin(), owners.begin() + std::ptrdiff_t(i), owners.end()); }); std::rotate(models.begin(), models.begin() + std::ptrdiff_t(i), models.end()); check("rotating the owners"); } break;
				case K_TAKE: // gives the object away
					if (n && models[i].has)
					{
						Elem<NothrowMove>* obj = owners[i].object;
						libCall(F_NONE, 0, [&] { owners[i].object = nullptr; delete obj; });
						models[i].has = false;
						check("releasing an object");
					}
					break;
				default: break;
			}
		}
		void run()
		{
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				u64 h = 13;
				for (Model& m : models) h = h * 8 + (m.has ? 4 : 0) + (m.handle != -1 ? 2 : 0) + (m.value == MovedFrom);
				noteState(h);
			}
			g_opIndex = idx;
			libCall(F_NONE, 0, [&] { owners.clear(); owners.shrink_to_fit(); });
			models.clear();
			check("dropping all owners");
			g_registry = nullptr;
			checkNoLeftovers("W01");
		}
	};

	struct MovableComponent : Component
	{
		MovableComponent() { name = "movable"; g_lifetimeProp = "W01"; }
		int variants() const override { return 6; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "MovableValue<object>", "MovableValue<owns memory>", "MovableLiteral<int, -1>", "MovableLiteral<enum>", "MovablePtr", "owners of a MovablePtr, MovableLiterals and a MovableValue" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "W01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 4);
			p.cfg.push_back(n);
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_FROM_LVALUE] += 2; w[K_FROM_RVALUE] += 2;
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, true, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(12); op.b = r.range(12); op.c = r.range(16);
				switch (op.kind)
				{
					case K_DEFAULT: case K_FROM_LVALUE: case K_FROM_CONST: case K_COPY: case K_COPY_CONST: case K_STORE_LVALUE: case K_STORE_CONST: case K_ASSIGN_LVALUE: case K_ASSIGN_CONST: case K_SELF_COPY:
						faults.apply(r, op); break;
					default: break;
				}
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: WrapperWorld<ElemPolicy>(plan, *this).run(); break;
				case 1: WrapperWorld<RichPolicy>(plan, *this).run(); break;
				case 2: WrapperWorld<IntPolicy>(plan, *this).run(); break;
				case 3: WrapperWorld<EnumPolicy>(plan, *this).run(); break;
				case 4: WrapperWorld<PtrPolicy>(plan, *this).run(); break;
				case 5: OwnerWorld(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new MovableComponent; }
