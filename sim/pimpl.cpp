// Simulated owners of hidden objects. Real code: PrivateImpl (on the heap and in place), MovablePtr, MemoryHelper.
#include "sim.hpp"
#include <NazaraUtils/PrivateImpl.hpp>
#include <algorithm>
#include <optional>

using namespace sim;

namespace
{
	enum Kind { K_CREATE, K_CREATE_DEFAULT, K_CREATE_PTR, K_CREATE_NULL, K_DESTROY, K_COPY, K_MOVE, K_COPY_ASSIGN, K_MOVE_ASSIGN, K_SELF_COPY, K_SELF_MOVE,
		K_RESET, K_EMPLACE, K_WRITE, K_READ, K_SWAP, K_PUSH_COPY, K_PUSH_MOVE, K_ERASE, K_ROTATE, K_CLEAR, K_COUNT };
	const char* const names[] = { "Create", "CreateDefault", "CreateFromPointer", "CreateNull", "Destroy", "CopyConstruct", "MoveConstruct", "CopyAssign", "MoveAssign", "SelfCopyAssign", "SelfMoveAssign",
		"Reset", "Emplace", "Write", "Read", "Swap", "ListPushCopy", "ListPushMove", "ListErase", "ListRotate", "ListClear" };

	// Hidden objects
	struct Simple : Elem<NothrowMove>
	{
		Received gift;
		using Elem::Elem;
		Simple(i64 v, Received g) : Elem(v), gift(g) {}
		Simple(const Simple&) = default;
		Simple(Simple&&) = default;
		Simple& operator=(const Simple&) = default;
		Simple& operator=(Simple&&) = default;
	};
	struct Fixed // cannot be assigned
	{
		Elem<NothrowMove> e;
		Fixed() : e(0) {}
		explicit Fixed(i64 v) : e(v) {}
		Fixed(i64 v, int add) : e(v, add) {}
		Fixed(const Fixed&) = default;
		Fixed(Fixed&&) = default;
		Fixed& operator=(const Fixed&) = delete;
		Fixed& operator=(Fixed&&) = delete;
	};
	struct Rich // owns memory, and has members before and after it
	{
		Elem<NothrowMove> e;
		std::vector<i64> data;
		Elem<NothrowMove> last;
		Rich() : e(0), data(3, 0), last(0) {}
		explicit Rich(i64 v) : e(v), data(3, v), last(v) {}
		Rich(i64 v, int add) : e(v, add), data(3, v + add), last(v, add) {}
	};
	struct alignas(64) Wide // over-aligned
	{
		Elem<NothrowMove> e;
		char pad[40];
		Wide() : e(0) { fill(0); }
		explicit Wide(i64 v) : e(v) { fill(v); }
		Wide(i64 v, int add) : e(v, add) { fill(v + add); }
		void fill(i64 v) { std::memset(pad, int(v & 0x7F), sizeof(pad)); }
	};

	i64 get(const Simple& s) { return valueOf(s); }
	i64 get(const Fixed& s) { return valueOf(s.e); }
	i64 get(const Rich& s)
	{
		i64 v = valueOf(s.e);
		i64 l = valueOf(s.last);
		if (v != MovedFrom && l != v) return -1000000 - l;
		if (v != MovedFrom) for (i64 d : s.data) if (d != v) return -2000000 - d;
		if (v != MovedFrom && s.data.size() != 3) return -3000000;
		return v;
	}
	i64 get(const Wide& s)
	{
		i64 v = valueOf(s.e);
		if (v != MovedFrom) for (char c : s.pad) if (c != char(v & 0x7F)) return -4000000;
		return v;
	}
	void put(Elem<NothrowMove>& s, i64 v) { ledgerUse(&s, "written"); s.val = v; }
	void put(Fixed& s, i64 v) { put(s.e, v); }
	void put(Rich& s, i64 v) { put(s.e, v); put(s.last, v); s.data.assign(3, v); }
	void put(Wide& s, i64 v) { put(s.e, v); s.fill(v); }
	template<typename T> constexpr std::size_t trackedPerObject = std::is_same_v<T, Rich> ? 2 : 1;
	template<typename T> constexpr bool tornAssign = std::is_same_v<T, Rich>; // its own failed assignment may leave it half-assigned

	template<typename T, bool Dynamic, std::size_t Size = sizeof(T), std::size_t Align = alignof(std::max_align_t)>
	struct World
	{
		using Holder = std::conditional_t<Dynamic, Nz::PrivateImpl<T>, Nz::PrivateImpl<T, Dynamic ? 1 : Size, Align>>;
		using Content = std::optional<i64>; // nothing: the holder is empty
		struct Slot { Holder* h = nullptr; Content model; };
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		std::vector<Holder> list;
		std::vector<Content> listModel;
		i64 nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		static bool has(const Holder& h)
		{
			if constexpr (Dynamic) return h.HasValue();
			else return h.Get() != nullptr;
		}
		static Content content(const Holder& h)
		{
			if (!has(h)) return {};
			return get(*h.Get());
		}
		void readAll(Holder& h, const Content& m, const char* what)
		{
			const Holder& c = h;
			bool filled = has(h);
			CHECK("P01", "has-value", filled == m.has_value(), "%s: the holder %s", what, filled ? "has an object although it should be empty" : "lost its object");
			if (!filled || !m) return;
			T* p = h.Get();
			const T* cp = c.Get();
			T* conv = h;
			const T* cconv = c;
			CHECK("P01", "accessors", cp == p && conv == p && cconv == p && &*h == p && &*c == p && h.operator->() == p && c.operator->() == p, "%s: the accessors give different objects", what);
			if constexpr (Dynamic)
				CHECK("P01", "has-value", bool(h) && h.HasValue() && c.HasValue(), "%s: a holder with an object claims to be empty", what);
			else
			{
				const char* at = reinterpret_cast<const char*>(p);
				const char* base = reinterpret_cast<const char*>(&h);
				CHECK("P01", "not-inside", at >= base && at + sizeof(T) <= base + sizeof(Holder), "%s: the object is not inside of its holder", what);
				CHECK("P01", "misaligned", reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "%s: the object is misaligned", what);
			}
			i64 v = get(*p);
			CHECK("P01", "content", v == *m, "%s: the object is %lld instead of %lld", what, (long long)v, (long long)*m);
		}
		void check(Slot& s, const char* what)
		{
			if (!s.h) return;
			readAll(*s.h, s.model, what);
			s.model = content(*s.h);
		}
		void* memory()
		{
			return ::operator new(sizeof(Holder), std::align_val_t(alignof(Holder) > 64 ? alignof(Holder) : 64));
		}
		void freeMemory(void* p)
		{
			::operator delete(p, std::align_val_t(alignof(Holder) > 64 ? alignof(Holder) : 64));
		}
		template<typename F> Outcome construct(Slot& s, const Op& op, F&& f)
		{
			destroy(s);
			void* mem = memory();
			std::memset(mem, 0xA5, sizeof(Holder));
			Outcome out = libCall(op, [&] { f(mem); });
			if (out == Outcome::Ok) s.h = static_cast<Holder*>(mem);
			else { SIM_COUNT("reach:failed-construction"); freeMemory(mem); }
			s.model.reset();
			return out;
		}
		void destroy(Slot& s)
		{
			if (!s.h) return;
			Holder* h = s.h;
			s.h = nullptr;
			u64 d0 = g_ledger.destroyed;
			libCall(F_NONE, 0, [&] { h->~Holder(); });
			CHECK("P01", "destroyed", g_ledger.destroyed - d0 == (s.model ? trackedPerObject<T> : 0), "destroying a holder %s destroyed %llu object(s)", s.model ? "with an object" : "without object", (unsigned long long)(g_ledger.destroyed - d0));
			s.model.reset();
			freeMemory(h);
		}
		// what the constructor of the object was given
		void received(Slot& s, int given, i64 v, const char* what)
		{
			if constexpr (std::is_same_v<T, Simple>)
			{
				if (!has(*s.h)) return; // reported by whoever looks for the content
				const Received& got = s.h->Get()->gift;
				CHECK("P01", "argument", got.is(given ? Received::AsLvalue : Received::AsRvalue, v), "%s was given %s, the object received %s", what, given ? "an lvalue" : "an rvalue", got.text());
			}
		}
		// The source of a move: empty, moved from, or holding what the target held
		void movedFrom(Holder& src, Content& srcModel, const Content& given, const Content& targetHad, const char* what)
		{
			Content now = content(src);
			if (!Dynamic && given && *given != MovedFrom && !(targetHad && *targetHad == *given))
				CHECK("P01", "move-kept", now != given, "%s left the content in the source too", what);
			if (Dynamic && now) CHECK("P01", "move-kept", now == targetHad, "%s left an object in the source that the target did not have", what);
			srcModel = now;
		}
		void afterFailure(Slot& s, const Content& before, const Content& wanted, const char* what)
		{
			SIM_COUNT("reach:failed-assignment");
			// the holder must still be usable: it holds what it held, what it should hold, or nothing
			bool filled = has(*s.h);
			if (!filled) { CHECK("P01", "lost-content", Dynamic, "%s failed and left no object", what); s.model.reset(); return; }
			i64 v = get(*s.h->Get());
			if (!tornAssign<T>)
				CHECK("P01", "content", (before && v == *before) || (wanted && v == *wanted), "after %s failed the object is %lld", what, (long long)v);
			else if (v < MovedFrom) // made whole again by its owner
			{
				put(*s.h->Get(), nextVal);
				v = nextVal++;
			}
			s.model = v;
		}

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			Op noFault = op; noFault.fk = F_NONE;
			switch (op.kind)
			{
				case K_CREATE:
				{
					i64 v = nextVal++;
					int add = op.c % 3;
					Parcel parcel{ v };
					int given = std::is_same_v<T, Simple> ? op.b % 3 : 2;
					Outcome out;
					if constexpr (std::is_same_v<T, Simple>)
					{
						if (given == 0) out = construct(s, op, [&](void* at) { new (at) Holder(v, std::move(parcel)); });
						if (given == 1) out = construct(s, op, [&](void* at) { new (at) Holder(v, parcel); });
						if (given < 2) { add = 0; if (out == Outcome::Ok) received(s, given, v, "construction"); }
					}
					if (given == 2)
						out = add ? construct(s, op, [&](void* at) { new (at) Holder(v, add); }) : construct(s, op, [&](void* at) { new (at) Holder(v); });
					if (add) nextVal += 3;
					if (out == Outcome::Ok) s.model = v + add;
					check(s, "construction");
					break;
				}
				case K_CREATE_DEFAULT:
					if (construct(s, op, [&](void* at) { new (at) Holder(); }) == Outcome::Ok) s.model = 0;
					check(s, "default construction");
					break;
				case K_CREATE_PTR:
					if constexpr (Dynamic)
					{
						i64 v = nextVal++;
						T* obj = nullptr;
						libCall(F_NONE, 0, [&] { obj = new T(v); });
						construct(s, noFault, [&](void* at) { new (at) Holder(obj); });
						s.model = v;
						CHECK("P01", "pointer", s.h->Get() == obj, "a holder made from a pointer holds another object");
						check(s, "construction from a pointer");
					}
					break;
				case K_CREATE_NULL:
					if constexpr (Dynamic)
					{
						construct(s, noFault, [&](void* at) { new (at) Holder(nullptr); });
						check(s, "construction from null");
					}
					break;
				case K_DESTROY: destroy(s); break;
				case K_COPY:
				{
					if (&s == &d || !s.h) break;
					if (!s.model) SIM_COUNT("reach:copy-of-empty");
					const Holder& src = *s.h;
					if (construct(d, op, [&](void* at) { new (at) Holder(src); }) == Outcome::Ok)
					{
						d.model = s.model;
						if (d.model && has(*d.h)) CHECK("P01", "shared", d.h->Get() != s.h->Get(), "a copy shares the object of its source");
					}
					check(d, "copy construction");
					check(s, "being copied");
					break;
				}
				case K_MOVE:
				{
					if (&s == &d || !s.h) break;
					Content m = s.model;
					construct(d, noFault, [&](void* at) { new (at) Holder(std::move(*s.h)); });
					d.model = m;
					check(d, "move construction");
					movedFrom(*s.h, s.model, m, {}, "move construction");
					break;
				}
				case K_COPY_ASSIGN:
				{
					if (&s == &d || !s.h || !d.h) break;
					if (!s.model) SIM_COUNT("reach:assign-from-empty");
					Content before = d.model;
					const Holder& src = *s.h;
					Holder* result = nullptr;
					Outcome out = libCall(op, [&] { result = &(*d.h = src); });
					if (out == Outcome::Ok) { CHECK("P01", "result", result == d.h, "assignment returns another holder"); d.model = s.model; check(d, "copy assignment"); }
					else afterFailure(d, before, s.model, "a copy assignment");
					if (has(*d.h) && has(*s.h)) CHECK("P01", "shared", d.h->Get() != s.h->Get(), "a copy shares the object of its source");
					check(s, "being copied");
					break;
				}
				case K_MOVE_ASSIGN:
				{
					if (&s == &d || !s.h || !d.h) break;
					Content m = s.model, had = d.model;
					libCall(noFault, [&] { *d.h = std::move(*s.h); });
					d.model = m;
					check(d, "move assignment");
					if (has(*d.h) && has(*s.h)) CHECK("P01", "shared", d.h->Get() != s.h->Get(), "two holders share an object after a move");
					movedFrom(*s.h, s.model, m, had, "move assignment");
					break;
				}
				case K_SELF_COPY:
				{
					if (!s.h) break;
					Content before = s.model;
					const Holder& alias = *s.h;
					if (libCall(op, [&] { *s.h = alias; }) == Outcome::Ok) check(s, "self-assignment");
					else afterFailure(s, before, before, "a self-assignment");
					break;
				}
				case K_SELF_MOVE:
				{
					if (!s.h) break;
					Holder& alias = *s.h;
					libCall(noFault, [&] { *s.h = std::move(alias); });
					check(s, "self-move-assignment");
					break;
				}
				case K_RESET:
					if constexpr (Dynamic)
					{
						if (!s.h) break;
						u64 d0 = g_ledger.destroyed;
						libCall(noFault, [&] { s.h->Reset(); });
						CHECK("P01", "destroyed", g_ledger.destroyed - d0 == (s.model ? trackedPerObject<T> : 0), "Reset destroyed %llu object(s)", (unsigned long long)(g_ledger.destroyed - d0));
						s.model.reset();
						check(s, "Reset");
					}
					break;
				case K_EMPLACE:
					if constexpr (Dynamic)
					{
						if (!s.h || s.model) break;
						i64 v = nextVal++;
						T* made = nullptr;
						Parcel parcel{ v };
						int given = std::is_same_v<T, Simple> ? op.b % 3 : 2;
						Outcome out = libCall(op, [&]
						{
							if constexpr (std::is_same_v<T, Simple>)
							{
								if (given == 0) made = &s.h->Emplace(v, std::move(parcel));
								if (given == 1) made = &s.h->Emplace(v, parcel);
							}
							if (given == 2) made = &s.h->Emplace(v);
						});
						if (out == Outcome::Ok && given < 2) received(s, given, v, "Emplace");
						if (out == Outcome::Ok) { s.model = v; CHECK("P01", "result", made == s.h->Get(), "Emplace returns another object"); }
						else SIM_COUNT("reach:failed-emplace");
						check(s, "Emplace");
					}
					break;
				case K_WRITE:
					if (!s.h || !s.model) break;
					put(op.c % 2 ? **s.h : *s.h->operator->(), nextVal);
					s.model = nextVal++;
					break;
				case K_READ: check(s, "reading"); break;
				case K_SWAP:
				{
					if (&s == &d || !s.h || !d.h) break;
					libCall(noFault, [&] { std::swap(*s.h, *d.h); });
					std::swap(s.model, d.model);
					check(s, "swap"); check(d, "swap");
					break;
				}
				case K_PUSH_COPY:
				{
					if (!s.h || list.size() > 12) break;
					const Holder& src = *s.h;
					if (libCall(op, [&] { list.push_back(src); }) == Outcome::Ok) listModel.push_back(s.model);
					checkList("growing a list of holders");
					check(s, "being copied");
					break;
				}
				case K_PUSH_MOVE:
				{
					if (!s.h || list.size() > 12) break;
					Content m = s.model;
					if (libCall(F_NONE, 0, [&] { list.push_back(std::move(*s.h)); }) == Outcome::Ok)
					{
						listModel.push_back(m);
						movedFrom(*s.h, s.model, m, {}, "moving into a list");
					}
					checkList("growing a list of holders");
					break;
				}
				case K_ERASE:
				{
					if (list.empty()) break;
					auto i = std::ptrdiff_t(std::size_t(op.c) % list.size());
					libCall(noFault, [&] { list.erase(list.begin() + i); });
					listModel.erase(listModel.begin() + i);
					checkList("erasing from a list of holders");
					break;
				}
				case K_ROTATE:
				{
					if (list.empty()) break;
					auto i = std::ptrdiff_t(std::size_t(op.c) % list.size());
					libCall(noFault, [&] { std::rotate(list.begin(), list.begin() + i, list.end()); });
					std::rotate(listModel.begin(), listModel.begin() + i, listModel.end());
					checkList("rotating a list of holders");
					break;
				}
				case K_CLEAR:
					libCall(noFault, [&] { list.clear(); });
					listModel.clear();
					break;
			}
		}
		void checkList(const char* what)
		{
			CHECK("P01", "list", list.size() == listModel.size(), "%s: %zu holders instead of %zu", what, list.size(), listModel.size());
			for (std::size_t i = 0; i < list.size(); ++i)
			{
				readAll(list[i], listModel[i], what);
				listModel[i] = content(list[i]);
			}
		}
		void checkAll()
		{
			std::size_t objects = 0;
			std::vector<const T*> seen;
			auto visit = [&](const Holder& h, const Content& m)
			{
				Content now = content(h);
				CHECK("P01", "changed", now == m, "a holder that was not used holds %lld instead of %lld", (long long)now.value_or(-9), (long long)m.value_or(-9));
				if (now) { objects++; seen.push_back(h.Get()); }
			};
			for (Slot& s : slots) if (s.h) visit(*s.h, s.model);
			for (std::size_t i = 0; i < list.size(); ++i) visit(list[i], listModel[i]);
			CHECK("P01", "object-count", g_ledger.live.size() == objects * trackedPerObject<T>, "%zu objects are alive, the holders have %zu", g_ledger.live.size() / trackedPerObject<T>, objects);
			std::sort(seen.begin(), seen.end());
			CHECK("P01", "shared", std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "two holders share an object");
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				checkAll();
				u64 h = 7;
				for (Slot& s : slots) h = h * 5 + (s.h ? (s.model ? (*s.model == MovedFrom ? 3 : 2) : 1) : 0);
				for (Content& c : listModel) h = h * 5 + (c ? (*c == MovedFrom ? 3 : 2) : 1);
				noteState(h);
			}
			g_opIndex = idx;
			for (Slot& s : slots) destroy(s);
			libCall(F_NONE, 0, [&] { list.clear(); list.shrink_to_fit(); });
			checkNoLeftovers("P01");
		}
	};

	struct PimplComponent : Component
	{
		PimplComponent() { name = "pimpl"; g_lifetimeProp = "P01"; }
		int variants() const override { return 7; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "PrivateImpl<assignable>", "PrivateImpl<not assignable>", "PrivateImpl<owns memory>", "PrivateImpl<assignable, in place>",
				"PrivateImpl<not assignable, in place>", "PrivateImpl<owns memory, in a larger place>", "PrivateImpl<over-aligned, in place>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "P01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int variant) override
		{
			Plan p;
			int n = r.between(1, 4);
			p.cfg.push_back(n);
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_CREATE] += 2;
			if (variant >= 3) w[K_CREATE_PTR] = w[K_CREATE_NULL] = w[K_RESET] = w[K_EMPLACE] = 0;
			w[K_CLEAR] = std::min(w[K_CLEAR], 1);
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, true, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(n); op.b = r.range(n); op.c = r.range(16);
				switch (op.kind)
				{
					case K_CREATE: case K_CREATE_DEFAULT: case K_COPY: case K_COPY_ASSIGN: case K_SELF_COPY: case K_EMPLACE: case K_PUSH_COPY: faults.apply(r, op); break;
					default: break;
				}
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Simple, true>(plan, *this).run(); break;
				case 1: World<Fixed, true>(plan, *this).run(); break;
				case 2: World<Rich, true>(plan, *this).run(); break;
				case 3: World<Simple, false>(plan, *this).run(); break;
				case 4: World<Fixed, false>(plan, *this).run(); break;
				case 5: World<Rich, false, sizeof(Rich) + 24>(plan, *this).run(); break;
				case 6: World<Wide, false, sizeof(Wide), 64>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new PimplComponent; }
