// StackArray. Real code: StackArray, MovablePtr, MemoryHelper, the NazaraStackArray/NazaraStackVector macros.
#include "sim.hpp"
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>

using namespace sim;

namespace
{
	enum Kind { K_CREATE, K_CREATE_NOINIT, K_DEFAULT, K_DESTROY, K_WRITE, K_FILL, K_FILL_ALIAS, K_MOVE_CONSTRUCT, K_MOVE_ASSIGN, K_SWAP, K_READ, K_FRAME, K_COUNT };
	const char* const names[] = { "Create", "CreateNoInit", "DefaultConstruct", "Destroy", "Write", "Fill", "FillOwnElement", "MoveConstruct", "MoveAssign", "Swap", "Read", "Frame" };

	template<typename T> i64 get(const T& v) { if constexpr (std::is_arithmetic_v<T>) return i64(v); else return valueOf(v); }

	template<typename T>
	struct World
	{
		using Array = Nz::StackArray<T>;
		static constexpr bool Tracked = !std::is_arithmetic_v<T>;
		struct Slot { Array* array = nullptr; std::vector<i64> model; };
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		std::vector<void*> buffers;
		std::size_t frameElements = 0; // alive in the simulated frames on the stack
		i64 nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		T* storage(std::size_t n)
		{
			void* p = ::operator new(n ? n * sizeof(T) : 1, std::align_val_t(64));
			buffers.push_back(p);
			return static_cast<T*>(p);
		}
		template<typename F> Outcome construct(Slot& s, const Op& op, F&& f)
		{
			destroy(s);
			void* mem = ::operator new(sizeof(Array));
			Outcome out = libCall(op, [&] { f(mem); });
			if (out == Outcome::Ok) s.array = static_cast<Array*>(mem);
			else { SIM_COUNT("reach:failed-construction"); ::operator delete(mem); }
			s.model.clear();
			return out;
		}
		void destroy(Slot& s)
		{
			if (!s.array) return;
			Array* a = s.array;
			s.array = nullptr;
			libCall(F_NONE, 0, [&] { a->~Array(); });
			::operator delete(static_cast<void*>(a));
			s.model.clear();
		}
		std::vector<i64> observe(Array& a)
		{
			std::vector<i64> out;
			std::size_t n = a.size();
			if (n > 100000) violateNow("K02", "absurd-size", "the size is %zu", n);
			for (std::size_t i = 0; i < n; ++i) out.push_back(get(a[i]));
			return out;
		}
		void compare(Slot& s, const char* what)
		{
			if (!s.array) return;
			std::vector<i64> now = observe(*s.array);
			CHECK("K02", "content", now.size() == s.model.size(), "%s: the size is %zu instead of %zu", what, now.size(), s.model.size());
			for (std::size_t i = 0; i < std::min(now.size(), s.model.size()); ++i)
				CHECK("K02", "content", now[i] == s.model[i], "%s: element %zu is %lld instead of %lld", what, i, (long long)now[i], (long long)s.model[i]);
			s.model = now;
		}
		static void readAll(Array& a, const std::vector<i64>& m)
		{
			const Array& c = a;
			auto check = [&](const char* how, auto first, auto last, bool reverse)
			{
				std::size_t i = 0;
				while (!(first == last))
				{
					if (i >= m.size()) { CHECK("K02", "iteration", false, "%s visits more than %zu elements", how, m.size()); return; }
					i64 expected = reverse ? m[m.size() - 1 - i] : m[i];
					i64 got = get(*first);
					CHECK("K02", "iteration", got == expected, "%s gives %lld instead of %lld at step %zu", how, (long long)got, (long long)expected, i);
					++first; ++i;
				}
				CHECK("K02", "iteration", i == m.size(), "%s visits %zu of %zu elements", how, i, m.size());
			};
			check("begin()", a.begin(), a.end(), false);
			check("const begin()", c.begin(), c.end(), false);
			check("cbegin()", c.cbegin(), c.cend(), false);
			check("rbegin()", a.rbegin(), a.rend(), true);
			check("const rbegin()", c.rbegin(), c.rend(), true);
			check("crbegin()", c.crbegin(), c.crend(), true);
			check("data()", a.data(), a.data() + a.size(), false);
			check("const data()", c.data(), c.data() + c.size(), false);
			CHECK("K02", "size", c.size() == m.size() && c.empty() == m.empty() && c.max_size() == m.size(), "size() is %zu, max_size() is %zu, empty() is %d with %zu elements", c.size(), c.max_size(), int(c.empty()), m.size());
			if (!m.empty())
			{
				CHECK("K02", "front-back", get(a.front()) == m.front() && get(c.front()) == m.front() && get(a.back()) == m.back() && get(c.back()) == m.back(), "front()/back() are wrong");
				for (std::size_t i = 0; i < m.size(); ++i) CHECK("K02", "index", get(c[i]) == m[i], "element %zu is %lld instead of %lld", i, (long long)get(c[i]), (long long)m[i]);
			}
		}
		void build(T* where, std::vector<i64>& m, std::size_t n)
		{
			for (std::size_t i = 0; i < n; ++i)
			{
				new (static_cast<void*>(where + i)) T(T(nextVal));
				m.push_back(nextVal++);
			}
		}
		// frames that start at each possible misalignment, whatever the real stack pointer is
		__attribute__((noinline)) static void shiftedFrame(std::size_t n, int shift, std::uintptr_t (&at)[3])
		{
			volatile char* pad = static_cast<volatile char*>(NAZARA_ALLOCA(std::size_t(16 * shift + 16)));
			pad[0] = 1;
			Nz::StackVector<T> vec = NazaraStackVector(T, n + 1);
			Array raw = NazaraStackArrayNoInit(T, n);
			for (std::size_t i = 0; i < n; ++i) new (static_cast<void*>(raw.data() + i)) T(T(i64(i)));
			vec.emplace_back(i64(0));
			Array array = NazaraStackArray(T, n);
			at[0] = reinterpret_cast<std::uintptr_t>(array.data()); at[1] = reinterpret_cast<std::uintptr_t>(raw.data()); at[2] = reinterpret_cast<std::uintptr_t>(vec.data());
		}
		// A simulated stack frame: arrays made by the macros, left by return or by exception
		void frame(const Op& op, int depth)
		{
			std::size_t n = op.b >= 1000 ? std::size_t(op.b - 1000) : std::size_t(op.b) % 9;
			std::size_t before = g_ledger.live.size();
			bool leaveByThrow = op.c % 3 == 0;
			bool entered = false;
			struct Leave {};
			auto body = [&]
			{
				std::size_t cap = n + 1;
				Array array = NazaraStackArray(T, n);
				Array raw = NazaraStackArrayNoInit(T, n);
				std::vector<i64> m, zero(n, 0);
				{
					HarnessScope hs;
					FaultState saved = g_fault; g_fault = FaultState{};
					entered = true;
					build(raw.data(), m, n);
					CHECK("K02", "overlap", n == 0 || array.data() + n <= raw.data() || raw.data() + n <= array.data(), "two arrays of one frame overlap");
					readAll(array, zero);
					readAll(raw, m);
					Nz::StackVector<T> vec = NazaraStackVector(T, cap);
					for (std::size_t i = 0; i < cap; ++i) vec.emplace_back(i64(i));
					readAll(raw, m);
					readAll(array, zero);
					if (Tracked) CHECK("K02", "frame-count", g_ledger.live.size() == before + 2 * n + cap, "%zu elements are alive in the frame instead of %zu", g_ledger.live.size() - before, 2 * n + cap);
					if (depth < 2 && op.c % 4 == 1) { SIM_COUNT("reach:nested-frame"); frame(op, depth + 1); }
					readAll(raw, m);
					g_fault = saved;
				}
				Array moved = std::move(raw);
				{
					HarnessScope hs;
					readAll(moved, m);
					if (leaveByThrow) { SIM_COUNT("reach:frame-left-by-exception"); throw Leave{}; }
				}
			};
			FaultState outer = g_fault;
			try { (void)libCall(op, body); } catch (const Leave&) {}
			g_fault = outer;
			g_inLib = 0;
			if constexpr (alignof(T) > 16)
				for (int shift = 0; shift * 16 < int(alignof(T)); ++shift)
				{
					std::uintptr_t at[3] = {};
					libCall(F_NONE, 0, [&] { shiftedFrame(n % 5, shift, at); });
					CHECK("K02", "misaligned", at[0] % alignof(T) == 0 && at[1] % alignof(T) == 0 && at[2] % alignof(T) == 0, "arrays on the stack are not aligned to %zu", alignof(T));
				}
			if (Tracked) CHECK("K02", "frame-leftover", g_ledger.live.size() == before, "%zu elements survive the frame that made them", g_ledger.live.size() - before);
			event(entered);
		}

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			std::size_t n = s.model.size();
			switch (op.kind)
			{
				case K_CREATE:
				{
					std::size_t count = op.c >= 1000 ? std::size_t(op.c - 1000) : std::size_t(op.c) % 12;
					T* mem = storage(count);
					u64 c0 = g_ledger.constructed;
					Outcome out = construct(s, op, [&](void* at) { new (at) Array(mem, count); });
					if (out == Outcome::Ok)
					{
						s.model.assign(count, 0);
						if (Tracked) CHECK("K02", "constructed", g_ledger.constructed - c0 == count, "an array of %zu elements constructed %llu", count, (unsigned long long)(g_ledger.constructed - c0));
						if (!Tracked) for (std::size_t i = 0; i < count; ++i) CHECK("K02", "not-initialised", get((*s.array)[i]) == 0, "element %zu of a new array is %lld", i, (long long)get((*s.array)[i]));
					}
					compare(s, "construction");
					break;
				}
				case K_CREATE_NOINIT:
				{
					std::size_t count = op.c >= 1000 ? std::size_t(op.c - 1000) : std::size_t(op.c) % 12;
					T* mem = storage(count);
					u64 c0 = g_ledger.constructed;
					construct(s, Op{}, [&](void* at) { new (at) Array(mem, count, typename Array::NoInitTag{}); });
					CHECK("K02", "no-init-constructed", g_ledger.constructed == c0, "a no-init array constructed elements");
					build(s.array->data(), s.model, count);
					compare(s, "no-init construction");
					break;
				}
				case K_DEFAULT: construct(s, Op{}, [&](void* at) { new (at) Array(); }); compare(s, "default construction"); break;
				case K_DESTROY:
				{
					u64 d0 = g_ledger.destroyed;
					destroy(s);
					if (Tracked) CHECK("K02", "destroyed", g_ledger.destroyed - d0 == n, "destroying an array of %zu elements destroyed %llu", n, (unsigned long long)(g_ledger.destroyed - d0));
					break;
				}
				case K_WRITE:
				{
					if (!n) break;
					std::size_t i = std::size_t(op.b) % n;
					if constexpr (Tracked) { ledgerUse(&(*s.array)[i], "written to"); (*s.array)[i].val = nextVal; } else (*s.array)[i] = T(nextVal);
					s.model[i] = nextVal++;
					compare(s, "writing an element");
					break;
				}
				case K_FILL:
				case K_FILL_ALIAS:
					if constexpr (std::is_copy_assignable_v<T>)
					{
						if (!s.array) break;
						i64 val;
						Outcome out;
						if (op.kind == K_FILL_ALIAS)
						{
							if (!n) break;
							val = s.model[std::size_t(op.b) % n];
							Array& a = *s.array;
							out = libCall(op, [&] { a.fill(a[std::size_t(op.b) % n]); });
						}
						else
						{
							val = nextVal++;
							T arg(val);
							out = libCall(op, [&] { s.array->fill(arg); });
							CHECK("K02", "argument-changed", get(arg) == val, "fill changed its argument");
						}
						if (out == Outcome::Ok) { s.model.assign(n, val); compare(s, "fill"); break; }
						SIM_COUNT("reach:failed-fill");
						std::vector<i64> now = observe(*s.array);
						CHECK("K02", "size", now.size() == n, "a failed fill changed the size from %zu to %zu", n, now.size());
						for (std::size_t i = 0; i < std::min(n, now.size()); ++i) CHECK("K02", "content", now[i] == s.model[i] || now[i] == val, "after a failed fill element %zu is %lld", i, (long long)now[i]);
						s.model = now;
					}
					break;
				case K_MOVE_CONSTRUCT:
				{
					if (&s == &d || !s.array) break;
					std::vector<i64> m = s.model;
					construct(d, Op{}, [&](void* at) { new (at) Array(std::move(*s.array)); });
					d.model = m;
					compare(d, "move construction");
					s.model.clear();
					compare(s, "moving from the array");
					break;
				}
				case K_MOVE_ASSIGN:
				{
					if (!s.array || !d.array) break;
					std::vector<i64> m = s.model, dm = d.model;
					libCall(F_NONE, 0, [&] { Array& alias = *s.array; *d.array = std::move(alias); });
					if (&s == &d) { s.model = observe(*s.array); CHECK("K02", "self-move", s.model == m || s.model.empty(), "self-move-assignment changed the elements"); break; }
					d.model = m;
					compare(d, "move assignment");
					// the source gave its elements away; it may hold those of the target or none
					s.model = observe(*s.array);
					CHECK("K02", "moved-from", s.model.empty() || s.model == dm, "after being moved from an array holds %zu elements it did not hold before", s.model.size());
					break;
				}
				case K_SWAP:
				{
					if (!s.array || !d.array || &s == &d) break;
					libCall(F_NONE, 0, [&] { std::swap(*s.array, *d.array); });
					std::swap(s.model, d.model);
					compare(s, "swap"); compare(d, "swap");
					break;
				}
				case K_READ: if (s.array) readAll(*s.array, s.model); break;
				case K_FRAME: frame(op, 0); break;
			}
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				std::size_t n = 0;
				u64 h = 17;
				for (Slot& s : slots) { n += s.model.size(); h = (h * 1000003 + s.model.size()) * 2 + (s.array ? 1 : 0); for (i64 v : s.model) h = h * 31 + u64(v > 0); }
				if (Tracked) CHECK("K02", "object-count", g_ledger.live.size() == n, "%zu elements are alive, the arrays hold %zu", g_ledger.live.size(), n);
				noteState(h);
			}
			g_opIndex = idx;
			for (Slot& s : slots) { if (s.array) readAll(*s.array, s.model); destroy(s); }
			for (void* b : buffers) ::operator delete(b, std::align_val_t(64));
			checkNoLeftovers("K02");
		}
	};

	struct StackArrayComponent : Component
	{
		StackArrayComponent() { name = "stackarray"; g_lifetimeProp = "K02"; }
		int variants() const override { return 4; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "StackArray<Elem(copy and move throw)>", "StackArray<Elem(move-only, nothrow)>", "StackArray<int>", "StackArray<Elem(alignment 64)>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "K02" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 3);
			p.cfg.push_back(n);
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_CREATE] += 1; w[K_DEFAULT] = std::min(w[K_DEFAULT], 1);
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, false, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			bool large = r.chance(1, 80); // sizes that no longer fit a byte
			bool huge = r.chance(1, 20000); // sizes that no longer fit 16 bits
			if (huge && len > 5) len = 5;
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(n); op.b = r.range(24); op.c = r.range(24);
				if (large && r.chance(1, 2)) { op.b = r.between(1000, 1320); op.c = r.chance(1, 2) ? r.between(1250, 1260) : r.between(1000, 1400); }
				if (huge && op.kind != K_FRAME && r.chance(1, 2)) { op.b = r.between(66530, 66600); op.c = r.between(66530, 66600); }
				if (op.kind != K_FRAME || r.chance(1, 2)) faults.apply(r, op);
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Elem<ThrowingMove>>(plan, *this).run(); break;
				case 1: World<Elem<MoveOnly | NothrowMove>>(plan, *this).run(); break;
				case 2: World<int>(plan, *this).run(); break;
				case 3: World<AlignedElem<64>>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new StackArrayComponent; }
