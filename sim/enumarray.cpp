// Simulated clients sharing enumeration arrays and walking them. Real code: EnumArray, its key-value iterators.
#include "sim.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <algorithm>

using namespace sim;

namespace
{
	enum Kind { K_CREATE, K_COPY, K_MOVE, K_DESTROY, K_COPY_ASSIGN, K_MOVE_ASSIGN, K_FILL, K_SWAP, K_WRITE, K_READ, K_WALK, K_WALK_CONST, K_WALK_WRITE, K_BIND, K_INC, K_DEC, K_POST_INC, K_POST_DEC,
		K_ADD, K_SUB, K_PLUS, K_MINUS, K_AT, K_CURSOR_WRITE, K_COMPARE, K_COUNT };
	const char* const names[] = { "Create", "CopyConstruct", "MoveConstruct", "Destroy", "CopyAssign", "MoveAssign", "Fill", "Swap", "Write", "Read", "Walk", "WalkConst", "WalkAndWrite", "BindCursor", "Increment", "Decrement", "PostIncrement", "PostDecrement",
		"Add", "Subtract", "Plus", "Minus", "At", "CursorWrite", "Compare" };

	enum class Wide { A, B, C, D, E, F, G, Max = G };
	enum class Small : unsigned char { A, B, C, Count };
	enum class Signed : signed char { Only, Max = Only };
	enum class Full : signed char { First, Last = 127, Max = Last }; // as many enumerators as the type has values
	enum class Bytes : unsigned char { First, Last = 255, Max = Last };
	enum class Big : unsigned long long { A, B, C, D, E, Count };

	template<typename T> i64 get(const T& v) { if constexpr (std::is_arithmetic_v<T>) return i64(v); else return valueOf(v); }

	template<typename E, typename V>
	struct World
	{
		using Array = Nz::EnumArray<E, V>;
		using It = typename Array::kv_iterator;
		using ConstIt = typename Array::kv_const_iterator;
		static constexpr std::size_t N = Nz::EnumValueCount_v<E>;
		static constexpr i64 Stretch = N > 16 ? 11 : 1; // offsets and positions reach everything
		static constexpr bool Tracked = !std::is_arithmetic_v<V>;
		struct Slot { Array* array = nullptr; std::vector<i64> model; };
		struct Cursor { int slot = -1; Array* on = nullptr; It* it = nullptr; ConstIt* cit = nullptr; i64 pos = 0; };
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		std::vector<Cursor> cursors;
		i64 nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		void unbind(Cursor& c)
		{
			delete c.it; delete c.cit;
			c = Cursor{};
		}
		void destroy(Slot& s)
		{
			if (!s.array) return;
			for (Cursor& c : cursors) if (c.on == s.array) unbind(c);
			libCall(F_NONE, 0, [&] { s.array->~Array(); });
			::operator delete(static_cast<void*>(s.array));
			s.array = nullptr;
			s.model.clear();
		}
		template<typename F> Outcome construct(Slot& s, const Op& op, F&& f)
		{
			destroy(s);
			void* mem = ::operator new(sizeof(Array));
			std::memset(mem, 0xCD, sizeof(Array));
			Outcome out = libCall(op, [&] { f(mem); });
			if (out == Outcome::Ok) s.array = static_cast<Array*>(mem);
			else { SIM_COUNT("reach:failed-construction"); ::operator delete(mem); }
			return out;
		}
		std::vector<i64> observe(Slot& s)
		{
			std::vector<i64> out;
			for (std::size_t i = 0; i < N; ++i) out.push_back(get((*s.array)[static_cast<E>(i)]));
			return out;
		}
		void compare(Slot& s, const char* what)
		{
			if (!s.array) return;
			std::vector<i64> now = observe(s);
			for (std::size_t i = 0; i < N; ++i)
				CHECK("E01", "content", now[i] == s.model[i], "%s: the value of enumerator %zu is %lld instead of %lld", what, i, (long long)now[i], (long long)s.model[i]);
			s.model = now;
		}
		void resync(Slot& s, const std::vector<i64>& other, const char* what) // each value is the old one, the one being stored, or moved from
		{
			SIM_COUNT("reach:failed-store");
			std::vector<i64> now = observe(s);
			for (std::size_t i = 0; i < N; ++i)
				CHECK("E01", "content", now[i] == s.model[i] || now[i] == other[i] || now[i] == MovedFrom, "after %s the value of enumerator %zu is %lld", what, i, (long long)now[i]);
			s.model = now;
		}
		template<typename A> void walk(A& a, const std::vector<i64>& m, const char* what)
		{
			std::size_t i = 0;
			for (auto&& [key, value] : a.iter_kv())
			{
				CHECK("E01", "iteration", i < N, "%s visits more than %zu enumerators", what, N);
				CHECK("E01", "key", std::size_t(key) == i, "%s gives enumerator %zu at step %zu", what, std::size_t(key), i);
				CHECK("E01", "value", &value == &a[static_cast<E>(i)] && get(value) == m[i], "%s gives another value for enumerator %zu", what, i);
				if (++i > N) break;
			}
			CHECK("E01", "iteration", i == N, "%s visits %zu of %zu enumerators", what, i, N);
#ifndef SIM_NO_KV_ITERATORS
			auto view = a.iter_kv();
			CHECK("E01", "distance", std::distance(view.begin(), view.end()) == std::ptrdiff_t(N), "%s: the enumerators span another distance", what);
			auto found = std::find_if(view.begin(), view.end(), [&](const auto& kv) { return get(kv.second) == m[N / 2]; });
			std::size_t want = 0;
			while (m[want] != m[N / 2]) ++want;
			CHECK("E01", "distance", found - view.begin() == std::ptrdiff_t(want) && view.begin() - found == -std::ptrdiff_t(want), "%s: a value is found at enumerator %lld instead of %zu", what, (long long)(found - view.begin()), want);
			i = N;
			for (auto it = std::make_reverse_iterator(view.end()), end = std::make_reverse_iterator(view.begin()); it != end; ++it)
			{
				CHECK("E01", "iteration", i > 0 && std::size_t((*it).first) == i - 1 && get((*it).second) == m[i - 1], "%s backwards gives another enumerator", what);
				--i;
			}
			CHECK("E01", "iteration", i == 0, "%s backwards stops %zu enumerators early", what, i);
#endif
		}
		bool valid(const Cursor& c, i64 pos) { return c.on && pos >= 0 && pos <= i64(N); }
		template<typename F> void withIt(Cursor& c, F&& f) { if (c.it) f(*c.it); else f(*c.cit); }
		void checkCursor(Cursor& c, const char* what)
		{
			if (!c.on) return;
			withIt(c, [&](auto& it)
			{
				if (c.pos < i64(N))
				{
					auto kv = *it;
					CHECK("E01", "key", i64(kv.first) == c.pos, "%s: an iterator gives enumerator %lld instead of %lld", what, (long long)kv.first, (long long)c.pos);
					CHECK("E01", "value", &kv.second == c.on->data() + c.pos, "%s: an iterator gives the value of another enumerator", what);
				}
				else CHECK("E01", "end", it == endOf(c, it), "%s: an iterator at the end differs from end()", what);
			});
		}
		It endOf(Cursor& c, It&) { return c.on->iter_kv().end(); }
		ConstIt endOf(Cursor& c, ConstIt&) { return static_cast<const Array*>(c.on)->iter_kv().end(); }

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			Cursor& c = cursors[std::size_t(op.a) % cursors.size()];
			Cursor& e = cursors[std::size_t(op.b) % cursors.size()];
			i64 n = (op.c % 9 - 4) * Stretch;
			switch (op.kind)
			{
				case K_CREATE:
					if (construct(s, op, [&](void* at) { new (at) Array{}; }) == Outcome::Ok) s.model.assign(N, 0);
					compare(s, "creation");
					break;
				case K_COPY:
				{
					if (&s == &d || !s.array) break;
					std::vector<i64> m = s.model;
					if (construct(d, op, [&](void* at) { new (at) Array(*static_cast<const Array*>(s.array)); }) == Outcome::Ok) d.model = m;
					compare(d, "copy construction"); compare(s, "being copied");
					break;
				}
				case K_MOVE:
				{
					if (&s == &d || !s.array) break;
					std::vector<i64> m = s.model;
					if (construct(d, op, [&](void* at) { new (at) Array(std::move(*s.array)); }) == Outcome::Ok)
					{
						d.model = m;
						if (Tracked) s.model.assign(N, MovedFrom);
						compare(s, "being moved");
					}
					else resync(s, s.model, "a failed move");
					compare(d, "move construction");
					break;
				}
				case K_DESTROY: destroy(s); break;
				case K_COPY_ASSIGN:
				{
					if (!s.array || !d.array) break;
					Array& alias = *s.array;
					Outcome out = libCall(op, [&] { *d.array = static_cast<const Array&>(alias); });
					if (out == Outcome::Ok) d.model = s.model; else resync(d, s.model, "a failed assignment");
					compare(d, "assignment"); compare(s, "being assigned from");
					break;
				}
				case K_MOVE_ASSIGN:
				{
					if (!s.array || !d.array || &s == &d) break;
					std::vector<i64> m = s.model;
					Outcome out = libCall(op, [&] { *d.array = std::move(*s.array); });
					if (out == Outcome::Ok) { d.model = m; if (Tracked) s.model.assign(N, MovedFrom); }
					else { resync(d, m, "a failed move assignment"); resync(s, m, "a failed move assignment"); }
					compare(d, "move assignment"); compare(s, "being moved");
					break;
				}
				case K_FILL:
				{
					if (!s.array) break;
					i64 val = nextVal++;
					V arg(val);
					Outcome out = libCall(op, [&] { s.array->fill(arg); });
					if (out == Outcome::Ok) s.model.assign(N, val); else resync(s, std::vector<i64>(N, val), "a failed fill");
					CHECK("E01", "argument-changed", get(arg) == val, "fill changed its argument");
					compare(s, "fill");
					break;
				}
				case K_SWAP:
				{
					if (!s.array || !d.array || &s == &d) break;
					Op clean = op;
					clean.fk = F_NONE;
					libCall(clean, [&] { if (op.c % 2) s.array->swap(*d.array); else std::swap(*s.array, *d.array); });
					std::swap(s.model, d.model);
					compare(s, "swap"); compare(d, "swap");
					break;
				}
				case K_WRITE:
				{
					if (!s.array) break;
					std::size_t i = std::size_t(op.c) * std::size_t(Stretch) % N;
					i64 val = nextVal++;
					V arg(val);
					Outcome out = libCall(op, [&] { (*s.array)[static_cast<E>(i)] = arg; });
					if (out == Outcome::Ok) s.model[i] = val; else SIM_COUNT("reach:failed-store");
					compare(s, "storing a value");
					break;
				}
				case K_READ:
				{
					if (!s.array) break;
					const Array& a = *s.array;
					CHECK("E01", "size", a.size() == N && !a.empty() && a.max_size() == N, "the size is %zu with %zu enumerators", a.size(), N);
					for (std::size_t i = 0; i < N; ++i)
						CHECK("E01", "index", &a[static_cast<E>(i)] == a.data() + i && &(*s.array)[static_cast<E>(i)] == a.data() + i, "enumerator %zu is stored at another place", i);
					std::size_t i = 0;
					for (const V& v : a) { CHECK("E01", "iteration", i < N && get(v) == s.model[i], "iteration gives another value at step %zu", i); ++i; }
					CHECK("E01", "iteration", i == N, "iteration visits %zu of %zu values", i, N);
					break;
				}
				case K_WALK: if (s.array) walk(*s.array, s.model, "key-value iteration"); break;
				case K_WALK_CONST: if (s.array) walk(*static_cast<const Array*>(s.array), s.model, "const key-value iteration"); break;
				case K_WALK_WRITE: // a visitor stores values and may fail half-way
				{
					if (!s.array) break;
					std::vector<i64> m = s.model;
					std::size_t visited = 0;
					Outcome out = libCall(op, [&]
					{
						for (auto&& [key, value] : s.array->iter_kv())
						{
							if (visited >= N) violateNow("E01", "iteration", "key-value iteration visits more than %zu enumerators", N);
							i64 val = i64(key) * 10 + op.b;
							value = V(val);
							m[visited++] = val;
						}
					});
					if (out != Outcome::Ok) SIM_COUNT("reach:visitor-threw");
					else CHECK("E01", "iteration", visited == N, "key-value iteration visits %zu of %zu enumerators", visited, N);
					s.model = m;
					compare(s, "a visitor that stores values");
					break;
				}
				case K_BIND:
				{
					if (!d.array) break;
					unbind(c);
					c.on = d.array;
					bool end = op.c % 3 == 0;
					c.pos = end ? i64(N) : 0;
					if (op.c % 2) { auto tag = d.array->iter_kv(); c.it = new It(end ? tag.end() : tag.begin()); }
					else { auto tag = static_cast<const Array*>(d.array)->iter_kv(); c.cit = new ConstIt(end ? tag.end() : tag.begin()); }
					break;
				}
				case K_INC: if (valid(c, c.pos + 1)) { withIt(c, [&](auto& it) { auto& r = ++it; CHECK("E01", "result", &r == &it, "++ returns another iterator"); }); c.pos++; } break;
				case K_DEC: if (valid(c, c.pos - 1)) { withIt(c, [&](auto& it) { auto& r = --it; CHECK("E01", "result", &r == &it, "-- returns another iterator"); }); c.pos--; } break;
				case K_POST_INC: if (valid(c, c.pos + 1)) { withIt(c, [&](auto& it) { auto old = it++; CHECK("E01", "result", i64((*old).first) == c.pos, "post-increment returns enumerator %lld instead of %lld", (long long)(*old).first, (long long)c.pos); }); c.pos++; } break;
				case K_POST_DEC: if (valid(c, c.pos - 1)) { withIt(c, [&](auto& it) { auto old = it--; auto next = it; ++next; CHECK("E01", "result", old != it && next == old, "post-decrement returns another iterator"); }); c.pos--; } break;
				case K_ADD: if (valid(c, c.pos + n)) { withIt(c, [&](auto& it) { auto& r = it += n; CHECK("E01", "result", &r == &it, "+= returns another iterator"); }); c.pos += n; } break;
				case K_SUB: if (valid(c, c.pos - n)) { withIt(c, [&](auto& it) { auto& r = it -= n; CHECK("E01", "result", &r == &it, "-= returns another iterator"); }); c.pos -= n; } break;
				case K_PLUS:
				case K_MINUS:
				{
					i64 to = op.kind == K_PLUS ? c.pos + n : c.pos - n;
					if (!valid(c, to)) break;
					withIt(c, [&](auto& it)
					{
						const auto& from = it;
						auto r = op.kind == K_MINUS ? from - n : op.b % 2 ? from + n : n + from;
						order(r, it, to - c.pos);
						if (to < i64(N)) CHECK("E01", "key", i64((*r).first) == to, "an iterator moved to enumerator %lld gives %lld", (long long)to, (long long)(*r).first);
						if (op.b % 3 == 0) { it = r; c.pos = to; }
					});
					break;
				}
				case K_AT:
					if (c.on)
						for (i64 i = -4; i <= 4; ++i)
							if (c.pos + i >= 0 && c.pos + i < i64(N))
								withIt(c, [&](auto& it) { auto kv = it[i]; CHECK("E01", "at", i64(kv.first) == c.pos + i && &kv.second == c.on->data() + c.pos + i, "offset %lld from enumerator %lld gives enumerator %lld", (long long)i, (long long)c.pos, (long long)kv.first); });
					break;
				case K_CURSOR_WRITE:
				{
					if (!c.it || c.pos >= i64(N)) break;
					Slot* owner = nullptr;
					for (Slot& x : slots) if (x.array == c.on) owner = &x;
					if (!owner) break;
					i64 val = nextVal++;
					V arg(val);
					Outcome out = libCall(op, [&] { (**c.it).second = arg; });
					if (out == Outcome::Ok) owner->model[std::size_t(c.pos)] = val; else SIM_COUNT("reach:failed-store");
					compare(*owner, "storing through an iterator");
					break;
				}
				case K_COMPARE:
					if (c.on && c.on == e.on && bool(c.it) == bool(e.it))
					{
						if (c.it) order(*c.it, *e.it, c.pos - e.pos); else order(*c.cit, *e.cit, c.pos - e.pos);
					}
					break;
			}
		}
		template<typename I> void order(const I& a, const I& b, i64 diff)
		{
			CHECK("E01", "order", (a == b) == (diff == 0) && (a != b) == (diff != 0) && (a < b) == (diff < 0) && (a <= b) == (diff <= 0) && (a > b) == (diff > 0) && (a >= b) == (diff >= 0),
				"two iterators %lld apart compare wrongly", (long long)diff);
#ifndef SIM_NO_KV_ITERATORS
			CHECK("E01", "distance", a - b == diff && b - a == -diff, "two iterators %lld apart are %lld apart", (long long)diff, (long long)(a - b));
#endif
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			cursors.resize(4);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				std::size_t n = 0;
				u64 h = 23;
				for (Slot& s : slots) { compare(s, names[op.kind]); n += s.model.size(); h = h * 3 + (s.array ? 1 : 0); for (i64 v : s.model) h = h * 31 + u64(v > 0); }
				for (Cursor& c : cursors) { checkCursor(c, names[op.kind]); h = h * 17 + u64(c.pos) + (c.it ? 100 : c.cit ? 200 : 0); }
				if (Tracked) CHECK("E01", "object-count", g_ledger.live.size() == n, "%zu values are alive, the arrays hold %zu", g_ledger.live.size(), n);
				noteState(h);
			}
			g_opIndex = idx;
			for (Slot& s : slots) destroy(s);
			checkNoLeftovers("E01");
		}
	};

	struct EnumArrayComponent : Component
	{
		EnumArrayComponent() { name = "enumarray"; g_lifetimeProp = "E01"; }
		int variants() const override { return 7; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "EnumArray<7 enumerators, Elem(copy and move throw)>", "EnumArray<3 enumerators (unsigned char), Elem(nothrow move)>", "EnumArray<1 enumerator (signed char), Elem(copy and move throw)>", "EnumArray<5 enumerators (64 bits), int>", "EnumArray<7 enumerators, int>", "EnumArray<128 enumerators (signed char), int>", "EnumArray<256 enumerators (unsigned char), int>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "E01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 3);
			p.cfg.push_back(n);
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_CREATE] += 1; w[K_BIND] += 1; w[K_DESTROY] = std::min(w[K_DESTROY], 1);
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, false, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			p.lists.emplace_back();
			for (int i = 0; i < n; ++i) { Op op; op.kind = K_CREATE; op.a = i; p.lists[0].push_back(op); }
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(12); op.b = r.range(12); op.c = r.range(24);
				faults.apply(r, op);
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Wide, Elem<ThrowingMove>>(plan, *this).run(); break;
				case 1: World<Small, Elem<NothrowMove>>(plan, *this).run(); break;
				case 2: World<Signed, Elem<ThrowingMove>>(plan, *this).run(); break;
				case 3: World<Big, int>(plan, *this).run(); break;
				case 4: World<Wide, int>(plan, *this).run(); break;
				case 5: World<Full, int>(plan, *this).run(); break;
				case 6: World<Bytes, int>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new EnumArrayComponent; }
