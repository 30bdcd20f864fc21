// Simulated clients sharing flag sets, walking them while others change them, and using them as keys. Real code: Flags, its iterators, std::hash<Flags>.
#include "sim.hpp"
#include <NazaraUtils/Flags.hpp>
#include <algorithm>
#include <unordered_map>

using namespace sim;

namespace
{
	enum Kind { K_CREATE, K_COPY, K_ASSIGN, K_SET, K_SET_FLAGS, K_CLEAR, K_CLEAR_ONE, K_CLEAR_FLAGS, K_TEST, K_COMPLEMENT, K_OR, K_AND, K_XOR, K_OR_ASSIGN, K_AND_ASSIGN, K_XOR_ASSIGN, K_ENUM_LEFT, K_ENUM_RIGHT, K_TWO_ENUMS,
		K_ROUND_TRIP, K_BIND, K_INC, K_POST_INC, K_REBIND, K_WALK, K_COLLECT, K_STORE, K_FIND, K_COUNT };
	const char* const names[] = { "Create", "Copy", "Assign", "Set", "SetFlags", "Clear", "ClearOne", "ClearFlags", "Test", "Complement", "Or", "And", "Xor", "OrAssign", "AndAssign", "XorAssign", "EnumOpFlags", "FlagsOpEnum", "EnumOpEnum",
		"RoundTrip", "BindIterator", "Increment", "PostIncrement", "CopyIterator", "Walk", "Collect", "Store", "Find" };

	enum class One { Only, Count };
	enum class Three { A, B, C };
	enum class Eight : unsigned char { First, Last = 7, Max = Last };
	enum class Nine : signed char { First, Last = 8, Count };
	enum class Sixteen { First, Last = 15 };
	enum class Seventeen : unsigned short { First, Last = 16, Max = Last };
	enum class ThirtyTwo : unsigned int { First, Last = 31, Max = Last };
	enum class ThirtyThree { First, Last = 32, Count };
	enum class Forty : unsigned long long { First, Last = 39 };
	enum class SixtyFour : unsigned char { First, Last = 63, Max = Last };
	enum class Own3 { A = 1, B = 2, C = 4, Count }; // enumerators that are bits themselves
	enum class Own5 : unsigned char { A = 1, B = 2, C = 4, D = 8, E = 16, Max = E };
	enum Plain { PlainA, PlainB, PlainC, PlainD, PlainCount };

	constexpr bool EnableEnumAsNzFlags(One) { return true; }
	constexpr bool EnableEnumAsNzFlags(Eight) { return true; }
	constexpr bool EnableEnumAsNzFlags(Nine) { return true; }
	constexpr bool EnableEnumAsNzFlags(Seventeen) { return true; }
	constexpr bool EnableEnumAsNzFlags(ThirtyTwo) { return true; }
	constexpr bool EnableEnumAsNzFlags(ThirtyThree) { return true; }
	constexpr bool EnableEnumAsNzFlags(SixtyFour) { return true; }
	constexpr bool EnableEnumAsNzFlags(Own3) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(Own3) { return false; }
	constexpr bool EnableEnumAsNzFlags(Own5) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(Own5) { return false; }
}

template<> struct Nz::EnumAsFlags<Three> { static constexpr Three max = Three::C; };
template<> struct Nz::EnumAsFlags<Sixteen> { static constexpr Sixteen max = Sixteen::Last; };
template<> struct Nz::EnumAsFlags<Forty> { static constexpr Forty max = Forty::Last; };
template<> struct Nz::EnumAsFlags<Plain> { static constexpr Plain max = PlainD; };

namespace
{
	template<typename E, int N, bool Auto>
	struct World
	{
		using Set = Nz::Flags<E>;
		using Field = typename Set::BitField;
		using It = typename Set::iterator;
		static constexpr u64 All = ~u64(0) >> (64 - N);
		static_assert(sizeof(Field) * 8 >= std::size_t(N), "every enumerator has its own bit");
		struct Slot { Set* set = nullptr; u64 model = 0; };
		struct Cursor { It* it = nullptr; It* end = nullptr; u64 left = 0; };
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> slots;
		std::vector<Cursor> cursors;
		std::unordered_map<Set, i64> byFlags;
		std::map<u64, i64> byModel;
		i64 nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		static E at(int i) { return Auto ? static_cast<E>(i) : static_cast<E>(1 << (Auto ? 0 : i)); }
		static u64 bit(int i) { return u64(1) << i; }
		static int indexOf(E e)
		{
			u64 v = u64(e);
			if (Auto) return v < u64(N) ? int(v) : -1;
			for (int i = 0; i < N; ++i) if (at(i) == e) return i;
			return -1;
		}
		static Set fromModel(u64 m) // built without the operators under test
		{
			return Set(static_cast<Field>(m));
		}

		void compare(const Set& s, u64 m, const char* what)
		{
			CHECK("Y01", "bits", u64(static_cast<Field>(s)) == m, "%s: the set is %llx instead of %llx", what, (unsigned long long)static_cast<Field>(s), (unsigned long long)m);
			CHECK("Y01", "bits", static_cast<unsigned long long>(s) == m, "%s: the set converts to %llx instead of %llx", what, static_cast<unsigned long long>(s), (unsigned long long)m);
			std::size_t n = std::size_t(__builtin_popcountll(m));
			CHECK("Y01", "count", s.Count() == n && s.size() == n, "%s: %zu flags are counted instead of %zu", what, s.Count(), n);
			CHECK("Y01", "empty", static_cast<bool>(s) == (m != 0) && (s.begin() == s.end()) == (m == 0), "%s: a set of %zu flags says whether it is empty wrongly", what, n);
		}
		void compareDeep(const Set& s, u64 m, const char* what)
		{
			compare(s, m, what);
			for (int i = 0; i < N; ++i)
				CHECK("Y01", "test", s.Test(at(i)) == bool(m & bit(i)), "%s: flag %d is said to be %s", what, i, (m & bit(i)) ? "off" : "on");
			int step = 0;
			u64 left = m;
			for (E e : s)
			{
				CHECK("Y01", "iteration", left != 0, "%s: iteration goes on after %d flags", what, step);
				int want = __builtin_ctzll(left);
				CHECK("Y01", "iteration", indexOf(e) == want, "%s: iteration gives %llu instead of flag %d at step %d", what, (unsigned long long)e, want, step);
				left &= left - 1;
				++step;
			}
			CHECK("Y01", "iteration", left == 0, "%s: iteration stops after %d flags", what, step);
		}
		void relation(const Set& a, u64 ma, const Set& b, u64 mb)
		{
			CHECK("Y01", "equality", (a == b) == (ma == mb) && (a != b) == (ma != mb), "sets %llx and %llx compare wrongly", (unsigned long long)ma, (unsigned long long)mb);
			CHECK("Y01", "test", a.Test(b) == ((ma & mb) == mb), "whether %llx contains %llx is told wrongly", (unsigned long long)ma, (unsigned long long)mb);
			if (ma == mb) CHECK("Y01", "hash", std::hash<Set>{}(a) == std::hash<Set>{}(b), "two equal sets have different hashes");
		}
		void unbind(Cursor& c) { delete c.it; delete c.end; c = Cursor{}; }
		void place(Slot& s, const Set& value, u64 m) // a new set over whatever was in the memory
		{
			delete s.set;
			s.set = new Set(value);
			s.model = m;
		}

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			Slot& t = slots[std::size_t(op.c) % slots.size()];
			Cursor& c = cursors[std::size_t(op.a) % cursors.size()];
			Cursor& other = cursors[std::size_t(op.b) % cursors.size()];
			int i = int(op.c % N), j = int((op.c / N + op.b) % N);
			const Set& cs = *s.set;
			switch (op.kind)
			{
				case K_CREATE:
					if (op.b % 3 == 0) place(s, Set(), 0);
					else if (op.b % 3 == 1) place(s, Set(at(i)), bit(i));
					else { u64 m = (u64(op.c) * 0x9E3779B97F4A7C15ull >> (op.b % 2 ? 0 : 7)) & All; place(s, Set(static_cast<Field>(m)), m); }
					break;
				case K_COPY: { Set copy(cs); compareDeep(copy, s.model, "a copy"); place(d, copy, s.model); break; }
				case K_ASSIGN: *d.set = cs; d.model = s.model; break;
				case K_SET: s.set->Set(at(i)); s.model |= bit(i); break;
				case K_SET_FLAGS: s.set->Set(*d.set); s.model |= d.model; break;
				case K_CLEAR: s.set->Clear(); s.model = 0; break;
				case K_CLEAR_ONE: s.set->Clear(at(i)); s.model &= ~bit(i); break;
				case K_CLEAR_FLAGS: { u64 m = d.model; s.set->Clear(*d.set); s.model &= ~m; break; }
				case K_TEST: relation(cs, s.model, *d.set, d.model); compareDeep(cs, s.model, "looking at a set"); break;
				case K_COMPLEMENT:
				{
					if (op.c % 4 == 0) // of a single enumerator
					{
						Set r = ~at(i);
						u64 m = u64(static_cast<Field>(r));
						CHECK("Y01", "complement", (m & All) == (All & ~bit(i)) && (!Auto || m == (All & ~bit(i))), "the complement of flag %d is %llx", i, (unsigned long long)m);
						place(d, fromModel(All & ~bit(i)), All & ~bit(i));
						break;
					}
					Set r = ~cs;
					u64 m = u64(static_cast<Field>(r)), want = All & ~s.model;
					CHECK("Y01", "complement", (m & All) == want && (!Auto || m == want), "the complement of %llx is %llx instead of %llx", (unsigned long long)s.model, (unsigned long long)m, (unsigned long long)want);
					Set back = ~r;
					CHECK("Y01", "complement", (u64(static_cast<Field>(back)) & All) == s.model, "the complement of the complement of %llx is %llx", (unsigned long long)s.model, (unsigned long long)static_cast<Field>(back));
					if (Auto) { compareDeep(r, want, "a complement"); place(d, r, want); }
					else { Set cut = r & fromModel(All); compareDeep(cut, want, "a complement"); place(d, cut, want); }
					break;
				}
				case K_OR: { u64 m = s.model | t.model; Set r = cs | *t.set; place(d, r, m); break; }
				case K_AND: { u64 m = s.model & t.model; Set r = cs & *t.set; place(d, r, m); break; }
				case K_XOR: { u64 m = s.model ^ t.model; Set r = cs ^ *t.set; place(d, r, m); break; }
				case K_OR_ASSIGN:
				case K_AND_ASSIGN:
				case K_XOR_ASSIGN:
				{
					u64 m = d.model;
					Set& r = op.kind == K_OR_ASSIGN ? (*s.set |= *d.set) : op.kind == K_AND_ASSIGN ? (*s.set &= *d.set) : (*s.set ^= *d.set);
					CHECK("Y01", "result", &r == s.set, "a compound assignment returns another set");
					if (op.kind == K_OR_ASSIGN) s.model |= m; else if (op.kind == K_AND_ASSIGN) s.model &= m; else s.model ^= m;
					break;
				}
				case K_ENUM_LEFT:
				{
					int w = int(op.b % 3);
					Set r = w == 0 ? (at(i) | cs) : w == 1 ? (at(i) & cs) : (at(i) ^ cs);
					place(d, r, w == 0 ? s.model | bit(i) : w == 1 ? s.model & bit(i) : s.model ^ bit(i));
					break;
				}
				case K_ENUM_RIGHT:
				{
					int w = int(op.b % 3);
					Set r = w == 0 ? (cs | at(i)) : w == 1 ? (cs & at(i)) : (cs ^ at(i));
					place(d, r, w == 0 ? s.model | bit(i) : w == 1 ? s.model & bit(i) : s.model ^ bit(i));
					break;
				}
				case K_TWO_ENUMS:
				{
					int w = int(op.a % 3);
					place(d, twoEnums(at(i), at(j), w), w == 0 ? bit(i) | bit(j) : w == 1 ? bit(i) & bit(j) : bit(i) ^ bit(j));
					break;
				}
				case K_ROUND_TRIP:
				{
					Field f = static_cast<Field>(cs);
					Set back(f);
					relation(back, s.model, cs, s.model);
					for (int k = 0; k < N; ++k)
						CHECK("Y01", "value", u64(Set::GetFlagValue(at(k))) == bit(k), "flag %d has the value %llx", k, (unsigned long long)Set::GetFlagValue(at(k)));
					break;
				}
				case K_BIND:
					unbind(c);
					c.it = new It(static_cast<const Set*>(d.set)->begin());
					c.end = new It(static_cast<const Set*>(d.set)->end());
					c.left = d.model;
					break;
				case K_INC:
					if (c.it && c.left)
					{
						It& r = ++*c.it;
						CHECK("Y01", "result", &r == c.it, "++ returns another iterator");
						c.left &= c.left - 1;
					}
					break;
				case K_POST_INC:
					if (c.it && c.left)
					{
						It old = (*c.it)++;
						int want = __builtin_ctzll(c.left);
						CHECK("Y01", "iteration", indexOf(*old) == want, "post-increment returns flag %d instead of %d", indexOf(*old), want);
						c.left &= c.left - 1;
						++old;
						CHECK("Y01", "iteration", old == *c.it, "a post-incremented iterator differs from its incremented copy");
					}
					break;
				case K_REBIND:
					if (c.it && &c != &other)
					{
						unbind(other);
						other.it = new It(*c.it); other.end = new It(*c.end);
						if (op.c % 2) *other.it = *c.it;
						other.left = c.left;
					}
					break;
				case K_WALK: // a visitor that changes the set it walks, and can fail
				{
					u64 seen = 0, start = s.model, now = s.model;
					int count = 0;
					Outcome out = libCall(op, [&]
					{
						for (E e : *s.set)
						{
							int k = indexOf(e);
							if (k < 0 || (seen & bit(k)) || ++count > N) violateNow("Y01", "iteration", "walking %llx visits %llu at step %d", (unsigned long long)start, (unsigned long long)e, count);
							seen |= bit(k);
							throwPoint(1);
							switch ((op.b + k) % 4)
							{
								case 0: s.set->Clear(e); now &= ~bit(k); break;
								case 1: s.set->Set(at((k + 1) % N)); now |= bit((k + 1) % N); break;
								case 2: *s.set ^= *d.set; now ^= &s == &d ? now : d.model; break;
								case 3: break;
							}
						}
					});
					s.model = now;
					if (out == Outcome::Ok) CHECK("Y01", "iteration", seen == start, "walking %llx visits %llx", (unsigned long long)start, (unsigned long long)seen);
					else
					{
						SIM_COUNT("reach:visitor-threw");
						CHECK("Y01", "iteration", (seen & start) == seen && (seen == start || (start & ~seen) > (seen & -seen)), "the interrupted walk of %llx has visited %llx", (unsigned long long)start, (unsigned long long)seen);
					}
					break;
				}
				case K_COLLECT:
				{
					std::vector<E> all;
					Outcome out = libCall(op, [&] { for (E e : *s.set) { HarnessScope hs; (void)hs; all.push_back(e); } });
					if (out != Outcome::Ok) break;
#ifndef SIM_NO_FLAGS_ALGORITHMS
					std::vector<E> copy;
					Outcome second = libCall(op, [&] { copy.assign(cs.begin(), cs.end()); });
					if (second == Outcome::Ok) CHECK("Y01", "iteration", copy == all, "a vector built from the flags holds %zu of %zu", copy.size(), all.size());
					else SIM_COUNT("reach:collect-failed");
					CHECK("Y01", "iteration", std::distance(cs.begin(), cs.end()) == std::ptrdiff_t(all.size()), "the flags of a set are at another distance");
					auto found = std::find(cs.begin(), cs.end(), at(i));
					CHECK("Y01", "iteration", (found != cs.end()) == bool(s.model & bit(i)), "finding flag %d fails", i);
#endif
					CHECK("Y01", "iteration", all.size() == std::size_t(__builtin_popcountll(s.model)), "iteration gives %zu flags", all.size());
					break;
				}
				case K_STORE:
				{
#ifndef SIM_NO_FLAGS_HASH
					i64 val = nextVal++;
					Outcome out = libCall(op, [&] { byFlags[cs] = val; });
					if (out == Outcome::Ok) byModel[s.model] = val; else SIM_COUNT("reach:failed-store");
#endif
					break;
				}
				case K_FIND:
				{
#ifndef SIM_NO_FLAGS_HASH
					auto it = byFlags.find(cs);
					auto m = byModel.find(s.model);
					CHECK("Y01", "lookup", (it != byFlags.end()) == (m != byModel.end()), "a set used as a key is %s", it == byFlags.end() ? "lost" : "found without having been stored");
					if (m != byModel.end()) CHECK("Y01", "lookup", it->second == m->second, "looking up a set gives another set's value");
					CHECK("Y01", "lookup", byFlags.size() == byModel.size(), "%zu sets are stored instead of %zu", byFlags.size(), byModel.size());
#endif
					break;
				}
			}
		}
		static Set twoEnums(E a, E b, int w)
		{
			if constexpr (std::is_convertible_v<E, int>) // plain enumerations have their own | & ^: go through the named operators
			{
				namespace Ops = Nz::FlagsOperators;
				return w == 0 ? Ops::operator|(a, b) : w == 1 ? Ops::operator&(a, b) : Ops::operator^(a, b);
			}
			else return w == 0 ? (a | b) : w == 1 ? (a & b) : (a ^ b);
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			cursors.resize(3);
			for (Slot& s : slots) place(s, Set(), 0);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				u64 h = 29;
				for (Slot& s : slots) { compare(*s.set, s.model, names[op.kind]); h = h * 0x100000001B3ull ^ s.model; }
				for (Cursor& c : cursors)
				{
					if (!c.it) { h = h * 3; continue; }
					CHECK("Y01", "iteration", (*c.it == *c.end) == (c.left == 0) && (*c.it != *c.end) == (c.left != 0), "%s: an iterator with %d flags left is at the wrong place", names[op.kind], __builtin_popcountll(c.left));
					if (c.left) CHECK("Y01", "iteration", indexOf(**c.it) == __builtin_ctzll(c.left), "%s: an iterator gives %llu instead of flag %d", names[op.kind], (unsigned long long)**c.it, __builtin_ctzll(c.left));
					h = h * 0x100000001B3ull ^ ~c.left;
				}
				noteState(h);
			}
			g_opIndex = idx;
			for (std::size_t i = 0; i < slots.size(); ++i)
				for (std::size_t j = 0; j < slots.size(); ++j) { relation(*slots[i].set, slots[i].model, *slots[j].set, slots[j].model); if (i == j) compareDeep(*slots[i].set, slots[i].model, "the end"); }
			for (Slot& s : slots) delete s.set;
			for (Cursor& c : cursors) unbind(c);
		}
	};

	struct FlagsComponent : Component
	{
		FlagsComponent() { name = "flags"; g_lifetimeProp = "Y01"; }
		int variants() const override { return 13; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "Flags<1 enumerator>", "Flags<3 enumerators>", "Flags<8 enumerators (unsigned char)>", "Flags<9 enumerators (signed char)>", "Flags<16 enumerators>", "Flags<17 enumerators (unsigned short)>", "Flags<32 enumerators (unsigned int)>",
				"Flags<33 enumerators>", "Flags<40 enumerators (64 bits)>", "Flags<64 enumerators (unsigned char)>", "Flags<3 enumerators that are bits>", "Flags<5 enumerators that are bits (unsigned char)>", "Flags<4 enumerators of a plain enum>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "Y01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 4);
			p.cfg.push_back(n);
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_CREATE] += 2; w[K_BIND] += 1; w[K_CLEAR] = std::min(w[K_CLEAR], 1);
			Scheduler sched(r, r.between(1, 4));
			FaultMix faults(r, true, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(12); op.b = r.range(12); op.c = r.range(4096);
				faults.apply(r, op);
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<One, 1, true>(plan, *this).run(); break;
				case 1: World<Three, 3, true>(plan, *this).run(); break;
				case 2: World<Eight, 8, true>(plan, *this).run(); break;
				case 3: World<Nine, 9, true>(plan, *this).run(); break;
				case 4: World<Sixteen, 16, true>(plan, *this).run(); break;
				case 5: World<Seventeen, 17, true>(plan, *this).run(); break;
				case 6: World<ThirtyTwo, 32, true>(plan, *this).run(); break;
				case 7: World<ThirtyThree, 33, true>(plan, *this).run(); break;
				case 8: World<Forty, 40, true>(plan, *this).run(); break;
				case 9:
#ifndef SIM_NO_FLAGS_64
					World<SixtyFour, 64, true>(plan, *this).run();
#endif
					break;
				case 10: World<Own3, 3, false>(plan, *this).run(); break;
				case 11: World<Own5, 5, false>(plan, *this).run(); break;
				case 12: World<Plain, 4, true>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new FlagsComponent; }
