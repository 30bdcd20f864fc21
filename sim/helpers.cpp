// Simulated clients of the small helpers that run user code, allocate or hand over ownership.
// Real code: TypeListApply, HashCombine, Retrieve, StaticUniquePointerCast, StringHash, text and path conversions.
#include "sim.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <algorithm>
#include <filesystem>
#include <map>
#include <string>
#include <unordered_map>

using namespace sim;

namespace
{
	enum Kind { K_APPLY, K_COMBINE, K_COMBINE_SEED, K_TEXT, K_TO_U8, K_FROM_U8, K_TO_PATH, K_FROM_PATH, K_INSERT, K_ERASE, K_RETRIEVE, K_HASH, K_CREATE, K_CAST_UP, K_CAST_DOWN, K_DROP, K_COUNT };
	const char* const names[] = { "TypeListApply", "HashCombine", "HashCombineSeed", "NewText", "ToUtf8String", "FromUtf8String", "Utf8Path", "PathToString", "MapInsert", "MapErase", "Retrieve", "StringHash", "CreateObject", "CastToBase", "CastToDerived", "DropObject" };
	using E = Elem<ThrowingMove>;

	// ------------------------------------------------------------ user code called by the helpers
	struct Visit { int type; const void* argument; i64 value; int category; };
	struct World;
	World* s_world = nullptr;
	template<int N> struct Tag { static constexpr int value = N; };
	void visited(int type, const E& arg, const E* temporary, int& counter, int category);

	template<typename T> struct Visitor
	{
		E state; // user state, constructed for each call
		Visitor() : state(T::value) {}
		void operator()(const E& arg, int& counter) const { visited(T::value, arg, &state, counter, 0); }
		void operator()(E& arg, int& counter) const { visited(T::value, arg, &state, counter, 1); }
		void operator()(E&& arg, int& counter) const { visited(T::value, arg, &state, counter, 2); }
	};
	struct Hashed { i64 v = 0; bool reenter = false; };
	std::vector<i64> s_hashed;
}

template<> struct std::hash<Hashed>
{
	std::size_t operator()(const Hashed& h) const
	{
		HarnessScope hs;
		throwPoint(11);
		s_hashed.push_back(h.v);
		if (h.reenter) // a user's hash made of several members
		{
			LibScope ls;
			return Nz::HashCombine(int(h.v), std::string_view("member"));
		}
		return std::size_t(h.v) * 0x9E3779B97F4A7C15ull;
	}
};

namespace
{
	struct Base { E tracked; explicit Base(i64 v) : tracked(v) {} virtual ~Base() = default; };
	struct Other { i64 pad = 7; virtual ~Other() = default; };
	struct Derived : Other, Base { E more; explicit Derived(i64 v) : Base(v), more(v + 1) {} };

	template<typename T> struct PlainAllocator
	{
		using value_type = T;
		PlainAllocator() = default;
		template<typename U> PlainAllocator(const PlainAllocator<U>&) {}
		T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
		void deallocate(T* p, std::size_t) { ::operator delete(p); }
		bool operator==(const PlainAllocator&) const { return true; }
		bool operator!=(const PlainAllocator&) const { return false; }
	};

#if __cplusplus >= 202002L
	using Utf8 = std::u8string;
	using Utf8View = std::u8string_view;
#else
	using Utf8 = std::string;
	using Utf8View = std::string_view;
#endif
	std::string bytesOf(Utf8View v) { return std::string(reinterpret_cast<const char*>(v.data()), v.size()); }

	struct World
	{
		struct Text { std::string text, path; Utf8 u8; std::string u8Model; std::string model; std::filesystem::path p; std::string pathModel; };
		struct Object { std::unique_ptr<Base> base; std::unique_ptr<Derived> derived; i64 value = 0; };
		const Plan& plan;
		const Component& comp;
		std::vector<Text> texts;
		std::vector<Object> objects;
		std::unordered_map<std::string, i64, Nz::StringHash<>, std::equal_to<>> hashed;
		std::map<std::string, E, std::less<>> ordered;
		std::map<std::string, i64> hashedModel, orderedModel;
		std::vector<Visit> visits;
		const void* argument = nullptr;
		int* counterArgument = nullptr;
		int depth = 0;
		i64 nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		static std::string makeText(int a, int b)
		{
			static const char* pieces[] = { "a", "folder/", "\xC3\xA9t\xC3\xA9", "file.txt", "", "\xE2\x82\xAC/", "..", "/", "long name with spaces ", "\xF0\x9F\x98\x80", ".", "b//c" };
			std::string s;
			Rng r(u64(a) * 131 + u64(b));
			for (int i = r.range(b % 8 + 1); i > 0; --i) s += pieces[r.range(12)];
			return s;
		}
		static std::string keyOf(int c) { return c % 3 == 0 ? "k" + std::to_string(c % 9) : "a longer key which is allocated " + std::to_string(c % 9); }

		template<typename List> void applyList(const Op& op, const std::vector<int>& expected)
		{
			DepthGuard guard(depth);
			std::vector<Visit> outer = std::move(visits);
			visits.clear();
			const void* outerArg = argument;
			int* outerCounter = counterArgument;
			i64 val = nextVal++;
			{
				E arg(val);
				int counter = 0;
				argument = &arg;
				counterArgument = &counter;
				std::size_t before = g_ledger.live.size();
				int category = op.c % 3;
				Outcome out = libCall(op, [&]
				{
					if (category == 1) Nz::TypeListApply<List, Visitor>(arg, counter);
					else if (category == 2) Nz::TypeListApply<List, Visitor>(std::move(arg), counter); // the visitors leave it as it is
					else { const E& c = arg; Nz::TypeListApply<List, Visitor>(c, counter); }
				});
				if (out == Outcome::Ok) CHECK("U01", "calls", visits.size() == expected.size(), "%zu functors ran for a list of %zu types", visits.size(), expected.size());
				else { SIM_COUNT("reach:functor-threw"); CHECK("U01", "calls", visits.size() <= expected.size(), "%zu functors ran for a list of %zu types", visits.size(), expected.size()); }
				for (std::size_t i = 0; i < std::min(visits.size(), expected.size()); ++i)
				{
					CHECK("U01", "call-order", visits[i].type == expected[i], "call %zu is for type %d instead of %d", i, visits[i].type, expected[i]);
					CHECK("U01", "argument", visits[i].argument == &arg && visits[i].value == val, "call %zu has another argument", i);
					CHECK("U01", "argument", visits[i].category == category, "call %zu was not given the argument the way the caller gave it", i);
				}
				CHECK("U01", "argument", counter == int(visits.size()) && valueOf(arg) == val, "the arguments were changed");
				CHECK("U01", "functor-leak", g_ledger.live.size() == before, "%zu functors survive the calls", g_ledger.live.size() - before);
			}
			visits = std::move(outer);
			argument = outerArg;
			counterArgument = outerCounter;
		}
		void apply(const Op& op)
		{
			switch (op.a % 4)
			{
				case 0: applyList<Nz::TypeList<>>(op, {}); break;
				case 1: applyList<Nz::TypeList<Tag<4>>>(op, { 4 }); break;
				case 2: applyList<Nz::TypeList<Tag<1>, Tag<2>, Tag<1>, Tag<3>>>(op, { 1, 2, 1, 3 }); break;
				case 3: applyList<Nz::TypeListConcat<Nz::TypeList<Tag<5>, Tag<6>>, Nz::TypeList<Tag<7>, Tag<5>, Tag<8>>>>(op, { 5, 6, 7, 5, 8 }); break;
			}
		}
		void onVisit(int type, const E& arg, const E* state, int& counter, int category)
		{
			HarnessScope hs;
			CHECK("U01", "functor-dead", valueOf(*state) == type, "a functor ran that was not constructed");
			throwPoint(12);
			visits.push_back({ type, &arg, valueOf(arg), category });
			CHECK("U01", "argument", &counter == counterArgument, "another argument reached the functor");
			counter++;
			const Op* script = scriptFor(type);
			if (script && depth < 3) // a functor that applies another list
			{
				SIM_COUNT("reach:functor-re-enters");
				FaultState saved = g_fault; g_fault = FaultState{};
				apply(*script);
				g_fault = saved;
			}
		}
		const Op* scriptFor(int type) const { return plan.lists.size() > 1 && !plan.lists[1].empty() && type % 3 == 1 ? &plan.lists[1][std::size_t(type) % plan.lists[1].size()] : nullptr; }

		template<typename F> std::size_t combine(const Op& op, Outcome& out, F&& f)
		{
			std::size_t result = 0;
			s_hashed.clear();
			out = libCall(op, [&] { result = f(); });
			return result;
		}
		std::vector<std::size_t> bucketOf;
		void step(const Op& op)
		{
			Text& t = texts[std::size_t(op.a) % texts.size()];
			Text& d = texts[std::size_t(op.b) % texts.size()];
			Object& o = objects[std::size_t(op.a) % objects.size()];
			Object& q = objects[std::size_t(op.b) % objects.size()];
			switch (op.kind)
			{
				case K_APPLY: apply(op); break;
				case K_COMBINE:
				{
					Hashed h[4];
					int n = 1 + op.c % 4;
					std::vector<i64> expected;
					for (int i = 0; i < 4; ++i) { h[i].v = (op.a * 7 + op.b + i * i * 3) % 11; h[i].reenter = (op.c / 4 + i) % 3 == 0; if (i < n) expected.push_back(h[i].v); }
					auto run = [&]() -> std::size_t
					{
						switch (n)
						{
							case 1: return Nz::HashCombine(h[0]);
							case 2: return Nz::HashCombine(h[0], h[1]);
							case 3: return Nz::HashCombine(h[0], h[1], h[2]);
							default: return Nz::HashCombine(h[0], h[1], h[2], h[3]);
						}
					};
					Outcome out;
					std::size_t first = combine(op, out, run);
					if (out == Outcome::Ok)
					{
						std::sort(s_hashed.begin(), s_hashed.end());
						std::sort(expected.begin(), expected.end());
						CHECK("U01", "hash-calls", s_hashed == expected, "%zu values were hashed instead of %d, or other ones", s_hashed.size(), n);
						Op clean;
						std::size_t again = combine(clean, out, run);
						CHECK("U01", "hash-result", again == first, "hashing the same values again gives another result");
						if (n > 1) // another value at any position gives another result
						{
							int at = op.b % n;
							h[at].v += 1000;
							std::size_t other = combine(clean, out, run);
							CHECK("U01", "hash-result", other != first, "the value at position %d does not influence the hash of %d values", at, n);
						}
					}
					else
					{
						SIM_COUNT("reach:hash-threw");
						std::sort(s_hashed.begin(), s_hashed.end());
						std::sort(expected.begin(), expected.end());
						CHECK("U01", "hash-calls", s_hashed.size() < expected.size() && std::includes(expected.begin(), expected.end(), s_hashed.begin(), s_hashed.end()), "a value was hashed twice, or hashing went on after an exception");
					}
					break;
				}
				case K_COMBINE_SEED:
				{
					std::size_t seed = std::size_t(op.c) * 0x1234567, start = seed;
					Hashed h; h.v = op.a; h.reenter = op.b % 3 == 0;
					Outcome out;
					combine(op, out, [&] { Nz::HashCombine(seed, h); return std::size_t(0); });
					if (out != Outcome::Ok) { SIM_COUNT("reach:hash-threw"); CHECK("U01", "seed-changed", seed == start, "the seed changed although the user's hash threw"); break; }
					CHECK("U01", "hash-calls", s_hashed == std::vector<i64>{ h.v }, "the value was hashed %zu times", s_hashed.size());
					std::size_t other = start, third = start + 1;
					combine(Op{}, out, [&] { Nz::HashCombine(other, h); Nz::HashCombine(third, h); return std::size_t(0); });
					CHECK("U01", "hash-result", other == seed && third != seed, "combining the same value gives another result, or does not depend on the seed");
					break;
				}
				case K_TEXT: t.text = t.model = makeText(op.b, op.c); break;
				case K_TO_U8:
				{
					Outcome out = libCall(op, [&]
					{
						switch (op.c % 4)
						{
							case 0: { Utf8View v = Nz::ToUtf8String(std::string_view(t.text)); HarnessScope hs; CHECK("U01", "view", static_cast<const void*>(v.data()) == static_cast<const void*>(t.text.data()) && v.size() == t.text.size(), "the view converted to UTF-8 does not cover the text"); d.u8 = Utf8(v); break; }
							case 1: d.u8 = Nz::ToUtf8String(t.text.c_str()); break;
							case 2: d.u8 = Nz::ToUtf8String(t.text); break;
							case 3: { Utf8 r = Nz::ToUtf8String(std::string(t.text)); d.u8.swap(r); break; }
						}
					});
					if (out == Outcome::Ok) d.u8Model = t.model; else failed();
					break;
				}
				case K_FROM_U8:
				{
					Outcome out = libCall(op, [&]
					{
						switch (op.c % 4)
						{
							case 0: { std::string_view v = Nz::FromUtf8String(Utf8View(t.u8)); HarnessScope hs; CHECK("U01", "view", static_cast<const void*>(v.data()) == static_cast<const void*>(t.u8.data()) && v.size() == t.u8.size(), "the view converted from UTF-8 does not cover the text"); d.text = std::string(v); break; }
							case 1: d.text = Nz::FromUtf8String(t.u8.c_str()); break;
							case 2: d.text = Nz::FromUtf8String(t.u8); break;
							case 3: { std::string r = Nz::FromUtf8String(Utf8(t.u8)); d.text.swap(r); break; }
						}
					});
					if (out == Outcome::Ok) d.model = t.u8Model; else { failed(); d.text = d.model; }
					break;
				}
				case K_TO_PATH:
				{
					Outcome out = libCall(op, [&] { std::filesystem::path r = Nz::Utf8Path(t.text); HarnessScope hs; d.p = std::move(r); });
					if (out == Outcome::Ok) d.pathModel = t.model; else failed();
					break;
				}
				case K_FROM_PATH:
				{
					Outcome out = libCall(op, [&] { std::string r = Nz::PathToString(t.p); HarnessScope hs; d.text = std::move(r); });
					if (out != Outcome::Ok) { failed(); break; }
					d.model.clear(); // the generic format has no repeated separators
					for (char ch : t.pathModel) if (ch != '/' || d.model.empty() || d.model.back() != '/') d.model += ch;
					break;
				}
				case K_INSERT:
				{
					std::string key = keyOf(op.c);
					i64 val = nextVal++;
					if (op.b % 2)
					{
						Outcome out = libCall(op, [&] { hashed.emplace(key, val); });
						if (out == Outcome::Ok) hashedModel.emplace(key, val); else failed();
					}
					else
					{
						Outcome out = libCall(op, [&] { ordered.emplace(key, val); });
						if (out == Outcome::Ok) orderedModel.emplace(key, val); else failed();
					}
					break;
				}
				case K_ERASE:
				{
					std::string key = keyOf(op.c);
					if (op.b % 2) { libCall(F_NONE, 0, [&] { hashed.erase(key); }); hashedModel.erase(key); }
					else { libCall(F_NONE, 0, [&] { ordered.erase(key); }); orderedModel.erase(key); }
					break;
				}
				case K_RETRIEVE:
				{
					std::string key = keyOf(op.c);
					if (auto it = hashedModel.find(key); it != hashedModel.end())
					{
						const auto& c = hashed;
						i64& r = Nz::Retrieve(hashed, key);
						const i64& cr = Nz::Retrieve(c, key);
						CHECK("U01", "retrieve", &r == &hashed.find(key)->second && &cr == &r && r == it->second, "Retrieve does not give the entry of the hashed map");
#if __cplusplus >= 202002L
						CHECK("U01", "retrieve", &Nz::Retrieve(hashed, std::string_view(key)) == &r && &Nz::Retrieve(hashed, key.c_str()) == &r, "Retrieve of another key type gives another entry of the hashed map");
#endif
						if (op.b % 2) r = it->second = nextVal++;
					}
					if (auto it = orderedModel.find(key); it != orderedModel.end())
					{
						const auto& c = ordered;
						u64 copies = g_ledger.copies;
						E& r = Nz::Retrieve(ordered, key);
						const E& cr = Nz::Retrieve(c, std::string_view(key));
						CHECK("U01", "retrieve", &r == &ordered.find(key)->second && &cr == &r && valueOf(r) == it->second && &Nz::Retrieve(ordered, key.c_str()) == &r, "Retrieve does not give the entry of the ordered map");
						CHECK("U01", "retrieve", g_ledger.copies == copies, "Retrieve copies the entry");
					}
					break;
				}
				case K_HASH:
				{
					std::string key = keyOf(op.c);
					std::basic_string<char, std::char_traits<char>, PlainAllocator<char>> other(key.c_str());
					Nz::StringHash<> h;
					std::size_t a = h(key), b = h(key.c_str()), c = h(std::string_view(key)), e = h(other);
					CHECK("U01", "string-hash", a == b && b == c && c == e, "the hashes of one text given in different ways differ");
					std::u16string wide(key.begin(), key.end());
					Nz::StringHash<char16_t> wh;
					CHECK("U01", "string-hash", wh(wide) == wh(wide.c_str()) && wh(wide) == wh(std::u16string_view(wide)), "the hashes of one UTF-16 text given in different ways differ");
#if __cplusplus >= 202002L
					bool found = hashed.find(std::string_view(key)) != hashed.end(), found2 = hashed.contains(key.c_str());
					CHECK("U01", "lookup", found == (hashedModel.count(key) > 0) && found2 == found, "looking a text up without building a string fails");
#endif
					break;
				}
				case K_CREATE:
				{
					i64 val = nextVal++;
					std::unique_ptr<Base> b;
					Outcome out = libCall(op, [&] { if (op.c % 2) b.reset(new Derived(val)); else b = std::make_unique<Derived>(val); });
					if (out != Outcome::Ok) { failed(); break; }
					o.base.reset(); o.derived.reset();
					o.base = std::move(b);
					o.value = val;
					break;
				}
				case K_CAST_UP:
				case K_CAST_DOWN:
				{
					if (op.kind == K_CAST_UP ? !o.derived : !o.base) break;
					u64 destroyed = g_ledger.destroyed;
					i64 val = o.value;
					std::unique_ptr<Base> b; std::unique_ptr<Derived> x;
					Base* was = op.kind == K_CAST_UP ? static_cast<Base*>(o.derived.get()) : o.base.get();
					libCall(F_NONE, 0, [&] { if (op.kind == K_CAST_UP) b = Nz::StaticUniquePointerCast<Base>(std::move(o.derived)); else x = Nz::StaticUniquePointerCast<Derived>(std::move(o.base)); });
					CHECK("U01", "cast", !o.base && !o.derived, "a pointer that was cast is still owned by its source");
					CHECK("U01", "cast", (op.kind == K_CAST_UP ? b.get() : static_cast<Base*>(x.get())) == was, "a pointer cast gives another object");
					CHECK("U01", "cast", g_ledger.destroyed == destroyed, "a pointer cast destroyed the object");
					q.base.reset(); q.derived.reset();
					q.base = std::move(b); q.derived = std::move(x);
					o.value = 0; q.value = val;
					break;
				}
				case K_DROP: o.base.reset(); o.derived.reset(); o.value = 0; break;
			}
		}
		void failed() { SIM_COUNT("reach:failed-call"); }
		void checkAll(const char* what)
		{
			for (Text& t : texts)
			{
				CHECK("U01", "text", t.text == t.model, "%s: a text is \"%s\" instead of \"%s\"", what, t.text.c_str(), t.model.c_str());
				CHECK("U01", "text", bytesOf(t.u8) == t.u8Model, "%s: a UTF-8 text is \"%s\" instead of \"%s\"", what, bytesOf(t.u8).c_str(), t.u8Model.c_str());
				CHECK("U01", "path", t.p.native() == t.pathModel, "%s: a path is \"%s\" instead of \"%s\"", what, t.p.c_str(), t.pathModel.c_str());
			}
			std::size_t alive = orderedModel.size();
			for (Object& o : objects)
			{
				if (o.base) CHECK("U01", "object", valueOf(o.base->tracked) == o.value, "%s: an object changed", what);
				if (o.derived) CHECK("U01", "object", valueOf(o.derived->tracked) == o.value && valueOf(o.derived->more) == o.value + 1 && o.derived->pad == 7, "%s: an object changed", what);
				if (o.base || o.derived) alive += 2;
			}
			CHECK("U01", "map", hashed.size() == hashedModel.size() && ordered.size() == orderedModel.size(), "%s: the maps have %zu and %zu entries", what, hashed.size(), ordered.size());
			for (auto& [k, v] : hashedModel) { auto it = hashed.find(k); CHECK("U01", "map", it != hashed.end() && it->second == v, "%s: an entry of the hashed map is lost", what); }
			CHECK("U01", "object-count", g_ledger.live.size() == alive, "%s: %zu objects are alive instead of %zu", what, g_ledger.live.size(), alive);
		}
		void run()
		{
			s_world = this;
			texts.resize(3);
			objects.resize(3);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				checkAll(names[op.kind]);
				u64 h = 3;
				for (Text& t : texts) h = h * 1000003 + t.model.size() * 10007 + t.u8Model.size() * 101 + t.pathModel.size();
				for (Object& o : objects) h = h * 3 + (o.base ? 1 : o.derived ? 2 : 0);
				noteState(h * 31 + hashedModel.size() * 16 + orderedModel.size());
			}
			g_opIndex = idx;
			texts.clear(); objects.clear(); hashed.clear(); ordered.clear();
			s_hashed.clear();
			s_hashed.shrink_to_fit();
			{ decltype(hashed) none; hashed.swap(none); }
			s_world = nullptr;
			checkNoLeftovers("U01");
		}
	};
	void visited(int type, const E& arg, const E* state, int& counter, int category) { s_world->onVisit(type, arg, state, counter, category); }

	struct HelpersComponent : Component
	{
		HelpersComponent() { name = "helpers"; g_lifetimeProp = "U01"; }
		int variants() const override { return 1; }
		std::string variantName(int) const override { return "type list visitors, hashes, texts, paths, maps and owned objects"; }
		std::vector<std::string> properties() const override { return { "U01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			p.cfg.push_back(0);
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_TEXT] += 1; w[K_APPLY] += 1;
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, true, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			p.lists.resize(2);
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(12); op.b = r.range(12); op.c = r.range(36);
				faults.apply(r, op);
				p.lists[0].push_back(op);
			}
			for (int i = r.range(4); i > 0; --i)
			{
				Op op;
				op.kind = K_APPLY; op.a = r.range(4); op.c = r.range(2);
				faults.apply(r, op);
				p.lists[1].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override { World(plan, *this).run(); }
	};
}

sim::Component* sim::makeComponent() { return new HelpersComponent; }
