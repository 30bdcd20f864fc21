// Simulated clients sharing bitsets and feeding them from bit streams.
// Real code: Bitset with std::vector, HybridVector and FixedVector storage, the bit helpers of MathUtils.
#include "sim.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <algorithm>
#include <sstream>

using namespace sim;

namespace
{
	enum Kind
	{
		K_CTOR_SIZE, K_CTOR_TEXT, K_CTOR_VALUE, K_CTOR_DEFAULT, K_COPY_CONSTRUCT, K_MOVE_CONSTRUCT, K_COPY_ASSIGN, K_MOVE_ASSIGN, K_SWAP, K_ASSIGN_TEXT, K_ASSIGN_VALUE,
		K_APPEND, K_WRITE, K_FROM_POINTER, K_STREAM, K_CLEAR, K_FLIP, K_RESIZE, K_RESERVE, K_RESET, K_RESET_BIT, K_SET_ALL, K_SET_BIT, K_BIT_PROXY, K_SET_BLOCK,
		K_REVERSE, K_SHIFT_LEFT, K_SHIFT_RIGHT, K_UNBOUNDED_SET, K_UNBOUNDED_RESET, K_AND, K_OR, K_XOR, K_NOT, K_READ, K_COMPARE, K_PRINT, K_COUNT
	};
	const char* const names[] = {
		"ConstructSized", "ConstructText", "ConstructValue", "ConstructDefault", "CopyConstruct", "MoveConstruct", "CopyAssign", "MoveAssign", "Swap", "AssignText", "AssignValue",
		"AppendBits", "Write", "FromPointer", "RestartStream", "Clear", "Flip", "Resize", "Reserve", "Reset", "ResetBit", "SetAll", "SetBit", "BitProxy", "SetBlock",
		"Reverse", "ShiftLeft", "ShiftRight", "UnboundedSet", "UnboundedReset", "And", "Or", "Xor", "Not", "Read", "Compare", "Print" };

	using Bits = std::vector<bool>;
	struct Disk : std::streambuf // a destination that takes a limited number of characters
	{
		std::string text;
		std::size_t room;
		explicit Disk(std::size_t r) : room(r) { text.reserve(r); }
		std::streamsize xsputn(const char* p, std::streamsize n) override
		{
			HarnessScope hs;
			std::size_t taken = std::min(std::size_t(n), room - text.size());
			text.append(p, taken);
			return std::streamsize(taken);
		}
		int_type overflow(int_type ch) override
		{
			HarnessScope hs;
			if (text.size() >= room) return traits_type::eof();
			text += char(ch);
			return ch;
		}
	};
	u64 mix(u64 v) { Rng r(v * 77 + 5); return r.next(); }
	u64 valueFor(int c)
	{
		switch (c % 8)
		{
			case 0: return 0;
			case 1: return ~u64(0);
			case 2: return 1;
			case 3: return u64(1) << (c / 8 % 64);
			default: return mix(u64(c));
		}
	}
	int numeric(const Bits& a, const Bits& b) // compares the numbers two bit sequences represent
	{
		std::size_t n = std::max(a.size(), b.size());
		for (std::size_t i = n; i-- > 0;)
		{
			bool x = i < a.size() && a[i], y = i < b.size() && b[i];
			if (x != y) return x ? 1 : -1;
		}
		return 0;
	}

	template<typename Block, typename Container>
	struct World
	{
		using Set = Nz::Bitset<Block, Container>;
		static constexpr std::size_t W = sizeof(Block) * 8;
		struct Slot { Set* set = nullptr; Bits model; };
		struct Stream { unsigned char* data = nullptr; std::size_t bytes = 0, pos = 0; typename Set::PointerSequence seq; };
		const Plan& plan;
		const Component& comp;
		std::size_t bound; // most bits a client stores
		std::vector<Slot> slots;
		std::vector<Stream> streams;

		World(const Plan& p, const Component& c, std::size_t limit) : plan(p), comp(c), bound(limit) {}

		#define JUDGE(p1, p2, cls, cond, ...) do { if (!(cond)) { if (::sim::wanted(p1)) violateNow(p1, cls, __VA_ARGS__); if (::sim::wanted(p2)) violateNow(p2, cls, __VA_ARGS__); } } while (false)

		// size and storage must agree before any bit may be read
		void consistent(Set& b, const char* p1, const char* p2, const char* what)
		{
			std::size_t size = b.GetSize(), blocks = b.GetBlockCount();
			if (size > 100000) violateNow(g_prop.empty() ? p1 : g_prop.c_str(), "absurd-size", "%s: the size is %zu", what, size);
			JUDGE(p1, p2, "size-without-bits", blocks == (size + W - 1) / W, "%s: a bitset of %zu bits has %zu blocks of %zu bits", what, size, blocks, W);
			if (blocks < (size + W - 1) / W) violateNow(g_prop.empty() ? p1 : g_prop.c_str(), "size-without-bits", "%s: a bitset of %zu bits has %zu blocks of %zu bits", what, size, blocks, W);
		}
		Bits observe(Set& b)
		{
			std::size_t n = b.GetSize();
			Bits out(n);
			const Set& c = b;
			for (std::size_t i = 0; i < n; ++i) out[i] = c.Test(i);
			return out;
		}
		void compare(Slot& s, const char* p1, const char* p2, const char* what)
		{
			consistent(*s.set, p1, p2, what);
			Bits now = observe(*s.set);
			JUDGE(p1, p2, "size", now.size() == s.model.size(), "%s: the size is %zu instead of %zu", what, now.size(), s.model.size());
			for (std::size_t i = 0; i < std::min(now.size(), s.model.size()); ++i)
				JUDGE(p1, p2, "bits", now[i] == s.model[i], "%s: bit %zu of %zu is %d", what, i, now.size(), int(now[i]));
			std::size_t blocks = s.set->GetBlockCount();
			for (std::size_t k = 0; k < blocks; ++k)
			{
				Block expected = 0;
				for (std::size_t i = 0; i < W; ++i) if (k * W + i < now.size() && now[k * W + i]) expected = Block(expected | (Block(1) << i));
				Block got = s.set->GetBlock(k);
				JUDGE(p1, p2, "extra-bits", got == expected, "%s: block %zu is %llx instead of %llx", what, k, (unsigned long long)got, (unsigned long long)expected);
			}
			s.model = now;
		}
		// after a failed operation; [0, keep) must be as before
		void failed(Slot& s, std::size_t keep, const Bits* growth, const char* what)
		{
			SIM_COUNT("reach:failed-operation");
			consistent(*s.set, "B03", "B03", what);
			Bits now = observe(*s.set);
			CHECK("B03", "lost-bits", now.size() >= keep, "%s: %zu bits are left of %zu", what, now.size(), keep);
			for (std::size_t i = 0; i < std::min(keep, now.size()); ++i)
				CHECK("B03", "changed-bits", now[i] == s.model[i], "%s changed bit %zu", what, i);
			if (growth)
				for (std::size_t i = s.model.size(); i < now.size(); ++i)
					CHECK("B03", "wrong-growth", i < growth->size() && now[i] == (*growth)[i], "%s left a wrong bit at %zu", what, i);
			s.model = now;
			compare(s, "B03", "B03", what);
		}
		void readAll(Slot& s)
		{
			Set& b = *s.set;
			const Set& c = b;
			const Bits& m = s.model;
			std::size_t count = 0, first = Set::npos;
			for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) { count++; if (first == Set::npos) first = i; }
			CHECK("B01", "count", c.Count() == count, "Count() is %zu instead of %zu", c.Count(), count);
			CHECK("B01", "test-any", c.TestAny() == (count > 0) && c.TestNone() == (count == 0) && c.TestAll() == (count == m.size()), "TestAny/None/All are %d %d %d with %zu of %zu bits set", int(c.TestAny()), int(c.TestNone()), int(c.TestAll()), count, m.size());
			CHECK("B01", "find-first", c.FindFirst() == first, "FindFirst() is %zu instead of %zu", c.FindFirst(), first);
			std::size_t stride = 1 + m.size() / 2048; // every bit, unless there are thousands
			std::size_t next = Set::npos, later = m.size();
			for (std::size_t i = m.size(); i-- > 0;)
			{
				for (; later > i + 1; --later) if (m[later - 1]) next = later - 1;
				if (i % stride && i + 200 < m.size()) continue;
				CHECK("B01", "find-next", c.FindNext(i) == next, "FindNext(%zu) is %zu instead of %zu of %zu bits", i, c.FindNext(i), next, m.size());
				CHECK("B01", "index", c[i] == m[i] && bool(b[i]) == m[i] && c.UnboundedTest(i) == m[i] && b[i].Test() == m[i], "bit %zu reads differently through operator[] or UnboundedTest", i);
			}
			for (std::size_t i : { std::size_t(0), std::size_t(1), W, 3 * W }) CHECK("B01", "beyond-end", !c.UnboundedTest(m.size() + i), "bit %zu beyond the end is set", m.size() + i);
			std::vector<std::size_t> set, it1, it2;
			for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) set.push_back(i);
			for (std::size_t i : c.IterBits()) { it1.push_back(i); if (it1.size() > set.size()) break; }
			CHECK("B01", "iteration", it1 == set, "iterating gives %zu set bits instead of %zu", it1.size(), set.size());
			auto range = c.IterBits();
			for (auto it = range.begin(); it != range.end();)
			{
				auto before = it;
				auto ret = it++;
				CHECK("B01", "post-increment", *ret == *before && ret == before, "post-increment returns bit %zu instead of %zu", *ret, *before);
				it2.push_back(*ret);
				if (it2.size() > set.size()) break;
			}
			CHECK("B01", "iteration", it2 == set, "iterating by post-increment gives %zu set bits instead of %zu", it2.size(), set.size());
#ifndef SIM_NO_BIT_ITERATORS
			if (m.size() <= 256)
			{
				std::vector<std::size_t> copy(range.begin(), range.end());
				CHECK("B01", "iteration", copy == set && std::size_t(std::distance(range.begin(), range.end())) == set.size(), "a vector built from the set bits holds %zu instead of %zu", copy.size(), set.size());
			}
#endif
			std::string text(m.size(), '0');
			for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) text[m.size() - 1 - i] = '1';
			CHECK("B01", "text", c.ToString() == text, "ToString() is %s instead of %s", c.ToString().c_str(), text.c_str());
			if (m.size() <= 64)
			{
				u64 v = 0;
				for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) v |= u64(1) << i;
				CHECK("B01", "to-integer", c.template To<Nz::UInt64>() == v, "To<UInt64>() is wrong");
				if (m.size() <= 32) CHECK("B01", "to-integer", c.template To<Nz::UInt32>() == Nz::UInt32(v), "To<UInt32>() is wrong");
				if (m.size() <= 16) CHECK("B01", "to-integer", c.template To<Nz::UInt16>() == Nz::UInt16(v), "To<UInt16>() is wrong");
				if (m.size() <= 8) CHECK("B01", "to-integer", c.template To<Nz::UInt8>() == Nz::UInt8(v), "To<UInt8>() is wrong");
			}
		}
		void compareSlots(Slot& s, Slot& d)
		{
			const Set &x = *s.set, &y = *d.set;
			int n = numeric(s.model, d.model);
			if (s.model.size() != d.model.size()) SIM_COUNT("reach:different-sizes");
			CHECK("B01", "equality", (x == y) == (n == 0) && (x != y) == (n != 0), "== is %d for bitsets of %zu and %zu bits that compare %d", int(x == y), s.model.size(), d.model.size(), n);
			CHECK("B01", "order", (x < y) == (n < 0) && (x > y) == (n > 0) && (x <= y) == (n <= 0) && (x >= y) == (n >= 0), "< is %d, > is %d, <= is %d, >= is %d for bitsets of %zu and %zu bits that compare %d", int(x < y), int(x > y), int(x <= y), int(x >= y), s.model.size(), d.model.size(), n);
			bool common = false;
			for (std::size_t i = 0; i < std::min(s.model.size(), d.model.size()); ++i) common = common || (s.model[i] && d.model[i]);
			CHECK("B01", "intersects", x.Intersects(y) == common && y.Intersects(x) == common, "Intersects() is %d", int(x.Intersects(y)));
		}

		void destroy(Slot& s)
		{
			if (!s.set) return;
			Set* b = s.set;
			s.set = nullptr;
			libCall(F_NONE, 0, [&] { b->~Set(); });
			::operator delete(static_cast<void*>(b));
			s.model.clear();
		}
		template<typename F> Outcome construct(Slot& s, const Op& op, F&& f)
		{
			destroy(s);
			void* mem = ::operator new(sizeof(Set));
			std::memset(mem, 0xCD, sizeof(Set));
			Outcome out = libCall(op, [&] { f(mem); });
			if (out != Outcome::Ok)
			{
				SIM_COUNT("reach:failed-construction");
				libCall(F_NONE, 0, [&] { new (mem) Set(); });
			}
			s.set = static_cast<Set*>(mem);
			return out;
		}
		static Bits textBits(const std::string& t)
		{
			Bits b(t.size());
			for (std::size_t i = 0; i < t.size(); ++i) b[t.size() - 1 - i] = t[i] == '1';
			return b;
		}
		std::string textFor(int b, int c)
		{
			std::size_t n = std::min(std::size_t(b), bound);
			std::string t;
			Rng r{ u64(c) };
			for (std::size_t i = 0; i < n; ++i) t += r.chance(1, 2) ? '1' : '0';
			return t;
		}
		// the size a bitset made from an integer gets: all bits of a value that fits a block, at least the set ones otherwise
		template<typename T> void adoptValue(Slot& s, T v, const char* what)
		{
			consistent(*s.set, "B01", "B01", what);
			std::size_t n = s.set->GetSize(), high = 0;
			for (std::size_t i = 0; i < sizeof(T) * 8; ++i) if ((v >> i) & 1) high = i + 1;
			CHECK("B01", "size", sizeof(T) <= sizeof(Block) ? n == sizeof(T) * 8 : n >= high && n <= sizeof(T) * 8, "%s: a %zu-bit integer gives %zu bits", what, sizeof(T) * 8, n);
			s.model.assign(n, false);
			for (std::size_t i = 0; i < std::min(n, sizeof(T) * 8); ++i) s.model[i] = (v >> i) & 1;
			compare(s, "B01", "B01", what);
		}
		template<typename T> void constructValue(Slot& s, const Op& op)
		{
			T v = T(valueFor(op.c));
			if (sizeof(T) * 8 > bound) return;
			if (op.kind == K_CTOR_VALUE)
			{
				Outcome out = construct(s, op, [&](void* mem) { new (mem) Set(v); });
				if (out == Outcome::Ok) adoptValue(s, v, "construction from an integer");
				else compare(s, "B03", "B03", "a new bitset");
			}
			else
			{
				Outcome out = libCall(op, [&] { *s.set = v; });
				if (out == Outcome::Ok) adoptValue(s, v, "assignment of an integer");
				else failed(s, s.model.size(), &s.model, "a failed assignment of an integer");
			}
		}
		template<typename T> void append(Slot& s, const Op& op, std::size_t n)
		{
			T v = T(valueFor(op.c));
			Bits wanted = s.model;
			for (std::size_t i = 0; i < n; ++i) wanted.push_back(i < sizeof(T) * 8 && ((v >> i) & 1));
			std::size_t before = s.model.size();
			if (n == 0) SIM_COUNT("reach:empty-append");
			Outcome out = libCall(op, [&] { s.set->AppendBits(v, n); });
			if (out == Outcome::Ok) { s.model = wanted; compare(s, "B02", "B01", "AppendBits"); }
			else failed(s, before, &wanted, "a failed AppendBits");
		}
		void freeStream(Stream& st) { std::free(st.data); st.data = nullptr; }
		void newStream(Stream& st, int c)
		{
			freeStream(st);
			st.bytes = std::size_t(1 + c % 24);
			st.data = static_cast<unsigned char*>(std::malloc(st.bytes)); // exact size: reading past the end is detected
			Rng r{ u64(c) };
			for (std::size_t i = 0; i < st.bytes; ++i) st.data[i] = r.chance(1, 4) ? 0xFF : static_cast<unsigned char>(r.next());
			st.pos = 0;
			st.seq = { st.data, 0 };
		}
		void write(Slot& s, const Op& op)
		{
			Stream& st = streams[std::size_t(op.client) % streams.size()];
			std::size_t left = st.bytes * 8 - st.pos;
			std::size_t n = std::min(std::size_t(op.b), left);
			bool from = op.kind == K_FROM_POINTER;
			if (from) { if (st.pos % 8) return; }
			else if (s.model.size() >= bound) return;
			n = std::min(n, bound - (from ? 0 : s.model.size()));
			if (left == 0) return; // nothing left to read from
			Bits wanted;
			if (!from) wanted = s.model;
			for (std::size_t i = 0; i < n; ++i) { std::size_t p = st.pos + i; wanted.push_back((st.data[p / 8] >> (p % 8)) & 1); }
			if (n == 0) SIM_COUNT("reach:empty-write");
			if (st.pos % 8 && n) SIM_COUNT("reach:write-from-inside-a-byte");
			typename Set::PointerSequence next;
			std::size_t before = s.model.size();
			Outcome out;
			if (from)
			{
				void* tmp = ::operator new(sizeof(Set));
				out = libCall(op, [&] { if (op.c % 2) new (tmp) Set(Set::FromPointer(st.data + st.pos / 8, n, &next)); else { new (tmp) Set(Set::FromPointer(st.data + st.pos / 8, n)); next = { st.data + (st.pos + n) / 8, n % 8 }; } });
				if (out == Outcome::Ok)
				{
					destroy(s);
					s.set = static_cast<Set*>(tmp);
				}
				else ::operator delete(tmp);
			}
			else if (st.pos % 8 == 0 && op.c % 2)
				out = libCall(op, [&] { next = s.set->Write(static_cast<const void*>(st.data + st.pos / 8), n); });
			else
				out = libCall(op, [&] { next = s.set->Write(st.seq, n); });
			if (out != Outcome::Ok)
			{
				if (from) compare(s, "B03", "B03", "a failed FromPointer");
				else failed(s, before, &wanted, "a failed Write");
				return; // the client keeps its position
			}
			s.model = wanted;
			compare(s, "B02", "B01", from ? "FromPointer" : "Write");
			st.pos += n;
			CHECK("B02", "position", next.first == st.data + st.pos / 8 && next.second == st.pos % 8, "after %zu bits the position is byte %ld bit %zu instead of byte %zu bit %zu",
				st.pos, long(static_cast<const unsigned char*>(next.first) - st.data), next.second, st.pos / 8, st.pos % 8);
			st.seq = { st.data + st.pos / 8, st.pos % 8 };
		}
		template<typename F> void binary(const Op& op, F&& f)
		{
			Slot& a = slots[std::size_t(op.a) % slots.size()];
			Slot& b = slots[std::size_t(op.b) % slots.size()];
			Slot& d = slots[std::size_t(op.c / 4) % slots.size()];
			std::size_t n = std::max(a.model.size(), b.model.size());
			Bits r(n);
			for (std::size_t i = 0; i < n; ++i) r[i] = f(i < a.model.size() && a.model[i], i < b.model.size() && b.model[i]);
			if (a.model.size() != b.model.size()) SIM_COUNT("reach:different-sizes");
			Slot* target = &d;
			Outcome out;
			switch (op.c % 4)
			{
				case 0: case 1: // member function into any bitset, possibly one of the operands
					if (&d == &a || &d == &b) SIM_COUNT("reach:result-is-operand");
					out = libCall(op, [&] { if (op.kind == K_AND) d.set->PerformsAND(*a.set, *b.set); else if (op.kind == K_OR) d.set->PerformsOR(*a.set, *b.set); else d.set->PerformsXOR(*a.set, *b.set); });
					break;
				case 2:
					target = &a;
					out = libCall(op, [&] { if (op.kind == K_AND) *a.set &= *b.set; else if (op.kind == K_OR) *a.set |= *b.set; else *a.set ^= *b.set; });
					break;
				default:
					out = libCall(op, [&] { if (op.kind == K_AND) *d.set = *a.set & *b.set; else if (op.kind == K_OR) *d.set = *a.set | *b.set; else *d.set = *a.set ^ *b.set; });
					break;
			}
			if (out == Outcome::Ok) { target->model = r; compare(*target, "B01", "B01", "a bitwise operation"); }
			else failed(*target, 0, nullptr, "a failed bitwise operation");
			for (Slot& o : slots) if (&o != target) compare(o, "B01", "B03", "a bystander of a bitwise operation");
		}

		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			Slot& d = slots[std::size_t(op.b) % slots.size()];
			std::size_t n = s.model.size();
			std::size_t bit = n ? std::size_t(op.b) % n : 0;
			bool val = op.c & 1;
			Set& b = *s.set;
			switch (op.kind)
			{
				case K_CTOR_SIZE:
				{
					std::size_t size = std::min(std::size_t(op.b), bound);
					Outcome out = construct(s, op, [&](void* mem) { new (mem) Set(size, val); });
					if (out == Outcome::Ok) s.model.assign(size, val);
					compare(s, "B01", out == Outcome::Ok ? "B01" : "B03", "construction");
					break;
				}
				case K_CTOR_TEXT:
				case K_ASSIGN_TEXT:
				{
					std::string t = textFor(op.b, op.c);
					Outcome out;
					if (op.kind == K_CTOR_TEXT)
					{
						switch (op.c % 4)
						{
							case 0: out = construct(s, op, [&](void* mem) { new (mem) Set(t.c_str()); }); break;
							case 1: out = construct(s, op, [&](void* mem) { new (mem) Set(t.data(), t.size()); }); break;
							case 2: { const std::string& ct = t; out = construct(s, op, [&](void* mem) { new (mem) Set(ct); }); break; }
							default: { const std::string_view v(t); out = construct(s, op, [&](void* mem) { new (mem) Set(v); }); break; }
						}
						if (out == Outcome::Ok) s.model = textBits(t);
						compare(s, "B01", out == Outcome::Ok ? "B01" : "B03", "construction from text");
					}
					else
					{
						const std::string_view v(t);
						out = libCall(op, [&] { b = v; });
						if (out == Outcome::Ok) { s.model = textBits(t); compare(s, "B01", "B01", "assignment of text"); }
						else failed(s, n, &s.model, "a failed assignment of text");
					}
					break;
				}
				case K_CTOR_VALUE:
				case K_ASSIGN_VALUE:
					switch (op.b % 4)
					{
						case 0: constructValue<Nz::UInt8>(s, op); break;
						case 1: constructValue<Nz::UInt16>(s, op); break;
						case 2: constructValue<Nz::UInt32>(s, op); break;
						default: constructValue<Nz::UInt64>(s, op); break;
					}
					break;
				case K_CTOR_DEFAULT: construct(s, Op{}, [&](void* mem) { new (mem) Set(); }); compare(s, "B01", "B01", "default construction"); break;
				case K_COPY_CONSTRUCT:
				{
					if (&s == &d) break;
					Outcome out = construct(d, op, [&](void* mem) { new (mem) Set(const_cast<const Set&>(*s.set)); });
					if (out == Outcome::Ok) d.model = s.model;
					compare(d, "B01", out == Outcome::Ok ? "B01" : "B03", "copy construction");
					compare(s, "B01", "B03", "the source of a copy");
					break;
				}
				case K_COPY_ASSIGN:
				{
					Outcome out = libCall(op, [&] { const Set& alias = *s.set; *d.set = alias; });
					if (out == Outcome::Ok) { d.model = s.model; compare(d, "B01", "B01", "copy assignment"); }
					else failed(d, 0, nullptr, "a failed copy assignment");
					compare(s, "B01", "B03", "the source of a copy");
					break;
				}
				case K_MOVE_CONSTRUCT:
				case K_MOVE_ASSIGN:
				{
					bool assign = op.kind == K_MOVE_ASSIGN;
					if (&s == &d && !assign) break;
					Bits m = s.model;
					if (assign) libCall(F_NONE, 0, [&] { Set& alias = *s.set; *d.set = std::move(alias); });
					else construct(d, Op{}, [&](void* mem) { new (mem) Set(std::move(*s.set)); });
					SIM_COUNT("reach:moved");
					if (&s != &d)
					{
						d.model = m;
						compare(d, "B03", "B01", "moving");
					}
					consistent(*s.set, "B03", "B01", "a moved-from bitset");
					s.model = observe(*s.set);
					compare(s, "B03", "B01", "a moved-from bitset");
					readAll(s);
					break;
				}
				case K_SWAP:
				{
					libCall(F_NONE, 0, [&] { if (val) s.set->Swap(*d.set); else std::swap(*s.set, *d.set); });
					if (&s != &d) std::swap(s.model, d.model);
					compare(s, "B03", "B01", "swap"); compare(d, "B03", "B01", "swap");
					break;
				}
				case K_APPEND:
				{
					std::size_t len = std::min(std::size_t(op.b), bound - n);
					switch (op.c / 3 % 4)
					{
						case 0: append<Nz::UInt8>(s, op, len); break;
						case 1: append<Nz::UInt16>(s, op, len); break;
						case 2: append<Nz::UInt32>(s, op, len); break;
						default: append<Nz::UInt64>(s, op, len); break;
					}
					break;
				}
				case K_WRITE:
				case K_FROM_POINTER: write(s, op); break;
				case K_STREAM: newStream(streams[std::size_t(op.client) % streams.size()], op.c); break;
				case K_CLEAR: libCall(F_NONE, 0, [&] { b.Clear(); }); s.model.clear(); compare(s, "B01", "B03", "Clear"); break;
				case K_FLIP: libCall(F_NONE, 0, [&] { b.Flip(); }); s.model.flip(); compare(s, "B01", "B01", "Flip"); break;
				case K_RESIZE:
				{
					std::size_t size = std::min(std::size_t(op.b), bound);
					Bits wanted = s.model;
					wanted.resize(size, val);
					Outcome out = libCall(op, [&] { if (val || op.c % 4) b.Resize(size, val); else b.Resize(size); });
					if (out == Outcome::Ok) { s.model = wanted; compare(s, "B01", "B01", "Resize"); }
					else failed(s, n, size > n ? &wanted : &s.model, "a failed Resize");
					break;
				}
				case K_RESERVE:
				{
					Outcome out = libCall(op, [&] { b.Reserve(std::min(std::size_t(op.b), bound)); });
					if (out != Outcome::Ok) SIM_COUNT("reach:failed-operation");
					compare(s, "B01", out == Outcome::Ok ? "B01" : "B03", "Reserve");
					CHECK("B01", "capacity", b.GetCapacity() >= b.GetSize(), "the capacity is %zu with %zu bits", b.GetCapacity(), b.GetSize());
					if (out == Outcome::Ok) CHECK("B01", "capacity", b.GetCapacity() >= std::min(std::size_t(op.b), bound), "after Reserve(%zu) the capacity is %zu", std::min(std::size_t(op.b), bound), b.GetCapacity());
					break;
				}
				case K_RESET: libCall(F_NONE, 0, [&] { b.Reset(); }); s.model.assign(n, false); compare(s, "B01", "B01", "Reset"); break;
				case K_SET_ALL: libCall(F_NONE, 0, [&] { b.Set(val); }); s.model.assign(n, val); compare(s, "B01", "B01", "Set"); break;
				case K_RESET_BIT:
				case K_SET_BIT:
					if (!n) break;
					libCall(F_NONE, 0, [&] { if (op.kind == K_RESET_BIT) b.Reset(bit); else b.Set(bit, val); });
					s.model[bit] = op.kind == K_SET_BIT && val;
					compare(s, "B01", "B01", "Set(bit)");
					break;
				case K_BIT_PROXY:
				{
					if (!n) break;
					std::size_t other = std::size_t(op.c / 16) % n;
					bool old = s.model[bit], now = old, src = s.model[other];
					libCall(F_NONE, 0, [&]
					{
						switch (op.c / 2 % 8)
						{
							case 0: b[bit] = val; now = val; break;
							case 1: b[bit] |= val; now = old || val; break;
							case 2: b[bit] &= val; now = old && val; break;
							case 3: b[bit] ^= val; now = old != val; break;
							case 4: b[bit] -= val; now = old && !val; break;
							case 5: b[bit].Flip(); now = !old; break;
							case 6: b[bit] = b[other]; now = src; break;
							default: if (val) b[bit].Reset(); else b[bit].Set(); now = !val; break;
						}
					});
					s.model[bit] = now;
					compare(s, "B01", "B01", "a bit proxy");
					break;
				}
				case K_SET_BLOCK:
				{
					if (!n) break;
					std::size_t k = std::size_t(op.b) % ((n + W - 1) / W);
					Block v = Block(valueFor(op.c));
					libCall(F_NONE, 0, [&] { b.SetBlock(k, v); });
					for (std::size_t i = 0; i < W && k * W + i < n; ++i) s.model[k * W + i] = (v >> i) & 1;
					compare(s, "B01", "B01", "SetBlock");
					break;
				}
				case K_REVERSE: libCall(F_NONE, 0, [&] { b.Reverse(); }); std::reverse(s.model.begin(), s.model.end()); compare(s, "B01", "B01", "Reverse"); break;
				case K_SHIFT_LEFT:
				case K_SHIFT_RIGHT:
				{
					std::size_t by = std::size_t(op.b);
					bool left = op.kind == K_SHIFT_LEFT;
					Bits r(n);
					for (std::size_t i = 0; i < n; ++i) r[i] = left ? (i >= by && s.model[i - by]) : (i + by < n && s.model[i + by]);
					Outcome out;
					switch (op.c % 3)
					{
						case 0: out = libCall(F_NONE, 0, [&] { if (left) b.ShiftLeft(by); else b.ShiftRight(by); }); break;
						case 1: out = libCall(F_NONE, 0, [&] { if (left) b <<= by; else b >>= by; }); break;
						default: out = libCall(op, [&] { const Set& c = b; b = left ? c << by : c >> by; }); break;
					}
					if (out == Outcome::Ok) { s.model = r; compare(s, "B01", "B01", "a shift"); }
					else failed(s, n, &s.model, "a failed shift");
					break;
				}
				case K_UNBOUNDED_SET:
				case K_UNBOUNDED_RESET:
				{
					std::size_t at = std::size_t(op.b);
					if (at >= bound) break;
					bool v = op.kind == K_UNBOUNDED_SET && (op.c % 4 != 3);
					Bits wanted = s.model;
					if (at < n) wanted[at] = v;
					else if (v) { wanted.resize(at + 1, false); wanted[at] = true; }
					Outcome out = libCall(op, [&] { if (op.kind == K_UNBOUNDED_RESET) b.UnboundedReset(at); else b.UnboundedSet(at, v); });
					if (out == Outcome::Ok) { s.model = wanted; compare(s, "B01", "B01", "UnboundedSet"); }
					else failed(s, n, &wanted, "a failed UnboundedSet");
					break;
				}
				case K_AND: binary(op, [](bool x, bool y) { return x && y; }); break;
				case K_OR: binary(op, [](bool x, bool y) { return x || y; }); break;
				case K_XOR: binary(op, [](bool x, bool y) { return x != y; }); break;
				case K_NOT:
				{
					Bits r = s.model;
					r.flip();
					Outcome out = libCall(op, [&] { if (val) d.set->PerformsNOT(*s.set); else *d.set = ~*s.set; });
					if (out == Outcome::Ok) { d.model = r; compare(d, "B01", "B01", "NOT"); }
					else failed(d, 0, nullptr, "a failed NOT");
					if (&s != &d) compare(s, "B01", "B03", "the operand of NOT");
					break;
				}
				case K_READ: readAll(s); break;
				case K_COMPARE: compareSlots(s, d); break;
				case K_PRINT:
				{
					if (!s.set) break;
					std::string expected;
					for (std::size_t i = s.model.size(); i-- > 0;) expected += s.model[i] ? '1' : '0';
					std::size_t room = op.c % 3 == 0 ? expected.size() * std::size_t(op.c % 11) / 11 : expected.size();
					Disk disk(room);
					std::ostream stream(&disk);
					const Set& c = *s.set;
					Outcome out = libCall(op, [&] { stream << c; });
					if (out != Outcome::Ok) { CHECK("B01", "text", disk.text.empty(), "a part of a bitset was printed before memory ran out"); break; }
					CHECK("B01", "text", disk.text == expected.substr(0, room) && stream.good() == (room == expected.size()), "a bitset is printed as %s instead of %s", disk.text.c_str(), expected.c_str());
					if (room < expected.size()) SIM_COUNT("reach:full-disk");
					break;
				}
			}
		}
		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			streams.resize(3);
			for (std::size_t i = 0; i < streams.size(); ++i) newStream(streams[i], plan.cfg[1] + int(i));
			for (Slot& s : slots) construct(s, Op{}, [&](void* mem) { new (mem) Set(); });
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				u64 h = 17;
				for (Slot& s : slots) { u64 c = 0; for (bool x : s.model) c = c * 3 + x; h = (h * 1000003 + s.model.size()) * 31 + c; event(s.model.size(), c); }
				noteState(h);
			}
			g_opIndex = idx;
			for (Slot& s : slots) { readAll(s); for (Slot& d : slots) compareSlots(s, d); }
			for (Slot& s : slots) destroy(s);
			for (Stream& st : streams) freeStream(st);
			checkNoLeftovers("B03");
		}
	};

	struct BitsetComponent : Component
	{
		BitsetComponent() { name = "bitset"; g_lifetimeProp = "B03"; }
		int variants() const override { return 8; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "Bitset<UInt8>", "Bitset<UInt16>", "Bitset<UInt32>", "Bitset<UInt64>", "HybridBitset<UInt8, 16>", "HybridBitset<UInt32, 24>", "FixedBitset<UInt64, 24>", "FixedBitset<UInt8, 80>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "B03", "B01", "B02" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 4);
			p.cfg = { n, r.range(1000), 256 };
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 3) : 0;
			for (int k : { K_CLEAR, K_RESET, K_SET_ALL, K_CTOR_DEFAULT }) w[std::size_t(k)] = std::min(w[std::size_t(k)], 1);
			w[K_APPEND] += r.range(4); w[K_WRITE] += r.range(4); w[K_RESIZE] += r.range(3);
			if (g_prop == "B02") { w[K_APPEND] += 4; w[K_WRITE] += 4; w[K_STREAM] += 1; }
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, true, false);
			bool small = r.chance(1, 2);
			int len = r.chance(1, 6) ? r.between(30, 80) : r.between(3, 30);
			static const int sizes[] = { 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 48, 63, 64, 65, 80, 96, 100, 127, 128, 129, 160, 191, 192, 200 };
			static const int largeSizes[] = { 250, 255, 256, 257, 300, 511, 512, 513, 640, 1023, 1024, 1025, 2040, 2047, 2048, 2049, 4095, 4096, 4097, 5000 };
			bool large = r.chance(1, 60); // more blocks, and bits, than fit a byte
			if (large) { w[K_RESIZE] += 2; p.cfg[2] = 5000; }
			bool huge = r.chance(1, 8000); // more bits than fit 16 bits; few operations, as each of them is slow
			if (huge) { large = true; p.cfg[2] = 66000; w[K_RESIZE] += 4; len = std::min(len, 8); }
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r);
				op.kind = r.pick(w);
				op.a = r.range(n);
				op.b = r.chance(1, 2) ? sizes[r.range(small ? 20 : 30)] : r.range(small ? 20 : 200);
				op.c = r.range(512);
				if (large && r.chance(2, 3)) { op.b = r.chance(2, 3) ? largeSizes[r.range(20)] : r.range(5000); op.c = r.range(100000); }
				if (huge && r.chance(2, 3)) op.b = r.chance(1, 2) ? r.between(65530, 65540) : r.between(65000, 66000);
				switch (op.kind)
				{
					case K_COPY_CONSTRUCT: case K_MOVE_CONSTRUCT: case K_COPY_ASSIGN: case K_MOVE_ASSIGN: case K_SWAP: case K_AND: case K_OR: case K_XOR: case K_NOT: case K_COMPARE: op.b = r.range(n); break;
					case K_APPEND: case K_WRITE: if (r.chance(2, 3)) op.b = r.range(20); break;
					default: break;
				}
				faults.apply(r, op);
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			std::size_t most = std::size_t(plan.cfg[2]);
			switch (plan.variant)
			{
				case 0: World<Nz::UInt8, std::vector<Nz::UInt8>>(plan, *this, most).run(); break;
				case 1: World<Nz::UInt16, std::vector<Nz::UInt16>>(plan, *this, most).run(); break;
				case 2: World<Nz::UInt32, std::vector<Nz::UInt32>>(plan, *this, most).run(); break;
				case 3: World<Nz::UInt64, std::vector<Nz::UInt64>>(plan, *this, most).run(); break;
				case 4: World<Nz::UInt8, Nz::HybridVector<Nz::UInt8, 2>>(plan, *this, most).run(); break;
				case 5: World<Nz::UInt32, Nz::HybridVector<Nz::UInt32, 3>>(plan, *this, most).run(); break;
				case 6: World<Nz::UInt64, Nz::FixedVector<Nz::UInt64, 3>>(plan, *this, 192).run(); break;
				case 7: World<Nz::UInt8, Nz::FixedVector<Nz::UInt8, 10>>(plan, *this, 80).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new BitsetComponent; }
