// Simulated clients walking shared buffers with strided cursors. Real code: SparsePtr, std algorithms running on it.
#include "sim.hpp"
#include <NazaraUtils/SparsePtr.hpp>
#include <algorithm>
#include <iterator>
#include <numeric>
#include <sys/mman.h>

using namespace sim;

namespace
{
	enum Kind { K_CREATE, K_CREATE_UNSIGNED, K_CREATE_DENSE, K_CREATE_NULL, K_COPY, K_ASSIGN, K_RESET, K_RESET_FROM, K_SET_PTR, K_SET_STRIDE, K_INC, K_DEC, K_POST_INC, K_POST_DEC,
		K_ADD, K_SUB, K_PLUS, K_MINUS, K_READ, K_WRITE, K_WRITE_AT, K_WRITE_STEP, K_COMPARE, K_CONST, K_BASE, K_SORT, K_REVERSE, K_ROTATE, K_COPY_RANGE, K_FILL, K_SEARCH, K_REVERSE_WALK, K_TAKE, K_COUNT };
	const char* const names[] = { "Create", "CreateUnsignedStride", "CreateDense", "CreateNull", "CopyConstruct", "Assign", "Reset", "ResetFrom", "SetPtr", "SetStride", "Increment", "Decrement", "PostIncrement", "PostDecrement",
		"Add", "Subtract", "Plus", "Minus", "Read", "Write", "WriteAt", "WriteAndStep", "Compare", "ConstCursor", "BaseCursor", "Sort", "Reverse", "Rotate", "CopyRange", "Fill", "Search", "ReverseWalk", "TakeAll" };

	struct Left { i64 left = 0; };
	struct Right { i64 right = 0; };
	struct Both : Left, Right // the second base is not at the address of the object
	{
		Both() = default;
		explicit Both(i64 v) { left = v; right = v ^ 0x55; }
	};
	template<typename T> i64 get(const T& v)
	{
		if constexpr (std::is_arithmetic_v<T>) return i64(v);
		else if constexpr (std::is_same_v<T, Both>) return v.right == (v.left ^ 0x55) ? v.left : -99;
		else return valueOf(v);
	}
	template<typename T> struct Less // may throw like any user code
	{
		bool operator()(const T& a, const T& b) const { HarnessScope hs; throwPoint(7); return get(a) < get(b); }
	};

	// Calls f with a value of one of the integer types
	template<typename F> void withInteger(int type, i64 v, F&& f)
	{
		if (v < 0 && (type % 8 == 1 || type % 8 == 3 || type % 8 == 5 || type % 8 == 7)) type++;
		switch (type % 8)
		{
			case 0: f((signed char)(v)); break;
			case 1: f((unsigned char)(v)); break;
			case 2: f(short(v)); break;
			case 3: f((unsigned short)(v)); break;
			case 4: f(int(v)); break;
			case 5: f(unsigned(v)); break;
			case 6: f((long long)(v)); break;
			case 7: f(std::size_t(v)); break;
		}
	}

	template<typename T>
	struct World
	{
		using Ptr = Nz::SparsePtr<T>;
		using ConstPtr = Nz::SparsePtr<const T>;
		static constexpr bool Tracked = !std::is_arithmetic_v<T> && !std::is_same_v<T, Both>;
		struct Buffer { unsigned char* mem = nullptr; std::size_t pitch = 0, bytes = 0; std::vector<i64> model; bool mapped = false; };
		struct Cursor { Ptr p; int buf = -1; i64 pos = 0, k = 0; }; // element index and elements per step
		const Plan& plan;
		const Component& comp;
		std::vector<Buffer> buffers;
		std::vector<Cursor> cursors;
		i64 nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		T* at(Buffer& b, i64 i) { return std::launder(reinterpret_cast<T*>(b.mem + std::size_t(i) * b.pitch)); }
		i64 count(const Buffer& b) const { return i64(b.model.size()); }
		void makeBuffer(Buffer& b, int n, int gap, bool huge)
		{
			b.pitch = sizeof(T) + std::size_t(gap) * alignof(T);
			if (huge) b.pitch = (std::size_t(1) << 27) + std::size_t(gap) * 4096;
			b.bytes = std::size_t(n + 1) * b.pitch;
			b.mapped = huge;
			if (huge)
			{
				void* p = mmap(nullptr, b.bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (p == MAP_FAILED) { b.mapped = false; b.pitch = sizeof(T); b.bytes = std::size_t(n + 1) * b.pitch; b.mem = static_cast<unsigned char*>(::operator new(b.bytes, std::align_val_t(64))); }
				else { SIM_COUNT("reach:offsets-beyond-2-GB"); b.mem = static_cast<unsigned char*>(p); }
			}
			else
				b.mem = static_cast<unsigned char*>(::operator new(b.bytes, std::align_val_t(64)));
			for (int i = 0; i < n; ++i) { new (b.mem + std::size_t(i) * b.pitch) T(nextVal); b.model.push_back(nextVal++); }
		}
		void freeBuffer(Buffer& b)
		{
			for (i64 i = 0; i < count(b); ++i) at(b, i)->~T();
			if (b.mapped) munmap(b.mem, b.bytes); else ::operator delete(b.mem, std::align_val_t(64));
		}
		bool inside(const Cursor& c, i64 steps) const { i64 i = c.pos + steps * c.k; return c.buf >= 0 && i >= 0 && i < count(buffers[std::size_t(c.buf)]); }
		bool reachable(const Cursor& c, i64 steps) const { i64 i = c.pos + steps * c.k; return c.buf >= 0 && i >= 0 && i <= count(buffers[std::size_t(c.buf)]); }
		const void* addressOf(const Cursor& c, i64 steps = 0)
		{
			if (c.buf < 0) return nullptr;
			Buffer& b = buffers[std::size_t(c.buf)];
			return b.mem + std::size_t(c.pos + steps * c.k) * b.pitch;
		}
		i64 strideOf(const Cursor& c) { return c.buf < 0 ? 0 : c.k * i64(buffers[std::size_t(c.buf)].pitch); }
		void checkCursor(Cursor& c, const char* what)
		{
			CHECK("Z01", "position", c.p.GetPtr() == addressOf(c), "%s: the cursor is %lld bytes away from element %lld", what, (long long)(static_cast<const unsigned char*>(c.p.GetPtr()) - static_cast<const unsigned char*>(addressOf(c))), (long long)c.pos);
			CHECK("Z01", "stride", c.buf < 0 || c.p.GetStride() == strideOf(c), "%s: the stride is %d instead of %lld", what, c.p.GetStride(), (long long)strideOf(c));
			CHECK("Z01", "bool", bool(c.p) == (c.buf >= 0), "%s: the cursor tests %d", what, int(bool(c.p)));
			CHECK("Z01", "position", static_cast<T*>(c.p) == addressOf(c), "%s: the conversion to a pointer gives another address", what);
		}
		void compareBuffers(const char* what)
		{
			for (Buffer& b : buffers)
				for (i64 i = 0; i < count(b); ++i)
				{
					i64 v = get(*at(b, i));
					CHECK("Z01", "content", v == b.model[std::size_t(i)], "%s: element %lld of a buffer is %lld instead of %lld", what, (long long)i, (long long)v, (long long)b.model[std::size_t(i)]);
				}
		}
		// After a failed algorithm its own range may hold anything, but nothing else may have changed
		void resync(const Cursor& c, i64 len, const char* what)
		{
			SIM_COUNT("reach:failed-algorithm");
			Buffer& b = buffers[std::size_t(c.buf)];
			for (i64 s = 0; s < len; ++s)
			{
				std::size_t i = std::size_t(c.pos + s * c.k);
				b.model[i] = get(*at(b, i64(i)));
			}
			compareBuffers(what);
		}
		i64 room(const Cursor& c) const // longest range that starts here
		{
			if (c.buf < 0 || c.k == 0) return 0;
			i64 n = count(buffers[std::size_t(c.buf)]);
			i64 len = c.k > 0 ? (n - c.pos + c.k - 1) / c.k : (c.pos >= n ? 0 : c.pos / -c.k + 1);
			// the end of a range must be an address inside the buffer or just past it
			while (len > 0 && !reachable(c, len)) --len;
			return std::max<i64>(len, 0);
		}
		std::vector<i64> gather(const Cursor& c, i64 len)
		{
			std::vector<i64> out;
			for (i64 s = 0; s < len; ++s) out.push_back(buffers[std::size_t(c.buf)].model[std::size_t(c.pos + s * c.k)]);
			return out;
		}
		void scatter(const Cursor& c, const std::vector<i64>& v)
		{
			for (std::size_t s = 0; s < v.size(); ++s) buffers[std::size_t(c.buf)].model[std::size_t(c.pos + i64(s) * c.k)] = v[s];
		}
		template<typename F> void moveTo(Cursor& c, i64 steps, const char* what, F&& f)
		{
			f();
			c.pos += steps * c.k;
			checkCursor(c, what);
		}
		bool place(const Op& op, int& buf, i64& pos, i64& k)
		{
			buf = op.b % int(buffers.size());
			pos = op.c % (count(buffers[std::size_t(buf)]) + 1);
			static const i64 steps[] = { 1, 2, -1, 3, -2, 1, 0, -3 };
			k = steps[(op.b / 4) % 8];
			if (buffers[std::size_t(buf)].mapped) k = std::max<i64>(-3, std::min<i64>(k, 3));
			return true;
		}

		void step(const Op& op)
		{
			Cursor& c = cursors[std::size_t(op.a) % cursors.size()];
			Cursor& d = cursors[std::size_t(op.b) % cursors.size()];
			int buf; i64 pos, k;
			switch (op.kind)
			{
				case K_CREATE:
				case K_RESET:
				{
					place(op, buf, pos, k);
					c.buf = buf; c.pos = pos; c.k = k;
					void* where = const_cast<void*>(addressOf(c));
					if (op.kind == K_CREATE) c.p = Ptr(where, int(strideOf(c))); else c.p.Reset(where, int(strideOf(c)));
					checkCursor(c, "creation");
					break;
				}
				case K_CREATE_UNSIGNED:
				{
					place(op, buf, pos, k);
					c.buf = buf; c.pos = pos; c.k = k < 0 ? -k : k;
					c.p = Ptr(const_cast<void*>(addressOf(c)), std::size_t(strideOf(c)));
					checkCursor(c, "creation");
					break;
				}
				case K_CREATE_DENSE:
				{
					place(op, buf, pos, k);
					if (buffers[std::size_t(buf)].pitch != sizeof(T)) break;
					c.buf = buf; c.pos = pos; c.k = 1;
					T* where = static_cast<T*>(const_cast<void*>(addressOf(c)));
					if (op.c % 2) c.p = Ptr(where); else c.p.Reset(where);
					checkCursor(c, "creation");
					break;
				}
				case K_CREATE_NULL:
					if (op.c % 2) c.p = Ptr(); else c.p.Reset();
					c.buf = -1; c.pos = c.k = 0;
					checkCursor(c, "creation");
					CHECK("Z01", "stride", c.p.GetStride() == 0, "a null cursor has stride %d", c.p.GetStride());
					break;
				case K_COPY: { Ptr copy(d.p); c.p = copy; c.buf = d.buf; c.pos = d.pos; c.k = d.k; checkCursor(c, "copy"); checkCursor(d, "being copied"); break; }
				case K_ASSIGN: { Ptr& alias = d.p; c.p = alias; c.buf = d.buf; c.pos = d.pos; c.k = d.k; checkCursor(c, "assignment"); break; }
				case K_RESET_FROM: { Ptr& alias = d.p; c.p.Reset(alias); c.buf = d.buf; c.pos = d.pos; c.k = d.k; checkCursor(c, "Reset from a cursor"); break; }
				case K_SET_PTR:
					if (c.buf < 0) break;
					c.pos = op.c % (count(buffers[std::size_t(c.buf)]) + 1);
					c.p.SetPtr(const_cast<void*>(addressOf(c)));
					checkCursor(c, "SetPtr");
					break;
				case K_SET_STRIDE:
					if (c.buf < 0) break;
					place(op, buf, pos, k);
					c.k = k;
					c.p.SetStride(int(strideOf(c)));
					checkCursor(c, "SetStride");
					break;
				case K_INC: if (reachable(c, 1)) moveTo(c, 1, "++", [&] { Ptr& r = ++c.p; CHECK("Z01", "result", &r == &c.p, "++ returns another cursor"); }); break;
				case K_DEC: if (reachable(c, -1)) moveTo(c, -1, "--", [&] { Ptr& r = --c.p; CHECK("Z01", "result", &r == &c.p, "-- returns another cursor"); }); break;
				case K_POST_INC: if (reachable(c, 1)) { Cursor old = c; moveTo(c, 1, "post-increment", [&] { old.p = c.p++; }); checkCursor(old, "result of post-increment"); } break;
				case K_POST_DEC: if (reachable(c, -1)) { Cursor old = c; moveTo(c, -1, "post-decrement", [&] { old.p = c.p--; }); checkCursor(old, "result of post-decrement"); } break;
				case K_ADD:
				case K_SUB:
				{
					i64 n = op.c % 13 - 6;
					i64 steps = op.kind == K_ADD ? n : -n;
					if (!reachable(c, steps)) break;
					moveTo(c, steps, op.kind == K_ADD ? "+=" : "-=", [&] { withInteger(op.b, n, [&](auto v) { Ptr& r = op.kind == K_ADD ? (c.p += v) : (c.p -= v); CHECK("Z01", "result", &r == &c.p, "the assignment returns another cursor"); }); });
					break;
				}
				case K_PLUS:
				case K_MINUS:
				{
					i64 n = op.c % 13 - 6;
					i64 steps = op.kind == K_PLUS ? n : -n;
					if (!reachable(c, steps)) break;
					Cursor r = c;
					r.p = Ptr();
					withInteger(op.b, n, [&](auto v) { r.p = op.kind == K_PLUS ? (c.p + v) : (c.p - v); });
					r.pos += steps * c.k;
					checkCursor(r, op.kind == K_PLUS ? "+" : "-");
					checkCursor(c, "being added to");
					if (c.k != 0)
					{
						CHECK("Z01", "difference", r.p - c.p == steps && c.p - r.p == -steps, "two cursors %lld steps apart have difference %lld", (long long)steps, (long long)(r.p - c.p));
						order(c, r, -steps);
					}
					if (op.b % 3 == 0) c = r;
					break;
				}
				case K_READ:
				{
					for (i64 i = -6; i <= 6; ++i)
						if (inside(c, i))
							withInteger(op.b, i, [&](auto v) { const T& e = c.p[v]; CHECK("Z01", "index", &e == addressOf(c, i), "index %lld gives an element %lld bytes away", (long long)i, (long long)(reinterpret_cast<const unsigned char*>(&e) - static_cast<const unsigned char*>(addressOf(c, i)))); });
					if (inside(c, 0)) CHECK("Z01", "dereference", &*c.p == addressOf(c) && c.p.operator->() == addressOf(c), "dereferencing gives another element");
					break;
				}
				case K_WRITE:
				case K_WRITE_AT:
				case K_WRITE_STEP:
				{
					i64 i = op.kind == K_WRITE_AT ? op.c % 9 - 4 : 0;
					if (!inside(c, i)) break;
					if (op.kind == K_WRITE_STEP && !reachable(c, 1)) break;
					i64 val = nextVal++;
					T arg(val);
					Outcome out = libCall(op, [&]
					{
						if (op.kind == K_WRITE_AT) withInteger(op.b, i, [&](auto v) { c.p[v] = arg; });
						else if (op.kind == K_WRITE) *c.p = arg;
						else *c.p++ = arg;
					});
					if (out == Outcome::Ok) buffers[std::size_t(c.buf)].model[std::size_t(c.pos + i * c.k)] = val;
					else SIM_COUNT("reach:failed-write");
					if (op.kind == K_WRITE_STEP) c.pos += c.k; // the right operand is evaluated first, the step is taken before the assignment fails
					checkCursor(c, "writing");
					break;
				}
				case K_COMPARE:
				{
					CHECK("Z01", "equality", (c.p == d.p) == (addressOf(c) == addressOf(d)) && (c.p != d.p) == (addressOf(c) != addressOf(d)), "equality of two cursors is wrong");
					if (c.buf >= 0 && c.buf == d.buf && c.k == d.k && c.k != 0 && (c.pos - d.pos) % c.k == 0)
					{
						i64 diff = (c.pos - d.pos) / c.k;
						CHECK("Z01", "difference", c.p - d.p == diff, "two cursors %lld steps apart have difference %lld", (long long)diff, (long long)(c.p - d.p));
						order(c, d, diff);
					}
					break;
				}
				case K_CONST:
				{
					ConstPtr r(c.p);
					Cursor rc; rc.buf = c.buf; rc.pos = c.pos; rc.k = c.k;
					CHECK("Z01", "position", r.GetPtr() == addressOf(c) && (c.buf < 0 || r.GetStride() == strideOf(c)), "a cursor on constant elements is at another place");
					ConstPtr again;
					again.Reset(c.p);
					CHECK("Z01", "position", again == r && bool(again) == bool(c.p), "Reset of a cursor on constant elements gives another place");
					for (i64 i = -3; i <= 3; ++i)
						if (inside(c, i)) CHECK("Z01", "index", &r[int(i)] == addressOf(c, i) && &*(r + int(i)) == addressOf(c, i), "index %lld of a cursor on constant elements gives another element", (long long)i);
					break;
				}
				case K_BASE:
					if constexpr (std::is_same_v<T, Both>)
					{
						SIM_COUNT("reach:cursor-on-second-base");
						Nz::SparsePtr<Right> r(c.p);
						CHECK("Z01", "base", bool(r) == bool(c.p), "a cursor on a base tests %d", int(bool(r)));
						Nz::SparsePtr<const Right> cr;
						cr.Reset(c.p);
						for (i64 i = -3; i <= 3; ++i)
							if (inside(c, i))
							{
								Right* expected = static_cast<const T*>(addressOf(c, i)) ? static_cast<Right*>(static_cast<T*>(const_cast<void*>(addressOf(c, i)))) : nullptr;
								CHECK("Z01", "base", &r[i] == expected && &cr[i] == expected, "index %lld of a cursor on a base is %lld bytes away from that base", (long long)i, (long long)(reinterpret_cast<unsigned char*>(&r[i]) - reinterpret_cast<unsigned char*>(expected)));
							}
					}
					break;
				case K_SORT:
				case K_REVERSE:
				case K_ROTATE:
				{
					i64 len = std::min<i64>(room(c), op.c);
					if (len < 1 || c.k < 1) break; // these algorithms may compare iterators, whose order is the one of the addresses
					std::vector<i64> v = gather(c, len);
					i64 mid = op.b % len;
					int flavour = op.b / 8 % 3;
					Cursor saved = c;
					Outcome out = libCall(op, [&]
					{
						Ptr first = c.p, last = c.p + len;
						if (op.kind == K_REVERSE) std::reverse(first, last);
						else if (op.kind == K_ROTATE) std::rotate(first, first + mid, last);
						else if (flavour == 0) std::sort(first, last, Less<T>());
						else if (flavour == 1) std::stable_sort(first, last, Less<T>());
						else { std::make_heap(first, last, Less<T>()); std::sort_heap(first, last, Less<T>()); }
					});
					if (out != Outcome::Ok) { resync(saved, len, "a failed algorithm"); break; }
					if (op.kind == K_REVERSE) std::reverse(v.begin(), v.end());
					else if (op.kind == K_ROTATE) std::rotate(v.begin(), v.begin() + mid, v.end());
					else std::stable_sort(v.begin(), v.end());
					scatter(saved, v);
					if (op.kind == K_SORT) CHECK("Z01", "sorted", std::is_sorted(c.p, c.p + len, [](const T& a, const T& b) { return get(a) < get(b); }), "a sorted range is not sorted");
					break;
				}
				case K_COPY_RANGE:
				{
					i64 len = std::min<i64>({ room(c), room(d), i64(op.c) });
					if (len < 1 || c.buf == d.buf) break;
					std::vector<i64> v = gather(c, len);
					Cursor target = d;
					Ptr end;
					Outcome out = libCall(op, [&] { end = op.b % 2 ? std::copy(c.p, c.p + len, d.p) : std::copy_backward(c.p, c.p + len, d.p + len); });
					if (out != Outcome::Ok) { resync(target, len, "a failed copy"); break; }
					scatter(target, v);
					target.pos += (op.b % 2 ? len : 0) * target.k;
					target.p = end;
					checkCursor(target, "end of a copy");
					break;
				}
				case K_FILL:
				{
					i64 len = std::min<i64>(room(c), op.c);
					if (len < 1) break;
					i64 val = nextVal++;
					T arg(val);
					Outcome out = libCall(op, [&] { std::fill(c.p, c.p + len, arg); });
					if (out != Outcome::Ok) { resync(c, len, "a failed fill"); break; }
					scatter(c, std::vector<i64>(std::size_t(len), val));
					break;
				}
				case K_SEARCH:
				{
					i64 len = room(c);
					if (len < 1) break;
					std::vector<i64> v = gather(c, len);
					i64 val = v[std::size_t(op.c) % v.size()];
					auto eq = [&](const T& e) { return get(e) == val; };
					i64 found = std::find_if(c.p, c.p + len, eq) - c.p;
					CHECK("Z01", "search", found == std::find(v.begin(), v.end(), val) - v.begin(), "find gives position %lld", (long long)found);
					i64 n = std::count_if(c.p, c.p + len, eq);
					CHECK("Z01", "search", n == std::count(v.begin(), v.end(), val), "count gives %lld", (long long)n);
					CHECK("Z01", "difference", std::distance(c.p, c.p + len) == len && std::next(c.p, len) - c.p == len, "distance gives %lld instead of %lld", (long long)std::distance(c.p, c.p + len), (long long)len);
					if (std::is_sorted(v.begin(), v.end()))
					{
						i64 lower = std::lower_bound(c.p, c.p + len, val, [](const T& e, i64 x) { return get(e) < x; }) - c.p;
						CHECK("Z01", "search", lower == std::lower_bound(v.begin(), v.end(), val) - v.begin(), "lower_bound gives position %lld", (long long)lower);
					}
					break;
				}
				case K_REVERSE_WALK: // reverse iterators reach and change the elements
				{
					i64 len = std::min<i64>(room(c), op.c);
					if (len < 1) break;
					std::vector<i64> v = gather(c, len);
					Outcome out = libCall(op, [&]
					{
						auto it = std::make_reverse_iterator(c.p + len), end = std::make_reverse_iterator(c.p);
						for (i64 i = len; it != end; ++it, --i)
						{
							CHECK("Z01", "iteration", i > 0, "reverse iteration visits more than %lld elements", (long long)len);
							CHECK("Z01", "iteration", get(*it) == v[std::size_t(i - 1)], "reverse iteration gives %lld at position %lld", (long long)get(*it), (long long)(i - 1));
							*it = T(i + 1000);
						}
					});
					if (out != Outcome::Ok) { resync(c, len, "a failed reverse walk"); break; }
					for (i64 i = 0; i < len; ++i) v[std::size_t(i)] = i + 1001;
					scatter(c, v);
					break;
				}
				case K_TAKE: // move iterators take the elements
					if constexpr (Tracked)
					{
						i64 len = std::min<i64>(room(c), op.c);
						if (len < 1) break;
						std::vector<i64> v = gather(c, len);
						u64 copies = g_ledger.copies;
						std::vector<T> out;
						out.reserve(std::size_t(len));
						Outcome o = libCall(op, [&] { for (auto it = std::make_move_iterator(c.p), end = std::make_move_iterator(c.p + len); it != end; ++it) out.push_back(*it); });
						CHECK("Z01", "copied", g_ledger.copies == copies, "elements taken through a move iterator are copied");
						for (std::size_t i = 0; i < out.size(); ++i) CHECK("Z01", "content", get(out[i]) == v[i], "element %zu taken is %lld", i, (long long)get(out[i]));
						CHECK("Z01", "iteration", o != Outcome::Ok || i64(out.size()) == len, "%zu elements of %lld were taken", out.size(), (long long)len);
						for (std::size_t i = 0; i < out.size(); ++i) v[i] = MovedFrom;
						scatter(c, v);
					}
					break;
			}
		}
		void order(Cursor& a, Cursor& b, i64 diff) // a is diff steps after b; the documented order is the one of the addresses
		{
			if (a.k < 0) diff = -diff;
			CHECK("Z01", "order", (a.p < b.p) == (diff < 0) && (a.p > b.p) == (diff > 0) && (a.p <= b.p) == (diff <= 0) && (a.p >= b.p) == (diff >= 0) && (a.p == b.p) == (diff == 0),
				"two cursors %lld steps apart (stride %d) compare %d %d %d %d", (long long)diff, a.p.GetStride(), int(a.p < b.p), int(a.p <= b.p), int(a.p > b.p), int(a.p >= b.p));
		}
		void run()
		{
			std::size_t n = std::size_t(plan.cfg[0]);
			buffers.resize(n);
			std::size_t elements = 0;
			for (std::size_t i = 0; i < n; ++i)
			{
				bool huge = !Tracked && plan.cfg[2 + i * 2] == 9;
				makeBuffer(buffers[i], plan.cfg[1 + i * 2], plan.cfg[2 + i * 2] % 9, huge);
				elements += buffers[i].model.size();
			}
			cursors.resize(4);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				compareBuffers(names[op.kind]);
				u64 h = 5;
				for (Cursor& c : cursors) { checkCursor(c, names[op.kind]); h = h * 1000003 + u64(c.buf + 2) * 64 + u64(c.pos) * 7 + u64(c.k + 8); }
				if (Tracked) CHECK("Z01", "object-count", g_ledger.live.size() == elements, "%zu elements are alive, the buffers hold %zu", g_ledger.live.size(), elements);
				noteState(h);
			}
			g_opIndex = idx;
			for (Buffer& b : buffers) freeBuffer(b);
			checkNoLeftovers("Z01");
		}
	};

	struct SparseComponent : Component
	{
		SparseComponent() { name = "sparse"; g_lifetimeProp = "Z01"; }
		int variants() const override { return 3; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "SparsePtr<Elem(copy and move throw)>", "SparsePtr<int>", "SparsePtr<struct with two bases>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "Z01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 2);
			p.cfg.push_back(n);
			for (int i = 0; i < n; ++i)
			{
				p.cfg.push_back(r.between(1, r.chance(1, 4) ? 30 : 10));
				p.cfg.push_back(r.chance(1, 12) ? 9 : r.chance(1, 3) ? 0 : r.range(5));
			}
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
			w[K_CREATE] += 2; w[K_CREATE_NULL] = std::min(w[K_CREATE_NULL], 1);
			Scheduler sched(r, r.between(1, 3));
			FaultMix faults(r, true, true);
			int len = r.chance(1, 6) ? r.between(20, 60) : r.between(2, 20);
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(4); op.b = r.range(64); op.c = r.range(32);
				faults.apply(r, op);
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Elem<ThrowingMove>>(plan, *this).run(); break;
				case 1: World<int>(plan, *this).run(); break;
				case 2: World<Both>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new SparseComponent; }
