// Simulated clients sharing sequence containers (FixedVector, HybridVector, StackVector).
// Reference model: std::vector<i64>. An adapter describes the container under test.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <set>

namespace seq
{
	using namespace sim;

	enum Kind
	{
		K_PUSH_COPY, K_PUSH_MOVE, K_PUSH_ALIAS, K_EMPLACE_BACK, K_EMPLACE_BACK_ALIAS, K_INSERT_COPY, K_INSERT_MOVE, K_INSERT_ALIAS, K_EMPLACE,
		K_ERASE, K_ERASE_RANGE, K_POP, K_CLEAR, K_RESIZE, K_RESIZE_VALUE, K_RESIZE_ALIAS, K_RESERVE,
		K_COPY_CONSTRUCT, K_MOVE_CONSTRUCT, K_COPY_ASSIGN, K_MOVE_ASSIGN, K_SWAP, K_CTOR_SIZE, K_CTOR_RANGE, K_CTOR_INIT, K_RECREATE, K_WRITE, K_READ, K_COUNT
	};
	inline const char* const names[] = {
		"PushBackCopy", "PushBackMove", "PushBackOwnElement", "EmplaceBack", "EmplaceBackOwnElement", "InsertCopy", "InsertMove", "InsertOwnElement", "Emplace",
		"Erase", "EraseRange", "PopBack", "Clear", "Resize", "ResizeValue", "ResizeOwnElement", "Reserve",
		"CopyConstruct", "MoveConstruct", "CopyAssign", "MoveAssign", "Swap", "ConstructSized", "ConstructRange", "ConstructList", "Recreate", "Write", "Read" };

	struct Props { const char* model; const char* life; };

	template<typename T> struct Maker { static T make(i64 v) { return T(v); } };
	template<> struct Maker<int> { static int make(i64 v) { return int(v); } };
	template<typename T> bool isTracked() { return !std::is_arithmetic_v<T>; }
	template<typename T> i64 get(const T& v) { if constexpr (std::is_arithmetic_v<T>) return i64(v); else return valueOf(v); }

	template<typename A>
	struct World
	{
		using Vec = typename A::Vec;
		using T = typename Vec::value_type;
		static constexpr bool CanCopy = std::is_copy_constructible_v<T>;
		static constexpr bool CanDefault = std::is_default_constructible_v<T>;
		static constexpr bool StrongTransfer = CanCopy || std::is_nothrow_move_constructible_v<T>;

		struct Slot
		{
			Vec* vec = nullptr;
			std::vector<i64> model;
			std::size_t bound = 0; // how many elements a simulated client may store
		};
		const Plan& plan;
		const Component& comp;
		Props props;
		std::vector<Slot> slots;
		std::vector<void*> buffers; // storage handed to stack vectors: lives as long as the simulated frame
		i64 nextVal = 1;

		World(const Plan& p, const Component& c, Props pr) : plan(p), comp(c), props(pr) {}

		std::vector<i64> observe(Vec& v)
		{
			std::vector<i64> out;
			std::size_t n = 0;
			{ LibScope ls; n = v.size(); }
			if (n > 100000) violateNow(g_prop.empty() ? props.model : g_prop.c_str(), "absurd-size", "the size is %zu", n);
			for (std::size_t i = 0; i < n; ++i)
			{
				const T* p;
				{ LibScope ls; p = &v[i]; }
				out.push_back(get(*p));
			}
			return out;
		}
		// after a failure or a move the content is whatever the vector says, as long as every element is alive and known
		void resync(Slot& s, const std::vector<i64>& known, const char* what)
		{
			std::vector<i64> now = observe(*s.vec);
			CHECK(props.life, "size-after-failure", now.size() <= s.model.size() + known.size() + 64, "after %s the size is %zu", what, now.size());
			for (i64 v : now)
			{
				bool ok = v == MovedFrom || v == 0 || std::find(known.begin(), known.end(), v) != known.end() || std::find(s.model.begin(), s.model.end(), v) != s.model.end();
				CHECK(props.model, "unknown-value", ok, "after %s an element holds %lld, which nobody stored", what, (long long)v);
			}
			s.model = std::move(now);
		}
		void compare(Slot& s, const char* cls, const char* what)
		{
			std::vector<i64> now = observe(*s.vec);
			if (now == s.model) return;
			CHECK(props.model, cls, now.size() == s.model.size(), "%s: the size is %zu instead of %zu", what, now.size(), s.model.size());
			for (std::size_t i = 0; i < now.size() && i < s.model.size(); ++i)
				CHECK(props.model, cls, now[i] == s.model[i], "%s: element %zu of %zu is %lld instead of %lld", what, i, now.size(), (long long)now[i], (long long)s.model[i]);
			s.model = std::move(now);
		}
		void readAll(Slot& s)
		{
			Vec& v = *s.vec;
			const Vec& c = v;
			const std::vector<i64>& m = s.model;
			auto check = [&](const char* how, auto first, auto last, bool reverse)
			{
				std::size_t i = 0;
				while (!(first == last))
				{
					CHECK(props.model, "iteration", i < m.size(), "%s visits more than %zu elements", how, m.size());
					if (i >= m.size()) return;
					i64 expected = reverse ? m[m.size() - 1 - i] : m[i];
					i64 got = get(*first);
					CHECK(props.model, "iteration", got == expected, "%s gives %lld instead of %lld at step %zu", how, (long long)got, (long long)expected, i);
					++first; ++i;
				}
				CHECK(props.model, "iteration", i == m.size(), "%s visits %zu of %zu elements", how, i, m.size());
			};
			check("begin()", v.begin(), v.end(), false);
			check("const begin()", c.begin(), c.end(), false);
			check("cbegin()", c.cbegin(), c.cend(), false);
			check("rbegin()", v.rbegin(), v.rend(), true);
			check("const rbegin()", c.rbegin(), c.rend(), true);
			check("crbegin()", c.crbegin(), c.crend(), true);
			check("data()", v.data(), v.data() + v.size(), false);
			CHECK(props.model, "misaligned", m.empty() || reinterpret_cast<std::uintptr_t>(v.data()) % alignof(T) == 0, "the storage is not aligned to %zu", alignof(T));
			check("const data()", c.data(), c.data() + c.size(), false);
			CHECK(props.model, "size", c.size() == m.size() && c.empty() == m.empty(), "size() is %zu, empty() is %d with %zu elements", c.size(), int(c.empty()), m.size());
			CHECK(props.model, "capacity", c.capacity() >= c.size() && c.max_size() >= c.size(), "capacity() is %zu and max_size() is %zu with %zu elements", c.capacity(), c.max_size(), c.size());
			if (!m.empty())
			{
				CHECK(props.model, "front-back", get(v.front()) == m.front() && get(c.front()) == m.front() && get(v.back()) == m.back() && get(c.back()) == m.back(), "front()/back() are %lld and %lld instead of %lld and %lld",
					(long long)get(v.front()), (long long)get(v.back()), (long long)m.front(), (long long)m.back());
				for (std::size_t i = 0; i < m.size(); ++i)
					CHECK(props.model, "index", get(c[i]) == m[i] && get(v[i]) == m[i], "element %zu is %lld instead of %lld", i, (long long)get(c[i]), (long long)m[i]);
			}
		}
		void checkUniverse()
		{
			std::size_t n = 0;
			u64 h = 17;
			for (Slot& s : slots)
			{
				if (!s.vec) { h = h * 1000003 + 5; continue; }
				std::size_t size;
				{ LibScope ls; size = s.vec->size(); }
				n += size;
				h = (h * 1000003 + size) * 31 + A::mode(*s.vec);
				for (i64 v : s.model) h = h * 31 + u64(v == MovedFrom ? 2 : v == 0 ? 1 : 3);
			}
			if (isTracked<T>())
				CHECK(props.life, "object-count", g_ledger.live.size() == n, "%zu elements are alive, the vectors hold %zu", g_ledger.live.size(), n);
			noteState(h);
		}

		// construct a vector in slot s; on failure the slot holds a fresh empty one
		template<typename F> Outcome construct(Slot& s, const Op& op, F&& f)
		{
			destroy(s);
			void* mem = ::operator new(sizeof(Vec), std::align_val_t(128));
			Outcome out = libCall(op, [&] { f(mem); });
			if (out == Outcome::Ok) { s.vec = static_cast<Vec*>(mem); return out; }
			SIM_COUNT("reach:failed-construction");
			::operator delete(mem, std::align_val_t(128));
			fresh(s);
			return out;
		}
		void destroy(Slot& s)
		{
			if (!s.vec) return;
			Vec* v = s.vec;
			s.vec = nullptr;
			libCall(F_NONE, 0, [&] { v->~Vec(); });
			::operator delete(static_cast<void*>(v), std::align_val_t(128));
			s.model.clear();
		}
		void fresh(Slot& s)
		{
			void* mem = ::operator new(sizeof(Vec), std::align_val_t(128));
			std::size_t bound = std::size_t(plan.cfg[2]);
			libCall(F_NONE, 0, [&] { A::create(mem, bound, buffers); });
			s.vec = static_cast<Vec*>(mem);
			s.bound = A::limit(bound);
			s.model.clear();
		}

		// outcome of an operation that appends or inserts one element
		void grown(Slot& s, Outcome out, std::size_t pos, i64 val, bool atEnd, const char* what)
		{
			if (out == Outcome::Ok)
			{
				s.model.insert(s.model.begin() + std::ptrdiff_t(pos), val);
				compare(s, "content", what);
				return;
			}
			SIM_COUNT("reach:failed-growth");
			if (atEnd && StrongTransfer)
				compare(s, "append-not-strong", "after a failed append");
			else
				resync(s, { val }, what);
		}
		void ref(Slot& s, const T* r, std::size_t pos, const char* what)
		{
			const T* expected;
			{ LibScope ls; expected = s.vec->data() + pos; }
			CHECK(props.model, "returned-position", r == expected, "%s does not return the position of element %zu", what, pos);
		}

		// whatever fits the capacity is added without moving the storage: pointers to the elements before it stay good
		void step(const Op& op)
		{
			Slot& s = slots[std::size_t(op.a) % slots.size()];
			if (!s.vec) fresh(s);
			if (op.kind > K_EMPLACE && op.kind != K_RESIZE && op.kind != K_RESIZE_VALUE && op.kind != K_RESIZE_ALIAS && op.kind != K_RESERVE) { apply(s, op); return; }
			const T* data;
			std::size_t size, capacity;
			{ LibScope ls; data = s.vec->data(); size = s.vec->size(); capacity = s.vec->capacity(); }
			apply(s, op);
			LibScope ls;
			if (s.vec->size() > size && s.vec->size() <= capacity)
				CHECK(props.model, "storage-moved", s.vec->data() == data, "%s moved the storage although %zu elements fit the capacity of %zu", names[op.kind], s.vec->size(), capacity);
			if (capacity > s.vec->capacity())
				CHECK(props.model, "capacity", false, "%s shrank the capacity from %zu to %zu", names[op.kind], capacity, s.vec->capacity());
		}

		void apply(Slot& s, const Op& op)
		{
			Vec& v = *s.vec;
			std::size_t n = s.model.size();
			std::size_t pos = std::size_t(op.b) % (n + 1);
			bool room = n < s.bound;
			i64 val = nextVal;
			if (n && pos < n && s.model[pos] == MovedFrom) SIM_COUNT("reach:moved-from-element");
			switch (op.kind)
			{
				case K_PUSH_COPY:
					if constexpr (CanCopy)
					{
						if (!room) break;
						nextVal++;
						const T* r = nullptr;
						Outcome out;
						{
							T arg = Maker<T>::make(val);
							out = libCall(op, [&] { r = &v.push_back(const_cast<const T&>(arg)); });
							CHECK(props.model, "argument-changed", get(arg) == val, "push_back(const T&) changed its argument");
						}
						grown(s, out, n, val, true, "push_back(const T&)");
						if (out == Outcome::Ok) ref(s, r, n, "push_back");
					}
					break;
				case K_PUSH_MOVE:
				{
					if (!room) break;
					nextVal++;
					const T* r = nullptr;
					Outcome out;
					{
						T arg = Maker<T>::make(val);
						out = libCall(op, [&] { r = &v.push_back(std::move(arg)); });
						if (out == Outcome::Ok && isTracked<T>())
							CHECK(props.model, "not-moved", get(arg) == MovedFrom, "push_back(T&&) did not move its argument");
					}
					grown(s, out, n, val, true, "push_back(T&&)");
					if (out == Outcome::Ok) ref(s, r, n, "push_back");
					break;
				}
				case K_PUSH_ALIAS:
				case K_EMPLACE_BACK_ALIAS:
					if constexpr (CanCopy)
					{
						if (!room || pos >= n) break;
						SIM_COUNT("reach:argument-is-own-element");
						i64 old = s.model[pos];
						Outcome out = libCall(op, [&] { if (op.kind == K_PUSH_ALIAS) v.push_back(const_cast<const T&>(v[pos])); else v.emplace_back(const_cast<const T&>(v[pos])); });
						grown(s, out, n, old, true, "appending an own element");
					}
					break;
				case K_EMPLACE_BACK:
				{
					if (!room) break;
					nextVal++;
					const T* r = nullptr;
					Outcome out;
					if (CanCopy && isTracked<T>() && op.b % 2) // of move-only elements: see uses/vector_move_only.cpp
					{
						if constexpr (CanCopy)
						{
							T arg = Maker<T>::make(val);
							out = libCall(op, [&] { r = &v.emplace_back(std::move(arg)); });
							if (out == Outcome::Ok)
								CHECK(props.model, "not-moved", get(arg) == MovedFrom, "emplace_back did not move its argument");
						}
					}
					else
						out = libCall(op, [&] { r = &v.emplace_back(typename A::Arg(val)); });
					grown(s, out, n, val, true, "emplace_back");
					if (out == Outcome::Ok) ref(s, r, n, "emplace_back");
					break;
				}
				case K_INSERT_COPY:
				case K_INSERT_ALIAS:
					if constexpr (CanCopy)
					{
						if (!room) break;
						Outcome out;
						const T* r = nullptr;
						if (op.kind == K_INSERT_ALIAS)
						{
							if (!n) break;
							SIM_COUNT("reach:argument-is-own-element");
							std::size_t from = std::size_t(op.c) % n;
							val = s.model[from];
							out = libCall(op, [&] { r = v.insert(v.cbegin() + std::ptrdiff_t(pos), const_cast<const T&>(v[from])); });
						}
						else
						{
							nextVal++;
							T arg = Maker<T>::make(val);
							out = libCall(op, [&] { r = v.insert(v.cbegin() + std::ptrdiff_t(pos), const_cast<const T&>(arg)); });
							CHECK(props.model, "argument-changed", get(arg) == val, "insert(const T&) changed its argument");
						}
						grown(s, out, pos, val, pos == n, "insert");
						if (out == Outcome::Ok) ref(s, r, pos, "insert");
					}
					break;
				case K_INSERT_MOVE:
				case K_EMPLACE:
				{
					if (!room) break;
					nextVal++;
					const T* r = nullptr;
					Outcome out;
					if (op.kind == K_INSERT_MOVE)
					{
						T arg = Maker<T>::make(val);
						out = libCall(op, [&] { r = v.insert(v.cbegin() + std::ptrdiff_t(pos), std::move(arg)); });
						if (out == Outcome::Ok && isTracked<T>())
							CHECK(props.model, "not-moved", get(arg) == MovedFrom, "insert(T&&) did not move its argument");
					}
					else
					{
						if (CanCopy && isTracked<T>() && op.c % 2)
						{
							if constexpr (CanCopy)
							{
								T arg = Maker<T>::make(val);
								out = libCall(op, [&] { r = v.emplace(v.cbegin() + std::ptrdiff_t(pos), std::move(arg)); });
								if (out == Outcome::Ok)
									CHECK(props.model, "not-moved", get(arg) == MovedFrom, "emplace did not move its argument");
							}
						}
						else
							out = libCall(op, [&] { r = v.emplace(v.cbegin() + std::ptrdiff_t(pos), typename A::Arg(val)); });
					}
					grown(s, out, pos, val, pos == n, "insert");
					if (out == Outcome::Ok) ref(s, r, pos, "insert");
					break;
				}
				case K_ERASE:
				{
					if (pos >= n) break;
					const T* r = nullptr;
					Outcome out = libCall(op, [&] { r = v.erase(v.cbegin() + std::ptrdiff_t(pos)); });
					if (out != Outcome::Ok) { resync(s, {}, "a failed erase"); break; }
					s.model.erase(s.model.begin() + std::ptrdiff_t(pos));
					compare(s, "content", "erase");
					ref(s, r, pos, "erase");
					break;
				}
				case K_ERASE_RANGE:
					if constexpr (CanDefault)
					{
						std::size_t last = pos + std::size_t(op.c) % (n - pos + 1);
						const T* r = nullptr;
						Outcome out = libCall(op, [&] { r = v.erase(v.cbegin() + std::ptrdiff_t(pos), v.cbegin() + std::ptrdiff_t(last)); });
						if (out != Outcome::Ok) { resync(s, {}, "a failed erase"); break; }
						s.model.erase(s.model.begin() + std::ptrdiff_t(pos), s.model.begin() + std::ptrdiff_t(last));
						compare(s, "content", "erase of a range");
						ref(s, r, pos, "erase of a range");
					}
					break;
				case K_POP:
					if (!n) break;
					libCall(F_NONE, 0, [&] { v.pop_back(); });
					s.model.pop_back();
					compare(s, "content", "pop_back");
					break;
				case K_CLEAR:
					libCall(F_NONE, 0, [&] { v.clear(); });
					s.model.clear();
					compare(s, "content", "clear");
					break;
				case K_RESIZE:
					if constexpr (CanDefault)
					{
						std::size_t count = std::size_t(op.c) % (s.bound + 1);
						Outcome out = libCall(op, [&] { v.resize(count); });
						if (out != Outcome::Ok) { resized(s, count, 0, true); break; }
						s.model.resize(count, 0);
						compare(s, "content", "resize");
					}
					break;
				case K_RESIZE_VALUE:
				case K_RESIZE_ALIAS:
					if constexpr (CanCopy)
					{
						std::size_t count = std::size_t(op.c) % (s.bound + 1);
						Outcome out;
						if (op.kind == K_RESIZE_ALIAS)
						{
							if (pos >= n) break;
							SIM_COUNT("reach:argument-is-own-element");
							val = s.model[pos];
							out = libCall(op, [&] { v.resize(count, const_cast<const T&>(v[pos])); });
						}
						else
						{
							nextVal++;
							T arg = Maker<T>::make(val);
							out = libCall(op, [&] { v.resize(count, const_cast<const T&>(arg)); });
							CHECK(props.model, "argument-changed", get(arg) == val, "resize changed its argument");
						}
						if (out != Outcome::Ok) { resized(s, count, val, false); break; }
						s.model.resize(count, val);
						compare(s, "content", "resize with a value");
					}
					break;
				case K_RESERVE:
					if constexpr (A::HasReserve)
					{
						std::size_t count = std::size_t(op.c) % (s.bound + 1);
						const T* data;
						std::size_t capacity;
						{ LibScope ls; data = v.data(); capacity = v.capacity(); }
						Outcome out = libCall(op, [&] { A::reserve(v, count); });
						if (count <= capacity)
						{
							LibScope ls;
							CHECK(props.model, "storage-moved", v.data() == data, "reserve(%zu) moved the storage although the capacity is %zu", count, capacity);
						}
						if (out == Outcome::Ok)
						{
							LibScope ls;
							CHECK(props.model, "capacity", v.capacity() >= count, "after reserve(%zu) the capacity is %zu", count, v.capacity());
						}
						if (out != Outcome::Ok && !StrongTransfer) { resync(s, {}, "a failed reserve"); break; }
						compare(s, "content", "reserve");
					}
					break;
				case K_COPY_CONSTRUCT:
				case K_MOVE_CONSTRUCT:
				case K_COPY_ASSIGN:
				case K_MOVE_ASSIGN:
				case K_SWAP: transfer(s, slots[std::size_t(op.b) % slots.size()], op); break;
				case K_CTOR_SIZE:
				case K_CTOR_RANGE:
				case K_CTOR_INIT:
					if constexpr (CanCopy && A::HasCtors)
					{
						std::size_t count = std::size_t(op.c) % (s.bound + 1);
						std::vector<i64> m;
						Outcome out;
						if (op.kind == K_CTOR_SIZE)
						{
							nextVal++;
							m.assign(count, val);
							T arg = Maker<T>::make(val);
							out = construct(s, op, [&](void* mem) { new (mem) Vec(count, const_cast<const T&>(arg)); });
						}
						else
						{
							if (op.kind == K_CTOR_INIT) count = std::min<std::size_t>(3, s.bound);
							std::vector<T> src;
							src.reserve(count);
							for (std::size_t i = 0; i < count; ++i) { src.emplace_back(Maker<T>::make(nextVal)); m.push_back(nextVal++); }
							if (op.kind == K_CTOR_RANGE)
								out = construct(s, op, [&](void* mem) { const T* f = src.data(); new (mem) Vec(f, f + count); });
							else if (count == 3)
								out = construct(s, op, [&](void* mem) { new (mem) Vec({ src[0], src[1], src[2] }); });
							else break;
						}
						if (out == Outcome::Ok) s.model = m;
						compare(s, "content", "construction from values");
					}
					break;
				case K_RECREATE: destroy(s); fresh(s); compare(s, "content", "default construction"); break;
				case K_WRITE:
					if (pos >= n) break;
					nextVal++;
					if constexpr (std::is_arithmetic_v<T>) v[pos] = T(val);
					else { ledgerUse(&v[pos], "written to"); v[pos].val = val; }
					s.model[pos] = val;
					compare(s, "content", "writing an element");
					break;
				case K_READ: readAll(s); break;
			}
		}
		// after a failed resize: a prefix of the old content, then new elements
		void resized(Slot& s, std::size_t count, i64 val, bool)
		{
			SIM_COUNT("reach:failed-growth");
			std::vector<i64> now = observe(*s.vec);
			if (!StrongTransfer) { resync(s, { val }, "a failed resize"); return; }
			CHECK(props.model, "size-after-failure", now.size() >= s.model.size() && now.size() <= count, "a failed resize from %zu to %zu left %zu elements", s.model.size(), count, now.size());
			for (std::size_t i = 0; i < now.size(); ++i)
			{
				i64 expected = i < s.model.size() ? s.model[i] : val;
				CHECK(props.model, "content-after-failure", now[i] == expected, "after a failed resize element %zu is %lld instead of %lld", i, (long long)now[i], (long long)expected);
			}
			s.model = now;
		}
		void transfer(Slot& s, Slot& d, const Op& op)
		{
			bool self = &s == &d;
			switch (op.kind)
			{
				case K_COPY_CONSTRUCT:
					if constexpr (CanCopy && A::HasCopy)
					{
						if (self) break;
						std::vector<i64> m = s.model;
						Outcome out = construct(d, op, [&](void* mem) { new (mem) Vec(const_cast<const Vec&>(*s.vec)); });
						if (out == Outcome::Ok) d.model = m;
						compare(d, "content", "copy construction");
						compare(s, "source-changed", "the source of a copy");
					}
					break;
				case K_COPY_ASSIGN:
					if constexpr (CanCopy && A::HasCopy)
					{
						if (!d.vec) fresh(d);
						if (self) SIM_COUNT("reach:self-assignment");
						Outcome out = libCall(op, [&] { Vec& alias = *s.vec; *d.vec = const_cast<const Vec&>(alias); });
						if (out == Outcome::Ok) d.model = s.model;
						else resync(d, s.model, "a failed copy assignment");
						compare(d, "content", "copy assignment");
						compare(s, "source-changed", "the source of a copy");
					}
					break;
				case K_MOVE_CONSTRUCT:
				{
					if (self) break;
					std::vector<i64> m = s.model;
					Outcome out = construct(d, op, [&](void* mem) { new (mem) Vec(std::move(*s.vec)); });
					if (out == Outcome::Ok) { d.model = m; compare(d, "content", "move construction"); }
					if (out == Outcome::Ok) A::moved(d.bound, s.bound);
					resync(s, {}, "moving from the vector");
					if (out == Outcome::Ok)
					{
						CHECK(props.model, "moved-from-not-empty", s.model.empty(), "a vector still has %zu elements after being moved from", s.model.size());
						if (A::AssignExchanges) CHECK(props.model, "moved-from-capacity", s.vec->capacity() == 0, "a vector whose storage was moved to another one claims room for %zu elements", s.vec->capacity());
					}
					noDuplicates(s, d);
					break;
				}
				case K_MOVE_ASSIGN:
				{
					if (!d.vec) fresh(d);
					std::vector<i64> m = s.model, dm = d.model;
					Outcome out = libCall(op, [&] { Vec& alias = *s.vec; *d.vec = std::move(alias); });
					if (self) { resync(s, {}, "self-move-assignment"); break; }
					if (out == Outcome::Ok) { d.model = m; compare(d, "content", "move assignment"); std::swap(s.bound, d.bound); }
					else resync(d, m, "a failed move assignment");
					resync(s, dm, "moving from the vector");
					if (out == Outcome::Ok)
						CHECK(props.model, "moved-from-content", s.model.empty() || (A::AssignExchanges && s.model == dm), "a vector still has %zu elements after being moved from", s.model.size());
					noDuplicates(s, d);
					s.bound = std::min(s.bound, A::room(*s.vec, s.bound));
					break;
				}
				case K_SWAP:
				{
					if (!d.vec) fresh(d);
					if (self) break;
					std::vector<i64> m = s.model, dm = d.model;
					Outcome out = libCall(op, [&] { std::swap(*s.vec, *d.vec); });
					if (out == Outcome::Ok)
					{
						s.model = dm; d.model = m;
						std::swap(s.bound, d.bound);
						compare(s, "content", "swap");
						compare(d, "content", "swap");
					}
					else
					{
						resync(s, dm, "a failed swap");
						resync(d, m, "a failed swap");
						s.bound = d.bound = std::min(s.bound, d.bound);
						s.bound = A::room(*s.vec, s.bound);
						d.bound = A::room(*d.vec, d.bound);
					}
					break;
				}
				default: break;
			}
		}
		// a move hands each element over: no value may now be in both vectors
		void noDuplicates(Slot& s, Slot& d)
		{
			if (!isTracked<T>() || (CanCopy && !std::is_nothrow_move_constructible_v<T>)) return;
			std::set<i64> in(d.model.begin(), d.model.end());
			for (i64 v : s.model)
				CHECK(props.model, "content-in-both", v <= 0 || !in.count(v) || aliases, "after a move value %lld is in both vectors", (long long)v);
		}
		bool aliases = true;

		void run()
		{
			slots.resize(std::size_t(plan.cfg[0]));
			aliases = plan.cfg[1] != 0;
			for (Slot& s : slots) fresh(s);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				checkUniverse();
			}
			g_opIndex = idx;
			for (Slot& s : slots) { readAll(s); destroy(s); }
			for (void* b : buffers) ::operator delete(b, std::align_val_t(64));
			checkNoLeftovers(props.life);
		}
	};

	inline Plan generatePlan(Rng& r, bool faultsAlloc, bool hybrid)
	{
		Plan p;
		int n = r.between(1, 3);
		p.cfg.push_back(n);
		std::vector<int> w(K_COUNT);
		for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(2, 3) ? r.between(1, 4) : 0;
		w[K_EMPLACE_BACK] = r.between(1, 8); w[K_PUSH_COPY] += r.range(4); w[K_PUSH_MOVE] += r.range(4);
		for (int k : { K_CLEAR, K_RECREATE, K_CTOR_SIZE, K_CTOR_RANGE, K_CTOR_INIT, K_RESIZE, K_RESIZE_VALUE, K_RESERVE }) if (w[std::size_t(k)] > 2) w[std::size_t(k)] = 1;
		bool aliases = w[K_PUSH_ALIAS] || w[K_EMPLACE_BACK_ALIAS] || w[K_INSERT_ALIAS] || w[K_RESIZE_ALIAS] || w[K_COPY_CONSTRUCT] || w[K_COPY_ASSIGN] || w[K_RESIZE_VALUE] || w[K_CTOR_SIZE];
		p.cfg.push_back(aliases);
		static const int bounds[] = { 0, 1, 2, 3, 4, 5, 6, 8, 12, 24 };
		bool large = r.chance(1, 80); // sizes that no longer fit a byte
		p.cfg.push_back(large ? r.between(250, 400) : hybrid ? r.between(3, 20) : bounds[r.range(10)]);
		if (large) for (int k : { K_RESIZE, K_RESIZE_VALUE, K_CTOR_SIZE, K_CTOR_RANGE }) w[std::size_t(k)] = 2;
		Scheduler sched(r, r.between(1, 3));
		FaultMix faults(r, faultsAlloc, true);
		int len = r.chance(1, 6) ? r.between(40, 120) : r.between(4, 36);
		bool huge = r.chance(1, 30000); // sizes that no longer fit 16 bits; few operations, as each of them is slow
		if (huge)
		{
			large = false;
			p.cfg[2] = 66000;
			for (int k : { K_RESIZE, K_RESIZE_VALUE, K_CTOR_SIZE, K_CTOR_RANGE }) w[std::size_t(k)] = 4;
			if (len > 6) len = 6;
		}
		p.lists.emplace_back();
		for (int i = 0; i < len; ++i)
		{
			Op op;
			op.client = sched.next(r);
			op.kind = r.pick(w);
			op.a = r.range(n); op.b = r.range(24); op.c = r.chance(1, 2) ? r.range(8) : r.range(40);
			if (large && r.chance(2, 3)) { op.b = r.range(420); op.c = r.chance(1, 2) ? r.between(250, 260) : r.range(420); }
			if (huge && r.chance(1, 2)) { op.b = r.range(66000); op.c = r.between(65530, 66000); }
			faults.apply(r, op);
			p.lists[0].push_back(op);
		}
		return p;
	}
}
