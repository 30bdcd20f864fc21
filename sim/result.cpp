// Simulated clients passing results to each other. Real code: Result, Ok, Err, NAZARA_TRY, NAZARA_TRY_VALUE.
#include "sim.hpp"
#include <NazaraUtils/Result.hpp>
#include <algorithm>

using namespace sim;

namespace
{
	enum Kind
	{
		K_VALUE, K_ERROR, K_ASSIGN_VALUE, K_ASSIGN_ERROR, K_COPY_CONSTRUCT, K_MOVE_CONSTRUCT, K_COPY_ASSIGN, K_MOVE_ASSIGN, K_SELF_ASSIGN, K_SWAP,
		K_CONVERT, K_CONVERT_ASSIGN, K_ACCESS, K_TAKE, K_WRITE, K_EXPECT, K_VALUE_OR, K_MAP, K_MAP_VOID, K_CHAIN, K_TRY, K_COUNT
	};
	const char* const names[] = {
		"StoreValue", "StoreError", "AssignValue", "AssignError", "CopyConstruct", "MoveConstruct", "CopyAssign", "MoveAssign", "SelfAssign", "Swap",
		"Convert", "ConvertAssign", "Access", "Take", "Write", "Expect", "ValueOr", "Map", "MapVoidResult", "MapChain", "Try" };

	// Payloads: values and errors, and what they convert to
	template<int Traits> struct ValueA : Elem<Traits> { using Elem<Traits>::Elem; };
	template<int Traits> struct ErrorA : Elem<Traits> { using Elem<Traits>::Elem; };
	template<int Traits> struct ValueB : Elem<Traits>
	{
		using Elem<Traits>::Elem;
		ValueB(const ValueA<Traits>& o) : Elem<Traits>(o) {}
		ValueB(ValueA<Traits>&& o) noexcept(!Elem<Traits>::MoveThrows) : Elem<Traits>(std::move(o)) {}
	};
	template<int Traits> struct ErrorB : Elem<Traits>
	{
		using Elem<Traits>::Elem;
		ErrorB(const ErrorA<Traits>& o) : Elem<Traits>(o) {}
		ErrorB(ErrorA<Traits>&& o) noexcept(!Elem<Traits>::MoveThrows) : Elem<Traits>(std::move(o)) {}
	};
	// Payloads that own memory: storing and copying them allocates
	template<int Tag> struct Text
	{
		std::string s;
		i64 tail = 0;
		Elem<NothrowMove> tracked{ i64(0) };
		Text() : s("default"), tail(0) {}
		explicit Text(i64 v) : s("a text that is too long for the small buffer"), tail(v) {}
		template<int O, typename = std::enable_if_t<O == Tag - 1>> Text(const Text<O>& o) : s(o.s), tail(o.tail) {}
		template<int O, typename = std::enable_if_t<O == Tag - 1>> Text(Text<O>&& o) : s(std::move(o.s)), tail(o.tail) { o.tail = MovedFrom; }
		Text(const Text&) = default;
		Text(Text&& o) noexcept : s(std::move(o.s)), tail(o.tail), tracked(std::move(o.tracked)) { o.tail = MovedFrom; }
		Text& operator=(const Text& o) { s = o.s; tail = o.tail; return *this; }
		Text& operator=(Text&& o) noexcept { if (this != &o) { s = std::move(o.s); tail = o.tail; o.tail = MovedFrom; } return *this; }
	};
	template<int Tag> i64 valueOf(const Text<Tag>& t)
	{
		HarnessScope hs;
		sim::valueOf(t.tracked);
		if (t.tail > 0 && t.s.size() < 20) return -99; // a copy that lost part of its content
		return t.tail;
	}

	template<typename VA_, typename EA_, typename VB_, typename EB_, bool Copyable>
	struct Types { using VA = VA_; using EA = EA_; using VB = VB_; using EB = EB_; static constexpr bool CanCopy = Copyable; };

	template<typename T>
	struct World
	{
		using VA = typename T::VA; using EA = typename T::EA; using VB = typename T::VB; using EB = typename T::EB;
		using RA = Nz::Result<VA, EA>;
		using RB = Nz::Result<VB, EB>;
		using RVA = Nz::Result<void, EA>;
		using RVB = Nz::Result<void, EB>;
		static constexpr bool CanCopy = T::CanCopy;
		static constexpr bool MayBeEmpty = !std::is_nothrow_move_constructible_v<VA> || !std::is_nothrow_move_constructible_v<EA>;
		enum State { Value, Error };
		struct Model { State state = Value; i64 val = 0; };
		template<typename R> struct Slot { R* r = nullptr; Model m; };

		const Plan& plan;
		const Component& comp;
		std::vector<Slot<RA>> as;
		std::vector<Slot<RB>> bs;
		std::vector<Slot<RVA>> vas;
		std::vector<Slot<RVB>> vbs;
		i64 nextVal = 1;
		int depth = 0;

		World(const Plan& p, const Component& c) : plan(p), comp(c) {}

		template<typename R> static constexpr bool IsVoid = std::is_same_v<R, RVA> || std::is_same_v<R, RVB>;
		template<typename R> using ErrorOf = std::remove_reference_t<decltype(std::declval<R&>().GetError())>;

		// Harness objects are built and destroyed outside the library, without faults
		struct Quiet
		{
			HarnessScope hs;
			FaultState saved;
			Quiet() : saved(g_fault) { g_fault = FaultState{}; }
			~Quiet() { g_fault = saved; }
		};

		template<typename R> void check(Slot<R>& s, const char* what)
		{
			const R& r = *s.r;
			bool ok = false, err = false, flag = false;
			libCall(F_NONE, 0, [&] { ok = r.IsOk(); err = r.IsErr(); flag = bool(r); });
			CHECK("R01", "exactly-one", ok != err, "%s: a result is %s", what, ok ? "both a value and an error" : "neither a value nor an error");
			CHECK("R01", "state", ok == (s.m.state == Value), "%s: a result holding %s says it holds %s", what, s.m.state == Value ? "a value" : "an error", ok ? "a value" : "an error");
			CHECK("R01", "bool", flag == ok, "%s: the boolean conversion disagrees with IsOk", what);
			if (ok != (s.m.state == Value)) return; // another property is being decided
			if (err)
			{
				i64 v = 0;
				bool threw = false;
				libCall(F_NONE, 0, [&] { try { v = valueOf(r.GetError()); } catch (const std::runtime_error&) { threw = true; } });
				CHECK("R01", "error-access", !threw, "%s: GetError threw on an error", what);
				CHECK("R01", "error-content", v == s.m.val, "%s: the error is %lld instead of %lld", what, (long long)v, (long long)s.m.val);
			}
			else if constexpr (!IsVoid<R>)
			{
				i64 v = 0;
				bool threw = false;
				libCall(F_NONE, 0, [&] { try { v = valueOf(r.GetValue()); } catch (const std::runtime_error&) { threw = true; } });
				CHECK("R01", "value-access", !threw, "%s: GetValue threw on a value", what);
				CHECK("R01", "value-content", v == s.m.val, "%s: the value is %lld instead of %lld", what, (long long)v, (long long)s.m.val);
			}
		}
		// A result that was moved from, or whose assignment failed: it must still hold exactly one object
		template<typename R> void resync(Slot<R>& s, const char* what)
		{
			const R& r = *s.r;
			bool ok = false, err = false;
			libCall(F_NONE, 0, [&] { ok = r.IsOk(); err = r.IsErr(); });
			if (!ok && !err && MayBeEmpty && !IsVoid<R>)
			{
				// Only when moving the payload may throw: nothing could be kept, and the result says so
				bool threwV = true, threwE = false;
				if constexpr (!IsVoid<R>)
					libCall(F_NONE, 0, [&] { try { r.GetValue(); threwV = false; } catch (const std::runtime_error&) {} });
				libCall(F_NONE, 0, [&] { try { r.GetError(); } catch (const std::runtime_error&) { threwE = true; } });
				CHECK("R01", "empty-access", threwV && threwE, "%s: an accessor of a result that holds nothing did not throw", what);
				SIM_COUNT("reach:result-holds-nothing");
				recreate(s);
				return;
			}
			CHECK("R01", "exactly-one", ok != err, "%s: a result is %s", what, ok ? "both a value and an error" : "neither a value nor an error");
			if (ok == err) { recreate(s); return; }
			s.m.state = ok ? Value : Error;
			if (err) libCall(F_NONE, 0, [&] { s.m.val = valueOf(r.GetError()); });
			else if constexpr (!IsVoid<R>) libCall(F_NONE, 0, [&] { s.m.val = valueOf(r.GetValue()); });
		}
		template<typename R> void afterFailure(Slot<R>& s, const Model& before, const Model& wanted_, const char* what)
		{
			SIM_COUNT("reach:store-failed");
			resync(s, what);
			const Model& m = s.m;
			bool isBefore = m.state == before.state && (m.val == before.val || (IsVoid<R> && m.state == Value));
			bool isAfter = m.state == wanted_.state && (m.val == wanted_.val || (IsVoid<R> && m.state == Value));
			bool isDefault = m.state == Value && m.val == 0; // recreated
			CHECK("R01", "after-failure", isBefore || isAfter || isDefault, "%s: after the failure the result holds %s %lld", what, m.state == Value ? "value" : "error", (long long)m.val);
		}
		template<typename R> void destroy(Slot<R>& s)
		{
			if (!s.r) return;
			R* r = s.r;
			s.r = nullptr;
			libCall(F_NONE, 0, [&] { r->~R(); });
			::operator delete(static_cast<void*>(r));
		}
		// replaces the result of a slot by a newly constructed one; on failure there is a default one
		template<typename R, typename F> Outcome construct(Slot<R>& s, const Op& op, const Model& m, F&& f)
		{
			void* mem = ::operator new(sizeof(R));
			R* raw = nullptr;
			Outcome out;
			try { out = libCall(op, [&] { raw = f(mem); }); }
			catch (...) { ::operator delete(mem); throw; }
			if (out != Outcome::Ok)
			{
				SIM_COUNT("reach:construction-failed");
				::operator delete(mem);
				recreate(s);
				return out;
			}
			destroy(s);
			s.r = raw;
			s.m = m;
			return out;
		}
		template<typename R> void recreate(Slot<R>& s)
		{
			destroy(s);
			void* mem = ::operator new(sizeof(R));
			R* raw = nullptr;
			libCall(F_NONE, 0, [&] { raw = new (mem) R(typename R::ValueTag{}); });
			s.r = raw;
			s.m = Model{ Value, 0 };
		}

		template<typename P> void checkArgument(const P& p, i64 val, const char* what)
		{
			CHECK("R01", "stolen-lvalue", valueOf(p) == val, "%s took the content of an lvalue", what);
		}

		template<typename R> void storeError(Slot<R>& s, const Op& op, bool assign)
		{
			using E = ErrorOf<R>;
			i64 val = nextVal++;
			Model before = s.m, m{ Error, val };
			alignas(E) char mem[sizeof(E)];
			E* e;
			{ Quiet q; e = new (static_cast<void*>(mem)) E(val); }
			R* r = s.r;
			Outcome out = Outcome::Ok;
			bool lvalue = CanCopy && op.c % 2 == 0;
			if (assign)
			{
				if (lvalue)
				{
					if constexpr (CanCopy) out = libCall(op, [&] { if (op.c % 4 < 2) *r = Nz::Err(*e); else *r = Nz::Err(static_cast<const E&>(*e)); });
				}
				else
					out = libCall(op, [&] { *r = Nz::Err(std::move(*e)); });
				if (out == Outcome::Ok) s.m = m; else afterFailure(s, before, m, "assigning an error");
			}
			else
			{
				int how = op.c / 2 % 4;
				if (lvalue)
				{
					if constexpr (CanCopy)
					{
						if (how == 0) construct(s, op, m, [&](void* p) { return new (p) R(Nz::Err(*e)); });
						else if (how == 1) construct(s, op, m, [&](void* p) { return new (p) R(typename R::ErrorTag{}, *e); });
						else if (how == 2) construct(s, op, m, [&](void* p) { return new (p) R(Nz::Err(static_cast<const E&>(*e))); });
						else construct(s, op, m, [&](void* p) { return new (p) R(Nz::ResultError<E>{ *e }); });
					}
				}
				else if (how == 0) construct(s, op, m, [&](void* p) { return new (p) R(Nz::Err(std::move(*e))); });
				else if (how == 1) construct(s, op, m, [&](void* p) { return new (p) R(typename R::ErrorTag{}, std::move(*e)); });
				else if (how == 2) construct(s, op, m, [&](void* p) { return new (p) R(typename R::ErrorTag{}, val); });
				else construct(s, op, Model{ Error, 0 }, [&](void* p) { return new (p) R(typename R::ErrorTag{}); });
			}
			if (lvalue) checkArgument(*e, val, "storing an error");
			{ Quiet q; e->~E(); }
		}
		void storeValue(Slot<RA>& s, const Op& op, bool assign)
		{
			i64 val = nextVal++;
			Model before = s.m, m{ Value, val };
			alignas(VA) char mem[sizeof(VA)];
			VA* v;
			{ Quiet q; v = new (static_cast<void*>(mem)) VA(val); }
			RA* r = s.r;
			Outcome out = Outcome::Ok;
			bool lvalue = CanCopy && op.c % 2 == 0;
			int how = op.c / 2 % 5;
			if (assign)
			{
				if (lvalue)
				{
					if constexpr (CanCopy)
						out = libCall(op, [&] { if (how < 2) *r = Nz::Ok(*v); else if (how < 4) *r = *v; else *r = Nz::Ok(static_cast<const VA&>(*v)); });
				}
				else
					out = libCall(op, [&] { if (how < 2) *r = Nz::Ok(std::move(*v)); else *r = std::move(*v); });
				if (out == Outcome::Ok) s.m = m; else afterFailure(s, before, m, "assigning a value");
			}
			else if (lvalue)
			{
				if constexpr (CanCopy)
				{
					if (how == 0) construct(s, op, m, [&](void* p) { return new (p) RA(Nz::Ok(*v)); });
					else if (how == 1) construct(s, op, m, [&](void* p) { return new (p) RA(*v); });
					else if (how == 2) construct(s, op, m, [&](void* p) { return new (p) RA(static_cast<const VA&>(*v)); });
					else if (how == 3) construct(s, op, m, [&](void* p) { return new (p) RA(typename RA::ValueTag{}, *v); });
					else construct(s, op, m, [&](void* p) { return new (p) RA(Nz::ResultValue<VA>{ *v }); });
				}
			}
			else if (how == 0) construct(s, op, m, [&](void* p) { return new (p) RA(Nz::Ok(std::move(*v))); });
			else if (how == 1) construct(s, op, m, [&](void* p) { return new (p) RA(std::move(*v)); });
			else if (how == 2) construct(s, op, m, [&](void* p) { return new (p) RA(typename RA::ValueTag{}, val); });
			else if (how == 3) construct(s, op, Model{ Value, 0 }, [&](void* p) { return new (p) RA(); });
			else construct(s, op, m, [&](void* p) { return new (p) RA(Nz::ResultValue<VA>{ VA(val) }); });
			if (lvalue) checkArgument(*v, val, "storing a value");
			{ Quiet q; v->~VA(); }
		}
		void storeOk(Slot<RVA>& s, const Op& op)
		{
			if (op.c % 3 == 0) { construct(s, op, Model{}, [&](void* p) { return new (p) RVA(Nz::Ok()); }); return; }
			RVA* r = s.r;
			Model before = s.m;
			Outcome out = libCall(op, [&] { *r = Nz::Ok(); });
			if (out == Outcome::Ok) s.m = Model{}; else afterFailure(s, before, Model{}, "assigning Ok");
		}

		template<typename R> void copies(Slot<R>& d, Slot<R>& s, const Op& op)
		{
			Model before = d.m;
			R *dst = d.r, *src = s.r;
			switch (op.kind)
			{
				case K_COPY_CONSTRUCT:
					if constexpr (CanCopy)
					{
						if (&d == &s) break;
						construct(d, op, s.m, [&](void* p) { return new (p) R(static_cast<const R&>(*src)); });
						check(s, "the source of a copy");
					}
					break;
				case K_MOVE_CONSTRUCT:
					if (&d == &s) break;
					construct(d, op, s.m, [&](void* p) { return new (p) R(std::move(*src)); });
					resync(s, "a moved-from result");
					break;
				case K_COPY_ASSIGN:
					if constexpr (CanCopy)
					{
						Model m = s.m;
						Outcome out = libCall(op, [&] { *dst = static_cast<const R&>(*src); });
						if (out == Outcome::Ok) d.m = m; else afterFailure(d, before, m, "copy assignment");
						if (&d != &s) check(s, "the source of a copy");
					}
					break;
				case K_MOVE_ASSIGN:
				{
					if (&d == &s) break;
					Model m = s.m;
					Outcome out = libCall(op, [&] { *dst = std::move(*src); });
					if (out == Outcome::Ok) d.m = m; else afterFailure(d, before, m, "move assignment");
					resync(s, "a moved-from result");
					break;
				}
				case K_SELF_ASSIGN:
					if constexpr (CanCopy)
					{
						Outcome out = libCall(op, [&] { const R& same = *dst; *dst = same; });
						if (out != Outcome::Ok) afterFailure(d, before, before, "self-assignment");
					}
					break;
				case K_SWAP:
				{
					if (&d == &s) break;
					Model m = s.m;
					Outcome out = libCall(op, [&] { std::swap(*dst, *src); });
					if (out == Outcome::Ok) { s.m = d.m; d.m = m; }
					else { resync(d, "a failed swap"); resync(s, "a failed swap"); }
					break;
				}
			}
		}
		template<typename D, typename S> void convert(Slot<D>& d, Slot<S>& s, const Op& op)
		{
			Model before = d.m, m = s.m;
			D* dst = d.r;
			S* src = s.r;
			bool copy = CanCopy && op.c % 2 == 0;
			if (op.kind == K_CONVERT)
			{
				if (copy) { if constexpr (CanCopy) construct(d, op, m, [&](void* p) { return new (p) D(static_cast<const S&>(*src)); }); }
				else construct(d, op, m, [&](void* p) { return new (p) D(std::move(*src)); });
			}
			else
			{
				Outcome out = Outcome::Ok;
				if (copy) { if constexpr (CanCopy) out = libCall(op, [&] { *dst = static_cast<const S&>(*src); }); }
				else out = libCall(op, [&] { *dst = std::move(*src); });
				if (out == Outcome::Ok) d.m = m; else afterFailure(d, before, m, "converting assignment");
			}
			if (copy) check(s, "the source of a conversion"); else resync(s, "a moved-from result");
		}

		template<typename R> void access(Slot<R>& s, const Op& op)
		{
			R* r = s.r;
			const R* c = r;
			bool isOk = s.m.state == Value;
			int wrong = 0, right = 0;
			i64 got = -50;
			libCall(F_NONE, 0, [&]
			{
				auto probe = [&](bool expected, auto&& f)
				{
					bool threw = false;
					try { f(); } catch (const std::runtime_error&) { threw = true; }
					if (threw == expected) wrong++; else right++;
				};
				probe(!isOk, [&] { got = valueOf(r->GetError()); });
				probe(!isOk, [&] { got = valueOf(c->GetError()); });
				probe(!isOk, [&] { auto&& e = std::move(*r).GetError(); got = valueOf(e); });
				if constexpr (!IsVoid<R>)
				{
					probe(isOk, [&] { got = valueOf(r->GetValue()); });
					probe(isOk, [&] { got = valueOf(c->GetValue()); });
					probe(isOk, [&] { got = valueOf(**r); });
					probe(isOk, [&] { got = valueOf(**c); });
					probe(isOk, [&] { got = valueOf(*r->operator->()); });
					probe(isOk, [&] { got = valueOf(*c->operator->()); });
					probe(isOk, [&] { auto&& v = *std::move(*r); got = valueOf(v); });
					probe(isOk, [&] { auto&& v = std::move(*r).GetValue(); got = valueOf(v); });
				}
			});
			CHECK("R01", "accessors", wrong == 0, "%d accessors of a result holding %s threw or did not throw when they should", wrong, isOk ? "a value" : "an error");
			if (!(IsVoid<R> && isOk)) CHECK("R01", "accessors", got == s.m.val, "accessors give %lld instead of %lld", (long long)got, (long long)s.m.val);
			check(s, "a result that was only read");
			(void)op;
		}
		template<typename R> void expect(Slot<R>& s, const Op& op)
		{
			const R* c = s.r;
			bool threw = false, right = false;
			libCall(F_NONE, 0, [&]
			{
				try
				{
					if (op.c % 2) c->Expect("the message");
					else { HarnessScope* none = nullptr; (void)none; c->Expect(std::string("the message")); }
				}
				catch (const std::runtime_error& e) { HarnessScope hs; threw = true; right = std::string_view(e.what()) == "the message"; }
			});
			CHECK("R01", "expect", threw == (s.m.state == Error) && right == threw, "Expect %s on %s", threw ? "threw" : "did not throw", s.m.state == Error ? "an error" : "a value");
		}
		void take(Slot<RA>& s, const Op& op)
		{
			RA* r = s.r;
			Model before = s.m;
			i64 got = -50;
			Outcome out = libCall(op, [&]
			{
				if (before.state == Value)
				{
					if (op.c % 2) { VA v = std::move(*r).GetValue(); got = valueOf(v); }
					else { VA v = *std::move(*r); got = valueOf(v); }
				}
				else { EA e = std::move(*r).GetError(); got = valueOf(e); }
			});
			if (out == Outcome::Ok) CHECK("R01", "taken", got == before.val, "moving out of a result gave %lld instead of %lld", (long long)got, (long long)before.val);
			resync(s, "a moved-from result");
		}
		void write(Slot<RA>& s)
		{
			if (s.m.state != Value) return;
			i64 val = nextVal++;
			Quiet q;
			s.r->GetValue() = VA(val);
			s.m.val = val;
		}
		void valueOr(Slot<RA>& s, const Op& op)
		{
			i64 val = nextVal++;
			Model before = s.m;
			alignas(VA) char mem[sizeof(VA)];
			VA* v;
			{ Quiet q; v = new (static_cast<void*>(mem)) VA(val); }
			RA* r = s.r;
			i64 got = -50;
			bool lvalue = CanCopy && op.c % 2 == 0, keep = CanCopy && op.c / 2 % 2 == 0;
			Outcome out = libCall(op, [&]
			{
				auto use = [&](auto&& def)
				{
					using D = decltype(def);
					if (keep) { if constexpr (CanCopy) { VA x = static_cast<const RA&>(*r).GetValueOr(std::forward<D>(def)); got = valueOf(x); } }
					else { VA x = std::move(*r).GetValueOr(std::forward<D>(def)); got = valueOf(x); }
				};
				if (lvalue) { if constexpr (CanCopy) use(*v); } else use(std::move(*v));
			});
			if (out == Outcome::Ok)
			{
				i64 expected = before.state == Value ? before.val : val;
				CHECK("R02", "value-or", got == expected, "GetValueOr on %s gave %lld instead of %lld", before.state == Value ? "a value" : "an error", (long long)got, (long long)expected);
			}
			if (lvalue || before.state == Value)
			{
				CHECK("R01", "lvalue-taken", valueOf(*v) == val, "GetValueOr on %s took the content of the fallback", before.state == Value ? "a value" : "an error");
				CHECK("R02", "fallback-used", valueOf(*v) == val, "GetValueOr on %s took the content of the fallback", before.state == Value ? "a value" : "an error");
			}
			else if (out == Outcome::Ok)
				CHECK("R02", "fallback-copied", valueOf(*v) == MovedFrom, "GetValueOr on an error copied a fallback it could move");
			if (keep) check(s, "a result read by GetValueOr"); else if (before.state == Value) resync(s, "a moved-from result"); else check(s, "an error read by GetValueOr");
			{ Quiet q; v->~VA(); }
		}

		// ------------------------------------------------------------ mapping
		struct Calls { int n = 0; i64 arg = -50; enum { None, AsLvalue, AsRvalue } how = None; };
		// a functor that can tell whether it is called for good
		template<typename F> struct Given
		{
			F f; Calls& c;
			template<typename... X> std::invoke_result_t<F&, X...> operator()(X&&... v) & noexcept(std::is_nothrow_invocable_v<F&, X...>) { c.how = Calls::AsLvalue; return f(std::forward<X>(v)...); }
			template<typename... X> std::invoke_result_t<F&, X...> operator()(X&&... v) && noexcept(std::is_nothrow_invocable_v<F&, X...>) { c.how = Calls::AsRvalue; return f(std::forward<X>(v)...); }
		};
		void checkGiven(const Calls& c, bool last)
		{
			if (c.how != Calls::None) CHECK("R02", "functor-category", (c.how == Calls::AsRvalue) == last, "Map was given %s, it was called as %s", last ? "a functor it may use up" : "a functor to keep", c.how == Calls::AsRvalue ? "one to use up" : "one to keep");
		}
		void script(const Op& op)
		{
			std::size_t scripts = plan.lists.size() - 1;
			if (!scripts || depth >= 2 || op.c / 8 % 2) return;
			HarnessScope hs;
			DepthGuard dg(depth);
			SIM_COUNT("reach:functor-re-enters");
			std::size_t i = std::size_t(op.b) % scripts;
			for (const Op& o : plan.lists[i + 1]) { beginOp(1000 + int(i), o, comp); step(o); }
		}
		// functors: the mapped value depends on the argument, so a wrong argument or result shows
		struct ToB { World& w; const Op& op; Calls& c; template<typename X> VB operator()(X&& v) const { c.n++; c.arg = valueOf(v); { HarnessScope hs; throwPoint(40); } w.script(op); { HarnessScope hs; throwPoint(41); } return VB(c.arg + 1000000); } };
		struct ToBFromSource { World& w; const Op& op; Calls& c; template<typename X> VB operator()(X&& v) const { c.n++; c.arg = valueOf(v); return VB(std::forward<X>(v)); } };
		struct ToVoid { World& w; const Op& op; Calls& c; template<typename X> void operator()(X&& v) const { c.n++; c.arg = valueOf(v); w.script(op); { HarnessScope hs; throwPoint(42); } } };
		struct ToIntNoexcept { World& w; const Op& op; Calls& c; template<typename X> int operator()(X&& v) const noexcept { c.n++; c.arg = valueOf(v); return int(c.arg) + 7; } };
		struct ToBNoexcept // the call itself cannot fail; keeping its result can
		{
			World& w; const Op& op; Calls& c;
			template<typename X> VB operator()(X&& v) const noexcept { FaultState saved = g_fault; g_fault = FaultState{}; c.n++; c.arg = valueOf(v); VB b(c.arg + 1000000); g_fault = saved; return b; }
		};
		struct ToVoidNoexcept { World& w; const Op& op; Calls& c; template<typename X> void operator()(X&& v) const noexcept { c.n++; c.arg = valueOf(v); } };

		template<typename R, typename M> void checkMapped(const R& r, const Calls& c, const Model& src, const M& expectedValue, bool isVoid)
		{
			CHECK("R02", "map-calls", c.n == (src.state == Value ? 1 : 0), "mapping %s called the functor %d times", src.state == Value ? "a value" : "an error", c.n);
			bool ok = r.IsOk();
			CHECK("R02", "map-state", ok == (src.state == Value) && r.IsErr() == !ok, "mapping %s gave %s", src.state == Value ? "a value" : "an error", ok ? "a value" : "an error");
			if (!ok && src.state == Error)
			{
				i64 e = -50;
				libCall(F_NONE, 0, [&] { e = valueOf(r.GetError()); });
				CHECK("R02", "map-error", e == src.val, "mapping changed the error from %lld to %lld", (long long)src.val, (long long)e);
			}
			if (ok && src.state == Value && !isVoid) expectedValue(r);
		}
		template<typename F> void mapWith(Slot<RA>& s, const Op& op, Calls& calls, F&& f, bool copySource)
		{
			bool keep = CanCopy && op.c % 2 == 0 && copySource;
			Model before = s.m;
			RA* src = s.r;
			Given<std::decay_t<F>> g{ f, calls };
			bool last = op.b % 2;
			using Mapped = std::remove_reference_t<decltype(std::move(*src).Map(f))>;
			auto expected = [&](const Mapped& m)
			{
				if constexpr (std::is_same_v<Mapped, Nz::Result<int, EA>>)
				{
					int v = m.GetValue();
					CHECK("R02", "map-value", v == int(before.val) + 7, "mapping %lld gave %d", (long long)before.val, v);
				}
				else if constexpr (std::is_same_v<Mapped, Nz::Result<VB, EA>>)
				{
					i64 v = -50;
					libCall(F_NONE, 0, [&] { v = valueOf(m.GetValue()); });
					i64 want = std::is_same_v<std::decay_t<F>, ToBFromSource> ? before.val : before.val + 1000000;
					CHECK("R02", "map-value", v == want, "mapping %lld gave %lld instead of %lld", (long long)before.val, (long long)v, (long long)want);
				}
			};
			mapSources.push_back(&s);
			Outcome out = libCall(op, [&]
			{
				if (keep)
				{
					if constexpr (CanCopy)
					{
						const Mapped m = last ? static_cast<const RA&>(*src).Map(std::move(g)) : static_cast<const RA&>(*src).Map(g);
						HarnessScope hs;
						checkMapped(m, calls, before, expected, std::is_void_v<decltype(f(std::declval<VA&>()))>);
					}
				}
				else
				{
					const Mapped m = last ? std::move(*src).Map(std::move(g)) : std::move(*src).Map(g);
					HarnessScope hs;
					checkMapped(m, calls, before, expected, std::is_void_v<decltype(f(std::declval<VA&>()))>);
				}
			});
			mapSources.pop_back();
			checkGiven(calls, last);
			if (calls.n) CHECK("R02", "map-argument", before.state == Value && calls.arg == before.val, "the functor received %lld instead of %lld", (long long)calls.arg, (long long)before.val);
			CHECK("R02", "map-calls", calls.n <= (before.state == Value ? 1 : 0), "mapping %s called the functor %d times", before.state == Value ? "a value" : "an error", calls.n);
			if (out != Outcome::Ok) SIM_COUNT("reach:map-threw");
			if (keep) { checkUnchanged(s, before); check(s, "a mapped lvalue"); }
			else resync(s, "a moved-from result");
		}
		std::vector<const void*> mapSources; // results being mapped up the stack: their functor does not touch them
		template<typename R> void checkUnchanged(Slot<R>& s, const Model& before)
		{
			const R& r = *s.r;
			bool ok = false;
			i64 v = before.val;
			libCall(F_NONE, 0, [&]
			{
				ok = r.IsOk();
				if (ok == (before.state == Value))
				{
					if (!ok) v = valueOf(r.GetError());
					else if constexpr (!IsVoid<R>) v = valueOf(r.GetValue());
				}
			});
			CHECK("R02", "source-changed", ok == (before.state == Value) && v == before.val, "an lvalue result was changed by mapping it");
		}
		void map(Slot<RA>& s, const Op& op)
		{
			Calls calls;
			switch (op.a / 4 % 6)
			{
				case 0: mapWith(s, op, calls, ToB{ *this, op, calls }, true); break;
				case 1: mapWith(s, op, calls, ToBFromSource{ *this, op, calls }, CanCopy); break;
				case 2: mapWith(s, op, calls, ToVoid{ *this, op, calls }, true); break;
				case 3: mapWith(s, op, calls, ToIntNoexcept{ *this, op, calls }, true); break;
				case 4: mapWith(s, op, calls, ToBNoexcept{ *this, op, calls }, true); break;
				default: mapWith(s, op, calls, ToVoidNoexcept{ *this, op, calls }, true); break;
			}
		}
		void mapVoid(Slot<RVA>& s, const Op& op)
		{
			Calls calls;
			Model before = s.m;
			bool keep = CanCopy && op.c % 2 == 0;
			RVA* src = s.r;
			auto run = [&](auto&& f)
			{
				Given<std::decay_t<decltype(f)>> g{ f, calls };
				bool last = op.b % 2;
				using Mapped = decltype(std::move(*src).Map(f));
				constexpr bool isVoid = std::is_same_v<Mapped, RVA>;
				auto expected = [&](const Mapped& m)
				{
					if constexpr (!isVoid)
					{
						i64 v = -50;
						libCall(F_NONE, 0, [&] { v = valueOf(m.GetValue()); });
						CHECK("R02", "map-value", v == 4242, "mapping a void result gave %lld", (long long)v);
					}
				};
				mapSources.push_back(&s);
				Outcome out = libCall(op, [&]
				{
					if (keep) { if constexpr (CanCopy) { const Mapped m = last ? static_cast<const RVA&>(*src).Map(std::move(g)) : static_cast<const RVA&>(*src).Map(g); HarnessScope hs; checkMapped(m, calls, before, expected, isVoid); } }
					else { const Mapped m = last ? std::move(*src).Map(std::move(g)) : std::move(*src).Map(g); HarnessScope hs; checkMapped(m, calls, before, expected, isVoid); }
				});
				mapSources.pop_back();
				checkGiven(calls, last);
				CHECK("R02", "map-calls", calls.n <= (before.state == Value ? 1 : 0), "mapping %s called the functor %d times", before.state == Value ? "a void result" : "an error", calls.n);
				if (out != Outcome::Ok) SIM_COUNT("reach:map-threw");
			};
			switch (op.a / 4 % 4)
			{
				case 0: run([&]() { calls.n++; script(op); { HarnessScope hs; throwPoint(43); } return VB(4242); }); break;
				case 1: run([&]() { calls.n++; script(op); { HarnessScope hs; throwPoint(44); } }); break;
				case 2: run([&]() noexcept { FaultState saved = g_fault; g_fault = FaultState{}; calls.n++; VB b(4242); g_fault = saved; return b; }); break;
				default: run([&]() noexcept { calls.n++; }); break;
			}
			if (keep) { checkUnchanged(s, before); check(s, "a mapped lvalue"); } else resync(s, "a moved-from result");
		}
		// a chain of maps over an lvalue: the first failure wins, later functors see the previous value
		void chain(Slot<RA>& s, const Op& op)
		{
			if constexpr (CanCopy)
			{
				Model before = s.m;
				int a = 0, b = 0, c = 0;
				i64 got = -50, err = -50;
				bool ok = false;
				const RA* src = s.r;
				Outcome out = libCall(op, [&]
				{
					auto r = src->Map([&](const VA& v) { a++; { HarnessScope hs; throwPoint(45); } return VB(v); })
					             .Map([&](VB&& v) { b++; { HarnessScope hs; throwPoint(46); } return VB(valueOf(v) * 2); })
					             .Map([&](VB&& v) { c++; got = valueOf(v); });
					ok = r.IsOk();
					if (!ok) err = valueOf(r.GetError());
				});
				bool val = before.state == Value;
				CHECK("R02", "chain-calls", a <= int(val) && b <= a && c <= b, "a chain over %s called its functors %d, %d and %d times", val ? "a value" : "an error", a, b, c);
				if (out == Outcome::Ok)
				{
					CHECK("R02", "chain-calls", a == int(val) && b == a && c == a && ok == val, "a chain over %s called its functors %d, %d and %d times", val ? "a value" : "an error", a, b, c);
					if (val) CHECK("R02", "chain-value", got == before.val * 2, "a chain gave %lld from %lld", (long long)got, (long long)before.val);
					else CHECK("R02", "chain-error", err == before.val, "a chain gave error %lld instead of %lld", (long long)err, (long long)before.val);
				}
				checkUnchanged(s, before);
			}
			else (void)s, (void)op;
		}
		// early returns
		struct TryLog { int steps = 0; i64 seen = -50; };
		template<typename RX> static RB tryAll(RVA* first, RX* second, RVA* third, TryLog& log, bool move)
		{
			log.steps = 1;
			if (move) NAZARA_TRY(std::move(*first)); else { if constexpr (CanCopy) NAZARA_TRY(*first); }
			log.steps = 2;
			NAZARA_TRY_VALUE(VA v, std::move(*second));
			log.steps = 3;
			log.seen = valueOf(v);
			if constexpr (CanCopy) { NAZARA_TRY(*third); } else { NAZARA_TRY(std::move(*third)); }
			log.steps = 4;
			return Nz::Ok(std::move(v));
		}
		template<typename RX> static RVB tryVoid(RX* second, TryLog& log)
		{
			log.steps = 1;
			NAZARA_TRY(std::move(*second));
			log.steps = 2;
			return Nz::Ok();
		}
		void tryMacros(const Op& op)
		{
			Slot<RVA>& first = vas[std::size_t(op.a) % vas.size()];
			Slot<RA>& second = as[std::size_t(op.b) % as.size()];
			Slot<RVA>& third = vas[std::size_t(op.a + 1) % vas.size()];
			if (busy(&first) || busy(&second) || busy(&third)) return;
			Model m1 = first.m, m2 = second.m, m3 = third.m;
			TryLog log;
			bool ok = false;
			i64 val = -50;
			bool voidVersion = op.c % 3 == 0, move = !CanCopy || op.c % 2;
			Outcome out = libCall(op, [&]
			{
				if (voidVersion)
				{
					const RVB r = tryVoid(second.r, log);
					ok = r.IsOk();
					if (!ok) val = valueOf(r.GetError());
				}
				else
				{
					const RB r = tryAll(first.r, second.r, third.r, log, move);
					ok = r.IsOk();
					val = ok ? valueOf(r.GetValue()) : valueOf(r.GetError());
				}
			});
			int steps; bool wantOk; i64 want;
			if (voidVersion) { wantOk = m2.state == Value; steps = wantOk ? 2 : 1; want = wantOk ? -50 : m2.val; }
			else if (m1.state == Error) { steps = 1; wantOk = false; want = m1.val; }
			else if (m2.state == Error) { steps = 2; wantOk = false; want = m2.val; }
			else if (m3.state == Error) { steps = 3; wantOk = false; want = m3.val; }
			else { steps = 4; wantOk = true; want = m2.val; }
			if (out == Outcome::Ok)
			{
				CHECK("R02", "try-flow", log.steps == steps && ok == wantOk, "the try macros got to step %d instead of %d and gave %s", log.steps, steps, ok ? "a value" : "an error");
				CHECK("R02", "try-content", val == want, "the try macros gave %lld instead of %lld", (long long)val, (long long)want);
				if (log.steps > 2 && !voidVersion) CHECK("R02", "try-content", log.seen == m2.val, "NAZARA_TRY_VALUE gave %lld instead of %lld", (long long)log.seen, (long long)m2.val);
			}
			else
			{
				SIM_COUNT("reach:try-threw");
				CHECK("R02", "try-flow", log.steps <= steps, "the try macros got to step %d although step %d fails", log.steps, steps);
			}
			if (!voidVersion) { if (CanCopy && !move) checkUnchanged(first, m1); if (CanCopy && &third != &first) checkUnchanged(third, m3); }
			resync(first, "a result given to a try macro");
			resync(second, "a moved-from result");
			resync(third, "a result given to a try macro");
		}
		bool busy(const void* p) const { return std::find(mapSources.begin(), mapSources.end(), p) != mapSources.end(); }

		void step(const Op& op)
		{
			Slot<RA>& a = as[std::size_t(op.a) % as.size()];
			Slot<RA>& a2 = as[std::size_t(op.b) % as.size()];
			Slot<RB>& b = bs[std::size_t(op.b) % bs.size()];
			Slot<RB>& b2 = bs[std::size_t(op.a) % bs.size()];
			Slot<RVA>& v = vas[std::size_t(op.a) % vas.size()];
			Slot<RVA>& v2 = vas[std::size_t(op.b) % vas.size()];
			Slot<RVB>& w = vbs[std::size_t(op.b) % vbs.size()];
			if (busy(&a) || busy(&a2) || busy(&v) || busy(&v2)) return;
			bool useVoid = op.client % 3 == 2;
			switch (op.kind)
			{
				case K_VALUE: if (useVoid) storeOk(v, op); else storeValue(a, op, false); break;
				case K_ERROR: if (useVoid) storeError(v, op, false); else storeError(a, op, false); break;
				case K_ASSIGN_VALUE: if (useVoid) storeOk(v, op); else storeValue(a, op, true); break;
				case K_ASSIGN_ERROR: if (useVoid) storeError(v, op, true); else storeError(a, op, true); break;
				case K_COPY_CONSTRUCT: case K_MOVE_CONSTRUCT: case K_COPY_ASSIGN: case K_MOVE_ASSIGN: case K_SELF_ASSIGN: case K_SWAP:
					if (useVoid) copies(v, v2, op);
					else if (op.c % 4 == 0) copies(b, b2, op);
					else copies(a, a2, op);
					break;
				case K_CONVERT: case K_CONVERT_ASSIGN:
					if (useVoid) convert(w, v, op); else convert(b, a, op);
					break;
				case K_ACCESS: if (useVoid) access(v, op); else access(a, op); break;
				case K_TAKE: take(a, op); break;
				case K_WRITE: write(a); break;
				case K_EXPECT: if (useVoid) expect(v, op); else expect(a, op); break;
				case K_VALUE_OR: valueOr(a, op); break;
				case K_MAP: map(a, op); break;
				case K_MAP_VOID: mapVoid(v, op); break;
				case K_CHAIN: chain(a, op); break;
				case K_TRY: tryMacros(op); break;
			}
		}
		void checkAll()
		{
			u64 h = 5;
			auto all = [&](auto& list) { for (auto& s : list) { check(s, "after the operation"); h = h * 1000003 + u64(s.m.state) * 2 + u64(s.m.val == MovedFrom) * 4 + (s.m.val == 0); } };
			all(as); all(bs); all(vas); all(vbs);
			noteState(h);
		}
		void run()
		{
			as.resize(std::size_t(plan.cfg[0])); bs.resize(2); vas.resize(2); vbs.resize(1);
			for (auto& s : as) recreate(s);
			for (auto& s : bs) recreate(s);
			for (auto& s : vas) recreate(s);
			for (auto& s : vbs) recreate(s);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				checkAll();
				if (depth == 0 && wanted("R01"))
				{
					// exactly the stored objects exist
					std::size_t n = as.size() + bs.size();
					for (auto& s : vas) n += s.m.state == Error;
					for (auto& s : vbs) n += s.m.state == Error;
					CHECK("R01", "object-count", g_ledger.live.size() == n, "%zu objects are alive, %zu are stored", g_ledger.live.size(), n);
				}
			}
			g_opIndex = idx;
			for (auto& s : as) destroy(s);
			for (auto& s : bs) destroy(s);
			for (auto& s : vas) destroy(s);
			for (auto& s : vbs) destroy(s);
			checkNoLeftovers("R01");
		}
	};

	struct ResultComponent : Component
	{
		ResultComponent() { name = "result"; g_lifetimeProp = "R01"; }
		int variants() const override { return 4; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "Result of objects with non-throwing moves", "Result of objects with throwing moves", "Result of move-only objects", "Result of objects that own memory" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "R01", "R02" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }

		Plan generate(Rng& r, int variant) override
		{
			Plan p;
			p.cfg = { r.between(1, 3) };
			int clients = r.between(1, 4);
			Scheduler sched(r, clients);
			FaultMix faults(r, variant == 3, true);
			std::vector<int> w(K_COUNT);
			for (int& x : w) x = r.range(4);
			w[K_VALUE] += 2; w[K_ERROR] += 2;
			if (g_prop == "R02") { w[K_MAP] += 8; w[K_MAP_VOID] += 3; w[K_CHAIN] += 2; w[K_TRY] += 4; w[K_VALUE_OR] += 2; }
			auto make = [&]
			{
				Op op;
				op.client = sched.next(r);
				op.kind = r.pick(w);
				op.a = r.range(24); op.b = r.range(6); op.c = r.range(24);
				faults.apply(r, op);
				return op;
			};
			p.lists.emplace_back();
			int len = r.chance(1, 8) ? r.between(40, 100) : r.between(3, 30);
			for (int i = 0; i < len; ++i) p.lists[0].push_back(make());
			int scripts = r.range(4);
			for (int s = 0; s < scripts; ++s)
			{
				p.lists.emplace_back();
				int m = r.between(1, 2);
				for (int i = 0; i < m; ++i) p.lists.back().push_back(make());
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Types<ValueA<NothrowMove>, ErrorA<NothrowMove>, ValueB<NothrowMove>, ErrorB<NothrowMove>, true>>(plan, *this).run(); break;
				case 1: World<Types<ValueA<0>, ErrorA<0>, ValueB<0>, ErrorB<0>, true>>(plan, *this).run(); break;
				case 2: World<Types<ValueA<MoveOnly | NothrowMove>, ErrorA<MoveOnly | NothrowMove>, ValueB<MoveOnly | NothrowMove>, ErrorB<MoveOnly | NothrowMove>, false>>(plan, *this).run(); break;
				case 3: World<Types<Text<0>, Text<10>, Text<1>, Text<11>, true>>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new ResultComponent; }
