// Simulated clients that call components inside and outside their contracts. A call outside its contract is made by a child process:
// in a build with assertions it must end there, whatever the state of its error stream and signals; calls inside the contract must not.
// Real code: the assertion macros and functions, and the checks of Bitset, FixedVector, HybridVector, StackVector, StackArray, MemoryPool, PrivateImpl, Flags, EnumArray, Signal, SparsePtr, Retrieve, SafeCast and the bit and alignment helpers.
#include "sim.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace
{
#ifdef NDEBUG
	constexpr bool Checked = false;
#else
	constexpr bool Checked = true;
#endif
	enum Kind { K_BITS_RESIZE, K_BITS_AT, K_BITS_BLOCK, K_BITS_TO, K_BITS_WRITE, K_VEC_ADD, K_VEC_INSERT, K_VEC_ERASE, K_VEC_POP, K_VEC_READ, K_VEC_RESIZE, K_ARRAY, K_POOL_ALLOC, K_POOL_FREE, K_POOL_GET, K_POOL_ITER, K_POOL_INDEX, K_IMPL, K_FLAGS, K_KV, K_SIGNAL, K_SPARSE,
		K_MAP_PUT, K_MAP_GET, K_CAST_INT, K_CAST_FLOAT, K_CAST_ENUM, K_CAST_OBJECT, K_BITOPS, K_ALIGN, K_ASSERT_FUNC, K_ASSERT_MACRO, K_BRANCH, K_COUNT };
	const char* const names[] = { "BitsResize", "BitsAt", "BitsBlock", "BitsTo", "BitsWrite", "VecAdd", "VecInsert", "VecErase", "VecPop", "VecRead", "VecResize", "ArrayRead", "PoolAllocate", "PoolFree", "PoolGet", "PoolIterate", "PoolIndex", "ImplEmplace", "FlagsStep", "KvCompare", "SignalConnect", "SparseStride",
		"MapPut", "MapGet", "CastInteger", "CastFloat", "CastEnum", "CastObject", "BitHelpers", "Align", "AssertFunction", "AssertMacro", "AssertInBranch" };

	enum Environment { E_NORMAL, E_CLOSED, E_FULL, E_TRAP_HANDLED, E_ABORT_HANDLED, E_BOTH_HANDLED, E_ABORT_BLOCKED, E_BOTH_IGNORED, E_COUNT };
	const char* const environmentNames[] = { "none", "error-stream-closed", "error-stream-full", "trap-signal-handled", "abort-signal-handled", "trap-and-abort-signals-handled", "abort-signal-blocked", "trap-and-abort-signals-ignored" };

	enum class Color { Red, Green, Blue, Max = Blue };
	constexpr bool EnableEnumAsNzFlags(Color) { return true; }
	enum class Level : int { Low = 3, High = 300, Deep = -7 };
	struct Shape { virtual ~Shape() = default; int id = 1; };
	struct Circle : Shape { int radius = 2; };
	struct Square : Shape { int side = 3; };

	struct Death { bool returned = false, killed = false; int signal = 0, code = 0; std::string report; };
	void handled(int) {}

	void inContext(int context, const std::function<void()>& f)
	{
		switch (context % 4)
		{
			case 0: f(); break;
			case 1: { Nz::Signal<> s; s.Connect([&] { f(); }); s(); break; }
			case 2: { Nz::CallOnExit guard([&] { f(); }); break; }
			case 3: // while an exception passes
				try { Nz::CallOnExit guard([&] { f(); }); throw 1; } catch (int) {}
				break;
		}
	}

	Death inChild(int environment, int context, const std::function<void()>& f)
	{
		Death d;
		int fd[2];
		if (pipe(fd) != 0) std::abort();
		pid_t pid = fork();
		if (pid < 0) std::abort();
		if (pid == 0)
		{
			struct rlimit none = { 0, 0 };
			setrlimit(RLIMIT_CORE, &none);
			for (int s : { SIGTRAP, SIGABRT, SIGALRM }) ::signal(s, SIG_DFL);
			alarm(20);
			dup2(fd[1], 2);
			switch (environment)
			{
				case E_CLOSED: ::close(2); break;
				case E_FULL: { int full = ::open("/dev/full", O_WRONLY); if (full >= 0) dup2(full, 2); break; }
				case E_TRAP_HANDLED: ::signal(SIGTRAP, handled); break;
				case E_ABORT_HANDLED: ::signal(SIGABRT, handled); break;
				case E_BOTH_HANDLED: ::signal(SIGTRAP, handled); ::signal(SIGABRT, handled); break;
				case E_ABORT_BLOCKED: { sigset_t set; sigemptyset(&set); sigaddset(&set, SIGABRT); sigprocmask(SIG_BLOCK, &set, nullptr); break; }
				case E_BOTH_IGNORED: ::signal(SIGTRAP, SIG_IGN); ::signal(SIGABRT, SIG_IGN); break;
			}
			try { inContext(context, [&] { f(); _exit(99); }); } catch (...) { _exit(98); }
			_exit(97);
		}
		::close(fd[1]);
		char buf[512];
		for (ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) != 0;)
		{
			if (n < 0) { if (errno == EINTR) continue; break; }
			if (d.report.size() < 8192) d.report.append(buf, std::size_t(n));
		}
		::close(fd[0]);
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		d.killed = WIFSIGNALED(status);
		if (d.killed) d.signal = WTERMSIG(status); else d.code = WEXITSTATUS(status);
		d.returned = WIFEXITED(status) && d.code == 99;
		return d;
	}

	volatile i64 g_sink; // results of calls that are only made for their checks
	template<typename T> void sink(const T& v) { g_sink = i64(v); }

	struct Client
	{
		int evaluated = 0, thens = 0, elses = 0;

		// Makes the call. Outside its contract a checked build must stop there; f is the call alone, then looks at its effect.
		void attempt(const Op& op, bool legal, const char* what, const std::function<void()>& f, const std::function<void()>& then = nullptr, bool checked = Checked)
		{
			int environment = op.fn % E_COUNT;
			if (legal)
			{
				if (checked && op.b % 32 == 5) // also where failing would be the end
				{
					Death d = inChild(environment, op.client, f);
					CHECK("D01", "stopped-inside-contract", d.returned, "%s is inside its contract and ended the process (signal %d, code %d): %s", what, d.signal, d.code, d.report.c_str());
					SIM_COUNT("reach:legal-in-child");
				}
				libCall(F_NONE, 0, f);
				if (then) then();
				return;
			}
			if (!checked) return;
			SIM_COUNT("reach:outside-contract");
			if (environment != E_NORMAL) countNamed(std::string("fault-fired:") + environmentNames[environment]);
			Death d = inChild(environment, op.client, f);
			event(d.killed, d.returned);
			CHECK("D01", "not-stopped", d.killed && (d.signal == SIGTRAP || d.signal == SIGABRT || d.signal == SIGILL), "%s is outside its contract, but %s (context %d, fault %s): %s", what,
				d.returned ? "the call returned" : d.killed ? "was ended by another signal" : "was ended in another way", op.client % 4, environmentNames[environment], d.report.substr(0, 300).c_str());
			if (environment != E_CLOSED && environment != E_FULL)
				CHECK("D01", "no-report", d.report.find("ssertion") != std::string::npos, "%s is outside its contract and stopped without a report: %s", what, d.report.substr(0, 300).c_str());
		}

		template<typename To, typename From> void castInt(const Op& op, From value, const char* what)
		{
			__int128 v = value;
			bool legal = v >= __int128(std::numeric_limits<To>::lowest()) && v <= __int128(std::numeric_limits<To>::max());
			char text[128];
			std::snprintf(text, sizeof text, "SafeCast %s of %lld", what, (long long)value);
			const bool checked = Checked;
			From& ref = value;
			const From& cref = value;
			To r{};
			switch (op.c / 16 % 4)
			{
				case 0: attempt(op, legal, text, [&] { r = Nz::SafeCast<To>(From(value)); }, [&] { CHECK("D01", "value", r == To(value), "%s gives %lld", text, (long long)r); }, checked); break;
				case 1: attempt(op, legal, text, [&] { r = Nz::SafeCast<To>(ref); }, [&] { CHECK("D01", "value", r == To(value), "%s gives %lld", text, (long long)r); }, checked); break;
				case 2: attempt(op, legal, text, [&] { r = Nz::SafeCast<To>(cref); }, [&] { CHECK("D01", "value", r == To(value), "%s gives %lld", text, (long long)r); }, checked); break;
				case 3: attempt(op, legal, text, [&] { To x = Nz::SafeCaster(ref); r = x; }, [&] { CHECK("D01", "value", r == To(value), "%s gives %lld", text, (long long)r); }, checked); break;
			}
		}
		template<typename From> void castIntFrom(const Op& op, From value)
		{
			switch (op.b % 8)
			{
				case 0: castInt<Nz::UInt8>(op, value, "to UInt8"); break;
				case 1: castInt<Nz::Int8>(op, value, "to Int8"); break;
				case 2: castInt<Nz::UInt16>(op, value, "to UInt16"); break;
				case 3: castInt<Nz::Int16>(op, value, "to Int16"); break;
				case 4: castInt<Nz::UInt32>(op, value, "to UInt32"); break;
				case 5: castInt<Nz::Int32>(op, value, "to Int32"); break;
				case 6: castInt<Nz::UInt64>(op, value, "to UInt64"); break;
				case 7: castInt<Nz::Int64>(op, value, "to Int64"); break;
			}
		}
		template<typename To, typename From> void castFloat(const Op& op, From value, const char* what)
		{
			long double v = value; // holds every double and every 64-bit integer exactly
			bool legal = v >= (long double)(std::numeric_limits<To>::lowest()) && v <= (long double)(std::numeric_limits<To>::max()) && v == std::trunc(v);
			char text[128];
			std::snprintf(text, sizeof text, "SafeCast %s of %g", what, double(value));
			To r{};
			if (op.c / 16 % 2) attempt(op, legal, text, [&] { r = Nz::SafeCast<To>(value); }, [&] { CHECK("D01", "value", r == To(value), "%s gives %lld", text, (long long)r); });
			else attempt(op, legal, text, [&] { r = Nz::SafeCast<To>(From(value)); }, [&] { CHECK("D01", "value", r == To(value), "%s gives %lld", text, (long long)r); });
		}
		template<typename From> void castFloatFrom(const Op& op, From value)
		{
			switch (op.b % 6)
			{
				case 0: castFloat<Nz::UInt8>(op, value, "to UInt8"); break;
				case 1: castFloat<Nz::Int16>(op, value, "to Int16"); break;
				case 2: castFloat<Nz::Int32>(op, value, "to Int32"); break;
				case 3: castFloat<Nz::UInt32>(op, value, "to UInt32"); break;
				case 4: castFloat<Nz::UInt64>(op, value, "to UInt64"); break;
				case 5: castFloat<Nz::Int64>(op, value, "to Int64"); break;
			}
		}
		template<typename T> void bitOps(const Op& op)
		{
			T number = T(op.a * 37), bit = T(op.b % (int(sizeof(T)) * 8 + 3));
			if (std::is_signed_v<T> && op.c % 13 == 0) bit = T(-1);
			bool legal = i64(bit) >= 0 && i64(bit) < i64(sizeof(T) * 8);
			if (std::is_signed_v<T> && i64(bit) == i64(sizeof(T) * 8) - 1) return; // the sign bit: shifting into it is not judged
			std::make_unsigned_t<T> mask = legal ? std::make_unsigned_t<T>(std::make_unsigned_t<T>(1) << bit) : 0;
			T r{};
			switch (op.c / 16 % 4)
			{
				case 0: attempt(op, legal, "SetBit", [&] { r = Nz::SetBit(number, bit); }, [&] { CHECK("D01", "value", r == T(number | T(mask)), "SetBit"); }); break;
				case 1: attempt(op, legal, "ClearBit", [&] { r = Nz::ClearBit(number, bit); }, [&] { CHECK("D01", "value", r == T(number & T(~mask)), "ClearBit"); }); break;
				case 2: attempt(op, legal, "ToggleBit", [&] { r = Nz::ToggleBit(number, bit); }, [&] { CHECK("D01", "value", r == T(number ^ T(mask)), "ToggleBit"); }); break;
				case 3: { bool b = false; attempt(op, legal, "TestBit", [&] { b = Nz::TestBit(number, bit); sink(b); }, [&] { CHECK("D01", "value", b == bool(number & T(mask)), "TestBit"); }); break; }
			}
		}
		bool evaluate(bool value) { ++evaluated; return value; }
		// An assertion is one statement: the else belongs to the caller's condition.
		void branch(bool outer, bool holds, bool message)
		{
			if (message)
			{
				if (outer)
					NazaraAssertMsg(evaluate(holds), "branch %d", 1);
				else
					++elses;
			}
			else
			{
				if (outer)
					NazaraAssert(evaluate(holds));
				else
					++elses;
			}
			++thens;
		}
		void reportOf(const Op& op) // the report says what failed and where
		{
			bool wrong = op.a < 0;
			Death d = inChild(E_NORMAL, op.client, [&] { NazaraAssert(wrong); });
			char where[64];
			std::snprintf(where, sizeof where, "contract.cpp:%d", __LINE__ - 2);
			CHECK("D01", "report", d.killed && d.report.find("wrong") != std::string::npos && d.report.find(where) != std::string::npos, "the report of NazaraAssert(wrong) at %s is %s", where, d.report.substr(0, 200).c_str());
			Death m = inChild(E_NORMAL, op.client, [&] { NazaraAssertMsg(wrong, "%s %d", "level", 42); });
			std::snprintf(where, sizeof where, "contract.cpp:%d", __LINE__ - 1);
			CHECK("D01", "report", m.killed && m.report.find("level 42") != std::string::npos && m.report.find(where) != std::string::npos, "the report of a message with arguments at %s is %s", where, m.report.substr(0, 200).c_str());
		}
	};

	template<typename Block, std::size_t Capacity>
	struct World : Client
	{
		using Bits = Nz::Bitset<Block>;
		using Fixed = Nz::FixedVector<int, Capacity>;
		using Hybrid = Nz::HybridVector<int, Capacity>;
		using Pool = Nz::MemoryPool<i64>;
		using Impl = Nz::PrivateImpl<Circle>;
		using Array = Nz::EnumArray<Color, int>;
		static constexpr std::size_t W = sizeof(Block) * 8;
		const Plan& plan;
		const Component& comp;
		Bits bits;
		std::size_t bitCount = 0;
		Fixed fixed;
		Hybrid hybrid;
		std::unique_ptr<int[]> memory, arrayMemory;
		Nz::StackVector<int> stack;
		Nz::StackArray<int> array;
		std::size_t arraySize;
		std::vector<int> fixedModel, hybridModel, stackModel;
		Pool pools[2];
		std::map<std::size_t, i64> poolModel[2];
		Impl impl = Impl(nullptr);
		bool implSet = false;
		Array arrays[2];
		std::map<int, int> map;
		int nextVal = 1;

		World(const Plan& p, const Component& c) : plan(p), comp(c), memory(new int[Capacity]), arrayMemory(new int[4]), stack(memory.get(), Capacity), array(arrayMemory.get(), std::size_t(p.cfg[0])), arraySize(std::size_t(p.cfg[0])),
			pools{ Pool(std::size_t(p.cfg[1])), Pool(std::size_t(p.cfg[1])) } {}

		template<typename V> void vecStep(const Op& op, V& v, std::vector<int>& m, std::size_t limit, const char* what, bool fallback)
		{
			std::size_t n = m.size(), pos = std::size_t(op.b) % (n + 3);
			if (op.b % 31 == 30) pos = n + 1000000; // far outside
			char text[96];
			std::snprintf(text, sizeof text, "%s of %s at %zu of %zu", names[op.kind], what, pos, n);
			switch (op.kind)
			{
				case K_VEC_ADD: { int val = nextVal++; if (op.b % 3 == 0) attempt(op, n < limit, text, [&] { v.push_back(val); }, [&] { m.push_back(val); });
					else attempt(op, n < limit, text, [&] { v.emplace_back(val); }, [&] { m.push_back(val); }); break; }
				case K_VEC_INSERT:
				{
					int val = nextVal++;
					if (pos > n + 2) pos = n + 1;
					bool legal = pos <= n && n < limit;
					attempt(op, legal, text, [&] { if (op.c % 4 < 2) v.emplace(v.cbegin() + std::ptrdiff_t(pos), val); else v.insert(v.cbegin() + std::ptrdiff_t(pos), val); }, [&] { m.insert(m.begin() + std::ptrdiff_t(pos), val); });
					break;
				}
				case K_VEC_ERASE:
				{
					if (pos > n + 2) pos = n + 1;
					if (op.c % 3 == 0 && !fallback && n > 0) // ranges
					{
						std::size_t last = (pos + std::size_t(op.c)) % (n + 2), first = pos;
						bool legal = first == last ? first <= n : first < last && last <= n;
						if (first == last && first > n) break; // an empty range anywhere: not judged
						attempt(op, legal, text, [&] { v.erase(v.cbegin() + std::ptrdiff_t(first), v.cbegin() + std::ptrdiff_t(last)); }, [&] { m.erase(m.begin() + std::ptrdiff_t(first), m.begin() + std::ptrdiff_t(last)); });
					}
					else attempt(op, pos < n, text, [&] { v.erase(v.cbegin() + std::ptrdiff_t(pos)); }, [&] { m.erase(m.begin() + std::ptrdiff_t(pos)); });
					break;
				}
				case K_VEC_POP: if (!(fallback && n == 0)) attempt(op, n > 0, text, [&] { v.pop_back(); }, [&] { m.pop_back(); }); break;
				case K_VEC_READ:
				{
					const V& cv = v;
					switch (op.c % 6)
					{
						case 0: attempt(op, n > 0, text, [&] { sink(v.front()); }, [&] { CHECK("D01", "value", v.front() == m.front(), "front() of %s", what); }); break;
						case 1: attempt(op, n > 0, text, [&] { sink(v.back()); }, [&] { CHECK("D01", "value", v.back() == m.back(), "back() of %s", what); }); break;
						case 2: attempt(op, n > 0, text, [&] { sink(cv.front()); }); break;
						case 3: attempt(op, n > 0, text, [&] { sink(cv.back()); }); break;
						case 4: attempt(op, pos < n, text, [&] { sink(v[pos]); }, [&] { CHECK("D01", "value", v[pos] == m[pos], "element %zu of %s", pos, what); }); break;
						case 5: attempt(op, pos < n, text, [&] { sink(cv[pos]); }); break;
					}
					break;
				}
				case K_VEC_RESIZE:
				{
					std::size_t size = std::size_t(op.b) % (Capacity + 3);
					if (op.b % 29 == 28 && limit == Capacity) size = ~std::size_t(0); // as from -1
					if (op.c % 2) attempt(op, size <= limit, text, [&] { v.resize(size, 7); }, [&] { m.resize(size, 7); });
					else { attempt(op, size <= limit, text, [&] { v.resize(size); }, [&] { std::size_t old = m.size(); m.resize(size); for (std::size_t i = old; i < size; ++i) m[i] = v[i] = 0; }); }
					break;
				}
			}
		}

		void step(const Op& op)
		{
			i64 x = i64(op.b) % 4;
			switch (op.kind)
			{
				case K_BITS_RESIZE: bitCount = std::size_t(op.b) % 80; libCall(F_NONE, 0, [&] { bits.Resize(bitCount, op.c % 2); }); break;
				case K_BITS_AT:
				{
					std::size_t at = op.c % 8 == 0 ? bitCount : op.c % 8 == 1 ? bitCount + std::size_t(op.b) : op.c % 8 == 2 ? ~std::size_t(0) : bitCount ? std::size_t(op.b) % bitCount : 0;
					char text[96];
					std::snprintf(text, sizeof text, "bit %zu of %zu", at, bitCount);
					bool legal = at < bitCount;
					switch (op.a % 5)
					{
						case 0: attempt(op, legal, text, [&] { bits.Set(at, op.b % 2 == 0); }, [&] { CHECK("D01", "value", bits.Test(at) == (op.b % 2 == 0), "%s was set", text); }); break;
						case 1: attempt(op, legal, text, [&] { bits.Reset(at); }, [&] { CHECK("D01", "value", !bits.Test(at), "%s was reset", text); }); break;
						case 2: attempt(op, legal, text, [&] { sink(bits.Test(at)); }); break;
						case 3: attempt(op, legal, text, [&] { sink(bits.FindNext(at)); }); break;
						case 4: attempt(op, legal, text, [&] { sink(static_cast<const Bits&>(bits)[at]); }); break;
					}
					break;
				}
				case K_BITS_BLOCK:
				{
					std::size_t blocks = (bitCount + W - 1) / W, at = std::size_t(op.b) % (blocks + 2);
					if (op.a % 2) attempt(op, at < blocks, "reading a block", [&] { sink(bits.GetBlock(at)); });
					else attempt(op, at < blocks, "writing a block", [&] { bits.SetBlock(at, Block(op.c)); });
					break;
				}
				case K_BITS_TO:
					switch (op.a % 4)
					{
						case 0: attempt(op, bitCount <= 8, "To<UInt8>", [&] { sink(bits.template To<Nz::UInt8>()); }); break;
						case 1: attempt(op, bitCount <= 16, "To<UInt16>", [&] { sink(bits.template To<Nz::UInt16>()); }); break;
						case 2: attempt(op, bitCount <= 32, "To<UInt32>", [&] { sink(bits.template To<Nz::UInt32>()); }); break;
						case 3: attempt(op, bitCount <= 64, "To<UInt64>", [&] { sink(bits.template To<Nz::UInt64>()); }); break;
					}
					break;
				case K_BITS_WRITE:
				{
					static const unsigned char source[16] = { 0x5A, 0xC3, 0x11, 0xFE };
					std::size_t offset = std::size_t(op.b) % 10, count = std::size_t(op.c) % 20;
					bool null = op.a % 4 == 0;
					typename Bits::PointerSequence from(null ? nullptr : source, offset);
					attempt(op, !null && offset < 8, "Write", [&] { bits.Write(from, count); }, [&] { bitCount += count; CHECK("D01", "value", bits.GetSize() == bitCount, "%zu bits instead of %zu", bits.GetSize(), bitCount); });
					break;
				}
				case K_VEC_ADD: case K_VEC_INSERT: case K_VEC_ERASE: case K_VEC_POP: case K_VEC_READ: case K_VEC_RESIZE:
					switch (op.a % 3)
					{
						case 0: vecStep(op, fixed, fixedModel, Capacity, "a fixed vector", false); break;
						case 1:
							if (hybridModel.size() > 40) { libCall(F_NONE, 0, [&] { hybrid.clear(); }); hybridModel.clear(); }
							vecStep(op, hybrid, hybridModel, ~std::size_t(0) - 1, "a hybrid vector", true);
							break;
						case 2: vecStep(op, stack, stackModel, Capacity, "a stack vector", false); break;
					}
					break;
				case K_ARRAY:
				{
					std::size_t at = std::size_t(op.b) % (arraySize + 2);
					const auto& ca = array;
					switch (op.a % 6)
					{
						case 0: attempt(op, at < arraySize, "an element of a stack array", [&] { array[at] = op.c; }, [&] { CHECK("D01", "value", ca[at] == op.c, "element %zu", at); }); break;
						case 1: attempt(op, at < arraySize, "an element of a stack array", [&] { sink(ca[at]); }); break;
						case 2: if (arraySize) attempt(op, true, "front() of a stack array", [&] { sink(array.front()); }); break;
						case 3: attempt(op, arraySize > 0, "back() of a stack array", [&] { sink(array.back()); }); break;
						case 4: if (arraySize) attempt(op, true, "front() of a stack array", [&] { sink(ca.front()); }); break;
						case 5: attempt(op, arraySize > 0, "back() of a stack array", [&] { sink(ca.back()); }); break;
					}
					break;
				}
				case K_POOL_ALLOC:
				{
					int which = op.a % 2;
					if (poolModel[which].size() >= 12) break;
					std::size_t index = 0;
					libCall(F_NONE, 0, [&] { pools[which].Allocate(index, i64(nextVal)); });
					CHECK("D01", "value", !poolModel[which].count(index), "entry %zu is given twice", index);
					poolModel[which][index] = nextVal++;
					break;
				}
				case K_POOL_FREE:
				case K_POOL_GET:
				{
					int which = op.a % 2;
					auto& m = poolModel[which];
					std::size_t index = std::size_t(op.b) % (pools[which].GetBlockCount() * pools[which].GetBlockSize() + 2);
					if (op.c % 9 == 0) index += pools[which].GetBlockSize() * 1000;
					bool legal = m.count(index);
					char text[96];
					std::snprintf(text, sizeof text, "%s of entry %zu of a pool of %zu", names[op.kind], index, m.size());
					if (op.kind == K_POOL_FREE) attempt(op, legal, text, [&] { pools[which].Free(index); }, [&] { m.erase(index); });
					else if (op.c % 2) attempt(op, legal, text, [&] { sink(*pools[which].RetrieveFromIndex(index)); }, [&] { CHECK("D01", "value", *pools[which].RetrieveFromIndex(index) == m[index], "%s gives another value", text); });
					else attempt(op, legal, text, [&] { sink(*static_cast<const Pool&>(pools[which]).RetrieveFromIndex(index)); });
					break;
				}
				case K_POOL_ITER:
				{
					int which = op.a % 2;
					auto& m = poolModel[which];
					std::size_t steps = std::size_t(op.b) % (m.size() + 1);
					auto it = pools[which].begin();
					for (std::size_t i = 0; i < steps; ++i) ++it;
					bool inside = steps < m.size();
					switch (op.c % 4)
					{
						case 0: attempt(op, inside, "advancing a pool iterator", [&] { auto copy = it; ++copy; }); break;
						case 1: attempt(op, inside, "reading a pool iterator", [&] { sink(*it); }); break;
						case 2: attempt(op, inside, "the index of a pool iterator", [&] { sink(it.GetIndex()); }, [&] { CHECK("D01", "value", m.count(it.GetIndex()), "a pool iterator has no entry"); }); break;
						case 3: attempt(op, x == 0, "comparing pool iterators", [&] { sink(it == pools[x == 0 ? which : 1 - which].begin()); }); break;
					}
					break;
				}
				case K_POOL_INDEX: // also of an address that is no entry, which is not an error
				{
					int which = op.a % 2;
					auto& m = poolModel[which];
					static i64 foreign = 0;
					std::size_t index = 0;
					if (m.empty() || op.b % 3 == 0) attempt(op, true, "the index of an object of another place", [&] { index = pools[which].RetrieveEntryIndex(&foreign); }, [&] { CHECK("D01", "value", index == Pool::InvalidIndex, "another object is entry %zu", index); });
					else
					{
						auto entry = std::next(m.begin(), op.c % int(m.size()));
						i64* address = pools[which].RetrieveFromIndex(entry->first);
						bool here = op.b % 3 == 1;
						attempt(op, true, "the index of an entry", [&] { index = pools[here ? which : 1 - which].RetrieveEntryIndex(address); }, [&] { CHECK("D01", "value", index == (here ? entry->first : Pool::InvalidIndex), "entry %zu has index %zu", entry->first, index); });
					}
					break;
				}
				case K_IMPL:
					if (op.b % 4 == 0) { libCall(F_NONE, 0, [&] { impl = Impl(nullptr); }); implSet = false; }
					else attempt(op, !implSet, "a second implementation", [&] { impl.Emplace(); }, [&] { implSet = true; });
					break;
				case K_FLAGS:
				{
					Nz::Flags<Color> flags(static_cast<typename Nz::Flags<Color>::BitField>(op.b % 8));
					auto it = flags.begin();
					std::size_t n = flags.Count(), steps = std::size_t(op.c) % (n + 1);
					for (std::size_t i = 0; i < steps; ++i) ++it;
					if (op.a % 2) attempt(op, steps < n, "advancing a flag iterator", [&] { auto copy = it; ++copy; });
					else attempt(op, steps < n, "reading a flag iterator", [&] { sink(*it); });
					break;
				}
				case K_KV:
				{
					auto a = arrays[0].iter_kv().begin(), b = arrays[op.b % 2].iter_kv().end();
					bool legal = op.b % 2 == 0;
					bool r = false;
					attempt(op, legal, "comparing iterators of enumeration arrays", [&]
					{
						switch (op.c % 6)
						{
							case 0: r = a == b; break;
							case 1: r = a != b; break;
							case 2: r = a < b; break;
							case 3: r = a <= b; break;
							case 4: r = a > b; break;
							case 5: r = a >= b; break;
						}
						sink(r);
					}, [&] { CHECK("D01", "value", r == (op.c % 6 == 1 || op.c % 6 == 2 || op.c % 6 == 3), "iterators compare wrongly"); });
					break;
				}
				case K_SIGNAL:
				{
					Nz::Signal<int> signal;
					int heard = 0;
					std::function<void(int)> f;
					if (op.b % 3) f = [&](int v) { heard += v; };
					bool legal = bool(f);
					attempt(op, legal, "connecting an empty function", [&] { signal.Connect(std::function<void(int)>(f)); }, [&] { signal(2); CHECK("D01", "value", heard == 2, "a connected function was not called"); });
					break;
				}
				case K_SPARSE:
				{
					std::size_t stride = op.b % 2 ? std::size_t(std::numeric_limits<int>::max()) + std::size_t(op.c % 3) : std::size_t(op.c % 64);
					int value = 0;
					attempt(op, stride <= std::size_t(std::numeric_limits<int>::max()), "the stride of a sparse pointer", [&] { Nz::SparsePtr<int> p(&value, stride); sink(p.GetStride()); });
					break;
				}
				case K_MAP_PUT: if (op.b % 3 == 0) map.erase(op.c % 5); else map[op.c % 5] = nextVal++; break;
				case K_MAP_GET:
				{
					int key = op.c % 5;
					if (op.b % 2) attempt(op, map.count(key) != 0, "Retrieve", [&] { sink(Nz::Retrieve(map, key)); }, [&] { CHECK("D01", "value", &Nz::Retrieve(map, key) == &map[key], "Retrieve gives another entry"); });
					else attempt(op, map.count(key) != 0, "Retrieve", [&] { sink(Nz::Retrieve(static_cast<const std::map<int, int>&>(map), key)); });
					break;
				}
				case K_CAST_INT:
				{
					// values around the limits of every type
					static const int widths[] = { 7, 8, 15, 16, 31, 32, 63 };
					u64 base = u64(1) << widths[op.a % 7];
					i64 off = i64(op.c % 16) % 5 - 2;
					u64 magnitude = op.b / 8 % 3 == 0 ? u64(op.c % 300) : base + u64(off);
					bool negative = op.b / 24 % 2 != 0;
					i64 s = negative ? i64(0 - magnitude) : i64(magnitude);
					switch (op.c / 64 % 8)
					{
						case 0: castIntFrom(op, Nz::UInt8(s)); break;
						case 1: castIntFrom(op, Nz::Int8(s)); break;
						case 2: castIntFrom(op, Nz::UInt16(s)); break;
						case 3: castIntFrom(op, Nz::Int16(s)); break;
						case 4: castIntFrom(op, Nz::UInt32(s)); break;
						case 5: castIntFrom(op, Nz::Int32(s)); break;
						case 6: castIntFrom(op, Nz::UInt64(magnitude)); break;
						case 7: castIntFrom(op, Nz::Int64(s)); break;
					}
					break;
				}
				case K_CAST_FLOAT:
				{
					static const int widths[] = { 0, 7, 8, 15, 16, 31, 32, 52, 63, 64 };
					double v = std::ldexp(1.0, widths[op.a % 10]) + double(op.c % 16 % 5 - 2) * (op.c % 3 == 0 ? 0.5 : 1.0);
					if (op.c % 7 == 0) v = double(op.b % 700) - 300;
					if (op.c % 29 == 1) v = std::numeric_limits<double>::quiet_NaN();
					if (op.c % 29 == 2) v = std::numeric_limits<double>::infinity();
					if (op.b / 24 % 2) v = -v;
					if (op.c / 64 % 2) castFloatFrom(op, float(v)); else castFloatFrom(op, v);
					break;
				}
				case K_CAST_ENUM:
				{
					static const Level levels[] = { Level::Low, Level::High, Level::Deep };
					Level level = levels[op.a % 3];
					switch (op.b % 3)
					{
						case 0: attempt(op, level == Level::Low, "SafeCast of an enumerator to UInt8", [&] { sink(Nz::SafeCast<Nz::UInt8>(level)); }); break;
						case 1: attempt(op, level != Level::High, "SafeCast of an enumerator to Int8", [&] { sink(Nz::SafeCast<Nz::Int8>(Level(level))); }); break;
						case 2: { i64 v = op.c % 2 ? 300 : i64(1) << 40; attempt(op, op.c % 2, "SafeCast to an enumeration", [&] { sink(i64(Nz::SafeCast<Level>(v))); }); break; }
					}
					break;
				}
				case K_CAST_OBJECT:
				{
					Circle circle;
					Square square;
					Shape* none = nullptr;
					Shape* shape = op.a % 3 == 0 ? static_cast<Shape*>(&circle) : op.a % 3 == 1 ? static_cast<Shape*>(&square) : none;
					const Shape* cshape = shape;
					bool legal = op.a % 3 != 1;
					switch (op.b % 4)
					{
						case 0: attempt(op, legal, "SafeCast to a pointer of another class", [&] { Circle* p = Nz::SafeCast<Circle*>(shape); sink(p == &circle); }); break;
						case 1: attempt(op, legal, "SafeCast to a pointer of another class", [&] { const Circle* p = Nz::SafeCast<const Circle*>(cshape); sink(p == &circle); }); break;
						case 2: if (shape) attempt(op, legal, "SafeCast to a reference to another class", [&] { Circle& r = Nz::SafeCast<Circle&>(*shape); sink(&r == &circle); }); break;
						case 3:
						{
							// casting an owning pointer
							bool wrong = op.a % 3 == 1;
							attempt(op, !wrong, "StaticUniquePointerCast to another class", [&]
							{
								std::unique_ptr<Shape> owner;
								if (wrong) owner = std::make_unique<Square>(); else owner = std::make_unique<Circle>();
								std::unique_ptr<Circle> cast = Nz::StaticUniquePointerCast<Circle>(std::move(owner));
								sink(cast->radius);
							});
							break;
						}
					}
					break;
				}
				case K_BITOPS:
					switch (op.a % 6)
					{
						case 0: bitOps<Nz::UInt8>(op); break;
						case 1: bitOps<Nz::UInt16>(op); break;
						case 2: bitOps<Nz::UInt32>(op); break;
						case 3: bitOps<Nz::UInt64>(op); break;
						case 4: bitOps<Nz::Int32>(op); break;
						case 5: bitOps<Nz::Int64>(op); break;
					}
					break;
				case K_ALIGN:
				{
					int alignment = op.b % 10 - (op.c % 5 == 0 ? 5 : 0), offset = op.c % 100, r = 0;
					bool pow2 = alignment > 0 && (alignment & (alignment - 1)) == 0;
					switch (op.a % 3)
					{
						case 0: attempt(op, alignment > 0, "Align", [&] { r = Nz::Align(offset, alignment); }, [&] { CHECK("D01", "value", r >= offset && r < offset + alignment && r % alignment == 0, "Align(%d, %d) is %d", offset, alignment, r); }); break;
						case 1: attempt(op, pow2, "AlignPow2", [&] { r = Nz::AlignPow2(offset, alignment); }, [&] { CHECK("D01", "value", r >= offset && r < offset + alignment && r % alignment == 0, "AlignPow2(%d, %d) is %d", offset, alignment, r); }); break;
						case 2: if (alignment >= 0) attempt(op, alignment != 0, "IsPow2", [&] { r = Nz::IsPow2(alignment); sink(r); }, [&] { CHECK("D01", "value", bool(r) == pow2, "IsPow2(%d) is %d", alignment, r); }); break;
					}
					break;
				}
				case K_ASSERT_FUNC: // checks in every build
				{
					bool holds = op.b % 3 != 0;
					switch (op.c % 4)
					{
						case 0: attempt(op, holds, "Nz::Assert", [&] { Nz::Assert(holds); }, nullptr, true); break;
						case 1: attempt(op, holds, "Nz::Assert with a message", [&] { Nz::Assert(holds, "100% wrong"); }, nullptr, true); break;
						case 2: attempt(op, holds, "Nz::Assert with arguments", [&] { Nz::Assert(holds, "%s is %d", "answer", op.c); }, nullptr, true); break;
						case 3: attempt(op, holds, "Nz::AssertWithSource", [&] { Nz::AssertWithSource(holds, "somewhere.cpp", 12u, "it is %d", op.c); }, nullptr, true); break;
					}
					break;
				}
				case K_ASSERT_MACRO:
				{
					bool holds = op.b % 3 != 0;
					int before = evaluated;
					switch (op.c % 3)
					{
						case 0: attempt(op, holds, "NazaraAssert", [&] { NazaraAssert(evaluate(holds)); }); break;
						case 1: attempt(op, holds, "NazaraAssertMsg", [&] { NazaraAssertMsg(evaluate(holds), "50% of nothing"); }); break;
						case 2: attempt(op, holds, "NazaraAssertMsg with arguments", [&] { NazaraAssertMsg(evaluate(holds), "%s: %d", "count", op.c); }); break;
					}
					CHECK("D01", "evaluation", evaluated - before == (Checked && holds ? 1 : 0), "the condition of an assertion was evaluated %d times", evaluated - before);
					if (Checked && !holds) reportOf(op);
					break;
				}
				case K_BRANCH:
				{
					bool outer = op.a % 2, holds = op.b % 3 != 0;
					int e = elses, t = thens, v = evaluated;
					if (!Checked) holds = true;
					bool legal = !outer || holds;
					attempt(op, legal, "an assertion in a branch", [&] { branch(outer, holds, op.c % 2); });
					if (legal && op.b % 32 != 5)
						CHECK("D01", "flow", elses - e == (outer ? 0 : 1) && thens - t == 1 && evaluated - v == (outer && Checked ? 1 : 0),
							"with a condition that is %d and a check that holds, the else branch ran %d times, the check %d times", int(outer), elses - e, evaluated - v);
					break;
				}
			}
		}
		template<typename V> void compareVec(const V& v, const std::vector<int>& m, const char* what)
		{
			CHECK("D01", "content", v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin()), "%s differs from its history", what);
		}
		void run()
		{
			for (std::size_t i = 0; i < arraySize; ++i) array[i] = 0;
			for (Array& a : arrays) a.fill(0);
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				compareVec(fixed, fixedModel, "the fixed vector");
				compareVec(hybrid, hybridModel, "the hybrid vector");
				compareVec(stack, stackModel, "the stack vector");
				CHECK("D01", "content", bits.GetSize() == bitCount, "the bitset has %zu bits instead of %zu", bits.GetSize(), bitCount);
				for (int i = 0; i < 2; ++i)
				{
					CHECK("D01", "content", pools[i].size() == poolModel[i].size(), "a pool has %zu entries instead of %zu", pools[i].size(), poolModel[i].size());
					for (auto& [index, value] : poolModel[i]) CHECK("D01", "content", *pools[i].RetrieveFromIndex(index) == value, "entry %zu of a pool has another value", index);
				}
				noteState(fixedModel.size() * 7 + hybridModel.size() * 101 + stackModel.size() * 1009 + bitCount * 10007 + poolModel[0].size() * 100003 + poolModel[1].size() * 1000003 + map.size() * 10000019 + u64(implSet) * 100000007);
			}
			g_opIndex = idx;
		}
	};

	struct ContractComponent : Component
	{
		ContractComponent() { name = "contract"; g_lifetimeProp = "D01"; }
		int variants() const override { return 3; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "blocks of 8 bits, capacity 5", "blocks of 64 bits, capacity 3", "blocks of 32 bits, capacity 1" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "D01" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }
		Plan generate(Rng& r, int) override
		{
			Plan p;
			p.cfg = { r.range(5), r.between(1, 4) };
			std::vector<int> w(K_COUNT);
			for (int k = 0; k < K_COUNT; ++k) w[std::size_t(k)] = r.chance(1, 2) ? r.between(1, 3) : 0;
			w[K_BITS_RESIZE] += 1; w[K_VEC_ADD] += 1; w[K_POOL_ALLOC] += 1;
			Scheduler sched(r, 4);
			int len = r.between(3, 14), faults = r.range(3);
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i)
			{
				Op op;
				op.client = sched.next(r); op.kind = r.pick(w);
				op.a = r.range(64); op.b = r.range(512); op.c = r.range(1024);
				op.fn = faults && r.chance(faults, 3) ? r.range(E_COUNT) : E_NORMAL;
				p.lists[0].push_back(op);
			}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: World<Nz::UInt8, 5>(plan, *this).run(); break;
				case 1: World<Nz::UInt64, 3>(plan, *this).run(); break;
				case 2: World<Nz::UInt32, 1>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new ContractComponent; }
