// StackVector. Real code: StackVector, MovablePtr, MemoryHelper. The storage a caller would take from its
// stack frame is a heap block that lives as long as the simulated frame.
#include "seq.inc.hpp"
#include <NazaraUtils/StackVector.hpp>

using namespace sim;

namespace
{
	template<typename T>
	struct Adapter
	{
		using Vec = Nz::StackVector<T>;
		using Arg = i64;
		static constexpr bool HasCtors = false, HasCopy = false, HasReserve = false, AssignExchanges = true;
		static void create(void* mem, std::size_t bound, std::vector<void*>& buffers)
		{
			if (bound == 0)
			{
				Vec* v = new (mem) Vec();
				CHECK("K01", "capacity", v->capacity() == 0 && v->max_size() == 0, "a default-constructed vector has room for %zu elements", v->capacity());
				return;
			}
			void* storage;
			{
				HarnessScope hs;
				storage = ::operator new(bound * sizeof(T), std::align_val_t(64));
				buffers.push_back(storage);
			}
			Vec* v = new (mem) Vec(static_cast<T*>(storage), bound);
			CHECK("K01", "capacity", v->capacity() == bound && v->max_size() == bound, "a vector over memory for %zu elements has capacity %zu and maximum size %zu", bound, v->capacity(), v->max_size());
		}
		static std::size_t limit(std::size_t bound) { return bound; }
		static std::size_t room(Vec& v, std::size_t) { return v.capacity(); }
		static void moved(std::size_t& d, std::size_t& s) { d = s; s = 0; }
		static void reserve(Vec&, std::size_t) {}
		static u64 mode(const Vec& v) { return v.capacity(); }
	};

	struct StackVectorComponent : Component
	{
		StackVectorComponent() { name = "stackvec"; g_lifetimeProp = "K01"; }
		int variants() const override { return 6; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "StackVector<Elem(copy and move throw)>", "StackVector<Elem(nothrow move)>", "StackVector<Elem(move-only, throws)>", "StackVector<Elem(move-only, nothrow)>", "StackVector<int>", "StackVector<Elem(alignment 64)>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "K01" }; }
		const char* opName(int k) const override { return seq::names[k]; }
		int opCount() const override { return seq::K_COUNT; }
		Plan generate(Rng& r, int) override { return seq::generatePlan(r, false, false); }
		template<typename T> void go(const Plan& plan) { seq::World<Adapter<T>>(plan, *this, { "K01", "K01" }).run(); }
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: go<Elem<ThrowingMove>>(plan); break;
				case 1: go<Elem<NothrowMove>>(plan); break;
				case 2: go<Elem<MoveOnly | ThrowingMove>>(plan); break;
				case 3: go<Elem<MoveOnly | NothrowMove>>(plan); break;
				case 4: go<int>(plan); break;
				case 5: go<AlignedElem<64>>(plan); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new StackVectorComponent; }
