// FixedVector and HybridVector. Real code: FixedVector, MemoryHelper, std::vector as fallback storage.
#include "seq.inc.hpp"
#include <NazaraUtils/FixedVector.hpp>

using namespace sim;

namespace
{
	template<typename V>
	struct Adapter
	{
		using Vec = V;
		using Arg = i64;
		static constexpr bool HasCtors = true, HasCopy = true, HasReserve = true, AssignExchanges = false;
		static constexpr bool Hybrid = !std::is_same_v<V, Nz::FixedVector<typename V::value_type, V::FixedCapacity>>;
		static void create(void* mem, std::size_t, std::vector<void*>&) { new (mem) V(); }
		static std::size_t limit(std::size_t bound) { return Hybrid ? bound : V::FixedCapacity; }
		static std::size_t room(V&, std::size_t bound) { return limit(bound); }
		static void moved(std::size_t& d, std::size_t& s) { d = s; }
		static void reserve(V& v, std::size_t n) { v.reserve(n); }
		static u64 mode(const V& v) { return v.capacity() > V::FixedCapacity ? 1 : 0; } // inline or fallback storage
	};

	struct VectorComponent : Component
	{
		VectorComponent() { name = "vector"; g_lifetimeProp = "V02"; }
		int variants() const override { return 18; }
		std::string variantName(int v) const override
		{
			static const char* n[] = {
				"HybridVector<Elem(copy and move throw), 2>", "HybridVector<Elem(nothrow move), 2>", "HybridVector<Elem(move-only, throws), 2>", "HybridVector<Elem(move-only, nothrow), 2>",
				"HybridVector<Elem(copy and move throw), 1>", "HybridVector<int, 4>", "HybridVector<Elem(no default), 3>", "HybridVector<Elem(nothrow move), 6>",
				"FixedVector<Elem(copy and move throw), 5>", "FixedVector<Elem(move-only, nothrow), 4>", "FixedVector<Elem(no default), 1>", "FixedVector<int, 320>",
				"HybridVector<Elem(nothrow move), 24>", "HybridVector<Elem(copy and move throw), 12>", "HybridVector<Elem(alignment 64), 2>", "FixedVector<Elem(copy and move throw), 24>", "FixedVector<Elem(nothrow move), 300>", "FixedVector<Elem(alignment 128), 5>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "V02", "V01" }; }
		const char* opName(int k) const override { return seq::names[k]; }
		int opCount() const override { return seq::K_COUNT; }
		Plan generate(Rng& r, int v) override
		{
			 bool hybrid = v < 8 || (v >= 12 && v < 15);
			Plan p = seq::generatePlan(r, hybrid, hybrid);
			if ((v == 12 || v == 13) && p.cfg[2] <= 20 && r.chance(1, 2)) p.cfg[2] += 24; // let them outgrow their storage
			return p;
		}
		template<typename V> void go(const Plan& plan) { seq::World<Adapter<V>>(plan, *this, { "V01", "V02" }).run(); }
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: go<Nz::HybridVector<Elem<ThrowingMove>, 2>>(plan); break;
				case 1: go<Nz::HybridVector<Elem<NothrowMove>, 2>>(plan); break;
				case 2: go<Nz::HybridVector<Elem<MoveOnly | ThrowingMove>, 2>>(plan); break;
				case 3: go<Nz::HybridVector<Elem<MoveOnly | NothrowMove>, 2>>(plan); break;
				case 4: go<Nz::HybridVector<Elem<ThrowingMove>, 1>>(plan); break;
				case 5: go<Nz::HybridVector<int, 4>>(plan); break;
				case 6: go<Nz::HybridVector<Elem<NothrowMove | NoDefault>, 3>>(plan); break;
				case 7: go<Nz::HybridVector<Elem<NothrowMove>, 6>>(plan); break;
				case 8: go<Nz::FixedVector<Elem<ThrowingMove>, 5>>(plan); break;
				case 9: go<Nz::FixedVector<Elem<MoveOnly | NothrowMove>, 4>>(plan); break;
				case 10: go<Nz::FixedVector<Elem<NothrowMove | NoDefault>, 1>>(plan); break;
				case 11: go<Nz::FixedVector<int, 320>>(plan); break;
				case 12: go<Nz::HybridVector<Elem<NothrowMove>, 24>>(plan); break;
				case 13: go<Nz::HybridVector<Elem<ThrowingMove>, 12>>(plan); break;
				case 14: go<Nz::HybridVector<AlignedElem<64>, 2>>(plan); break;
				case 15: go<Nz::FixedVector<Elem<ThrowingMove>, 24>>(plan); break;
				case 16: go<Nz::FixedVector<Elem<NothrowMove>, 300>>(plan); break;
				case 17: go<Nz::FixedVector<AlignedElem<128>, 5>>(plan); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new VectorComponent; }
