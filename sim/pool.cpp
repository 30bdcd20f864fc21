// Simulated clients sharing memory pools. Real code: MemoryPool, Bitset, MemoryHelper.
#include "sim.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <optional>
#include <set>

using namespace sim;

namespace
{
	enum Kind { K_ALLOC, K_ALLOC_DEFER, K_FINISH, K_FREE, K_FREE_NODESTROY, K_WRITE, K_RESET, K_CLEAR, K_MOVE_CONSTRUCT, K_MOVE_ASSIGN, K_DESTROY, K_ITERATE, K_LOOKUP, K_BULK, K_COUNT };
	const char* const names[] = { "Allocate", "AllocateDeferred", "ConstructDeferred", "Free", "FreeNoDestruction", "Write", "Reset", "Clear", "MoveConstruct", "MoveAssign", "DestroyPool", "Iterate", "Lookup", "AllocateMany" };

	struct World;
	World* g_world = nullptr;
	void constructHook(int script, i64 val);
	void destroyHook(int script, i64 val);

	// Pool entry: a tracked object whose constructor and destructor may call back into the pool
	struct NodeBase : Elem<NothrowMove | NoDefault>
	{
		int onConstruct, onDestroy;
		Received gift;
		NodeBase(i64 v, int oc, int od, Received g) : Elem(v), onConstruct(oc), onDestroy(od), gift(g)
		{
			HarnessScope hs;
			if (onConstruct >= 0) constructHook(onConstruct, v);
			if (oc == -2) throwPoint(8); // late failure: after the base object was built
		}
		NodeBase(const NodeBase&) = delete;
		~NodeBase()
		{
			HarnessScope hs;
			if (onDestroy >= 0) destroyHook(onDestroy, val);
		}
	};
	template<int Pad> struct Node : NodeBase
	{
		unsigned char body[Pad];
		Node(i64 v, int oc, int od, Received g = {}) : NodeBase(v, oc, od, g) { fill(); }
		void fill() { for (int i = 0; i < Pad; ++i) body[i] = static_cast<unsigned char>(val * 31 + i); }
		bool intact() const { for (int i = 0; i < Pad; ++i) if (body[i] != static_cast<unsigned char>(val * 31 + i)) return false; return true; }
	};

	struct World { virtual ~World() = default; virtual void onConstruct(int script, i64) = 0; virtual void onDestroy(int script, i64) = 0; };
	void constructHook(int script, i64 v) { if (g_world) g_world->onConstruct(script, v); }
	void destroyHook(int script, i64 v) { if (g_world) g_world->onDestroy(script, v); }

	template<typename T, std::size_t Align>
	struct PoolWorld : World
	{
		using Pool = Nz::MemoryPool<T, Align>;
		struct Entry { T* ptr; i64 val; bool constructed; int owner; };
		struct Slot
		{
			std::unique_ptr<Pool> pool;
			std::map<std::size_t, Entry> live; // reference model
			std::size_t blockSize = 0, blocks = 0;
			bool blocksKnown = true;
			int busy = 0; // a call into this pool is on the stack
		};
		const Plan& plan;
		const Component& comp;
		std::vector<Slot> pools;
		i64 nextVal = 1;
		int depth = 0, budget = 400;
		bool hooksOff = false;

		PoolWorld(const Plan& p, const Component& c) : plan(p), comp(c) {}

		static const char* P(int i) { static const char* n[] = { "M01", "M02", "M03" }; return n[i - 1]; }

		void create(Slot& s, std::size_t bs)
		{
			s.pool.reset(); // harness allocation; destruction of the library object happens in destroyPool
			s.blockSize = bs;
			Pool* raw = nullptr;
			void* mem = ::operator new(sizeof(Pool));
			libCall(F_NONE, 0, [&] { raw = new (mem) Pool(bs); });
			s.pool.reset(raw);
			s.blocks = 1;
			s.blocksKnown = true;
			s.live.clear();
		}
		void destroyPool(Slot& s)
		{
			Pool* raw = s.pool.release();
			if (!raw) return;
			finishDeferred(s);
			hooksOff = true;
			libCall(F_NONE, 0, [&] { raw->~Pool(); });
			hooksOff = false;
			::operator delete(static_cast<void*>(raw));
			checkDestroyed(s, "destroying the pool");
			s.live.clear();
		}
		// every live entry must have been destroyed by what just happened
		void checkDestroyed(Slot& s, const char* what)
		{
			for (auto& [i, e] : s.live)
				CHECK("M03", "entry-not-destroyed", g_ledger.live.find(e.ptr) == g_ledger.live.end(), "entry %zu was not destroyed by %s", i, what);
		}
		void finishDeferred(Slot& s)
		{
			for (auto& [i, e] : s.live)
				if (!e.constructed)
				{
					bool saved = hooksOff;
					hooksOff = true;
					new (static_cast<void*>(e.ptr)) T(e.val, -1, -1);
					hooksOff = saved;
					e.constructed = true;
				}
		}
		Entry* pickEntry(Slot& s, int sel, std::size_t& index, int client = -1)
		{
			if (s.live.empty()) return nullptr;
			auto it = s.live.begin();
			std::advance(it, std::size_t(sel) % s.live.size());
			(void)client;
			index = it->first;
			return &it->second;
		}
		void fullCheck(Slot& s)
		{
			if (!s.pool) return;
			const Pool& cp = *s.pool;
			Pool& p = *s.pool;
			std::size_t n = s.live.size();
			std::size_t blocks = 0, alloc = 0, freeN = 0, size = 0, bs = 0;
			libCall(F_NONE, 0, [&] { blocks = cp.GetBlockCount(); alloc = cp.GetAllocatedEntryCount(); freeN = cp.GetFreeEntryCount(); size = p.size(); bs = cp.GetBlockSize(); });
			if (!s.blocksKnown) { s.blocks = blocks; s.blocksKnown = true; }
			CHECK("M02", "allocated-count", alloc == n, "allocated count is %zu, %zu entries are live", alloc, n);
			CHECK("M02", "size", size == n, "size() is %zu, %zu entries are live", size, n);
			CHECK("M02", "block-size", bs == s.blockSize, "block size is %zu instead of %zu", bs, s.blockSize);
			CHECK("M02", "block-count", blocks == s.blocks, "the pool has %zu blocks, expected %zu", blocks, s.blocks);
			CHECK("M02", "free-count", freeN == blocks * s.blockSize - n, "free count is %zu with %zu blocks of %zu and %zu live entries", freeN, blocks, s.blockSize, n);
			// index <-> address, stability, contents
			for (auto& [i, e] : s.live)
			{
				T* byIndex = nullptr; const T* byIndexC = nullptr; std::size_t idx = 0;
				libCall(F_NONE, 0, [&] { byIndex = p.RetrieveFromIndex(i); byIndexC = cp.RetrieveFromIndex(i); idx = p.RetrieveEntryIndex(e.ptr); });
				CHECK("M01", "address-of-index", byIndex == e.ptr && byIndexC == e.ptr, "index %zu no longer maps to the address it was allocated at", i);
				CHECK("M01", "index-of-address", idx == i, "the address of entry %zu maps to index %zu", i, idx);
				CHECK("M01", "alignment", reinterpret_cast<std::uintptr_t>(e.ptr) % Align == 0, "entry %zu is not aligned to %zu", i, Align);
				if (e.constructed)
				{
					CHECK("M01", "content", valueOf(*e.ptr) == e.val && e.ptr->intact(), "entry %zu holds %lld instead of %lld", i, (long long)e.ptr->val, (long long)e.val);
					CHECK("M03", "entry-dead", g_ledger.live.count(e.ptr), "live entry %zu was destroyed", i);
				}
			}
			// iteration: every live entry once, in index order, through all iterator kinds
			auto it = s.live.begin();
			std::size_t visited = 0;
			auto visit = [&](std::size_t index, const T* ptr, const char* how)
			{
				visited++;
				CHECK("M02", "iteration-extra", it != s.live.end() && visited <= n, "%s visits index %zu beyond the %zu live entries", how, index, n);
				if (it == s.live.end()) return false;
				CHECK("M02", "iteration-order", it->first == index, "%s visits index %zu where %zu was expected", how, index, it->first);
				CHECK("M02", "iteration-entry", it->second.ptr == ptr, "%s gives a wrong object for index %zu", how, index);
				++it;
				return true;
			};
			{
				auto a = p.begin(), end = p.end();
				while (a != end)
				{
					if (!visit(a.GetIndex(), &*a, "iteration")) break;
					++a;
				}
				CHECK("M02", "iteration-missing", visited == n, "iteration visited %zu of %zu live entries", visited, n);
			}
			it = s.live.begin(); visited = 0;
			{
				auto a = cp.begin();
				const auto first = cp.begin();
				auto end = cp.end();
				while (!(a == end))
				{
					CHECK("M02", "iterator-comparison", (a == first) == (visited == 0) && (a != first) == (visited != 0), "an iterator at index %zu %s one at index %zu", a.GetIndex(), a == first ? "equals" : "differs from", first.GetIndex());
					if (!visit(a.GetIndex(), &*a, "const iteration")) break;
					auto before = a++;
					CHECK("M02", "post-increment", before.GetIndex() == std::prev(it)->first, "post-increment returned index %zu", before.GetIndex());
				}
				CHECK("M02", "iteration-missing", visited == n, "const iteration visited %zu of %zu live entries", visited, n);
			}
		}
		void checkUniverse()
		{
			// only live pool entries exist: nothing half-built stays behind, nothing vanished
			std::size_t n = 0;
			for (Slot& s : pools) for (auto& [i, e] : s.live) n += e.constructed;
			if (depth == 0)
				CHECK("M03", "object-count", g_ledger.live.size() == n, "%zu objects are alive, %zu entries are live", g_ledger.live.size(), n);
			u64 h = 17;
			for (Slot& s : pools)
			{
				h = h * 1000003 + s.blockSize; h = h * 1000003 + s.blocks + (s.pool ? 7 : 0);
				for (auto& [i, e] : s.live) h = h * 31 + i + 1;
			}
			noteState(h);
		}

		void allocateMany(Slot& s, int count)
		{
			if (!s.pool) return;
			std::set<const T*> addresses;
			for (auto& [i, e] : s.live) addresses.insert(e.ptr);
			Pool* pool = s.pool.get();
			for (int n = 0; n < count; ++n)
			{
				std::size_t index = ~std::size_t(0);
				T* ptr = nullptr;
				i64 val = nextVal++;
				libCall(F_NONE, 0, [&] { ptr = pool->Allocate(index, val, -1, -1); });
				CHECK("M01", "duplicate-index", !s.live.count(index), "Allocate returned index %zu which is already allocated", index);
				CHECK("M01", "overlap", addresses.insert(ptr).second, "Allocate returned the address of a living entry again for index %zu", index);
				s.live.emplace(index, Entry{ ptr, val, true, 0 });
			}
			s.blocks = pool->GetBlockCount();
			std::size_t needed = (s.live.size() + s.blockSize - 1) / s.blockSize;
			CHECK("M02", "needless-block", s.blocks >= needed, "%zu entries of %zu per block live in %zu blocks", s.live.size(), s.blockSize, s.blocks);
		}
		void allocate(Slot& s, const Op& op, bool defer)
		{
			if (!s.pool) return;
			std::size_t before = s.live.size() + std::size_t(s.busy); // entries being built or destroyed up the stack hold their slots
			i64 val = nextVal++;
			std::size_t index = ~std::size_t(0);
			T* ptr = nullptr;
			int oc = -1, od = -1;
			std::size_t scripts = plan.lists.size() - 1;
			if (scripts && op.c % 4 == 1) oc = op.c % int(scripts);
			else if (op.c % 4 == 3) oc = -2;
			if (scripts && op.c % 5 == 2) od = op.c % int(scripts);
			Pool* pool = s.pool.get();
			std::size_t blocksBefore = pool->GetBlockCount();
			s.busy++;
			bool full = before == blocksBefore * s.blockSize;
			Outcome out;
			u64 epoch = nestedCalls;
			if (defer)
				out = libCall(op, [&] { ptr = pool->Allocate(Pool::DeferConstruct, index); });
			else
			{
				Parcel parcel{ val };
				bool give = op.b % 3 == 0, keep = op.b % 3 == 1;
				out = libCall(op, [&]
				{
					if (give) ptr = pool->Allocate(index, val, oc, od, std::move(parcel));
					else if (keep) ptr = pool->Allocate(index, val, oc, od, parcel);
					else ptr = pool->Allocate(index, val, oc, od);
				});
				if (out == Outcome::Ok && ptr)
				{
					const Received& got = ptr->gift;
					CHECK("M01", "argument", got.is(give ? Received::AsRvalue : keep ? Received::AsLvalue : Received::Nothing, give || keep ? val : 0), "Allocate was given %s, the constructor received %s (%lld)", give ? "an rvalue" : keep ? "an lvalue" : "nothing", got.text(), (long long)got.v);
				}
			}
			bool nested = nestedCalls != epoch; // its constructor used the pool
			s.busy--;
			if (out == Outcome::Ok)
			{
				event(index);
				CHECK("M01", "null-entry", ptr != nullptr, "Allocate returned a null entry");
				CHECK("M01", "duplicate-index", !s.live.count(index), "Allocate returned index %zu which is already allocated", index);
				std::size_t blocks = pool->GetBlockCount();
				CHECK("M01", "index-range", index < blocks * s.blockSize, "Allocate returned index %zu with %zu blocks of %zu", index, blocks, s.blockSize);
				for (Slot& o : pools)
					for (auto& [i, e] : o.live)
					{
						const char* x = reinterpret_cast<const char*>(e.ptr);
						const char* y = reinterpret_cast<const char*>(ptr);
						CHECK("M01", "overlap", x + sizeof(T) <= y || y + sizeof(T) <= x, "new entry %zu overlaps live entry %zu", index, i);
					}
				s.live[index] = Entry{ ptr, val, !defer, op.client };
				if (!nested)
					CHECK("M02", "needless-block", blocks == (full ? blocksBefore + 1 : blocksBefore), "allocation with %zu of %zu slots used went from %zu to %zu blocks", before, blocksBefore * s.blockSize, blocksBefore, blocks);
				s.blocks = blocks;
				if (full) SIM_COUNT("reach:new-block");
				if (nested) SIM_COUNT("reach:re-entrant-construct");
			}
			else
			{
				SIM_COUNT("reach:allocate-failed");
				std::size_t blocks = pool->GetBlockCount();
				if (!nested)
					CHECK("M02", "blocks-after-failure", blocks == blocksBefore || (full && out == Outcome::Injected && blocks == blocksBefore + 1), "a failed allocation went from %zu to %zu blocks", blocksBefore, blocks);
				if (!nested)
				{
					std::size_t n = pool->GetAllocatedEntryCount();
					CHECK("M03", "slot-leaked", n == before, "a failed allocation left %zu entries allocated instead of %zu", n, before);
				}
				s.blocks = blocks;
			}
		}
		u64 nestedCalls = 0;

		void freeEntry(Slot& s, const Op& op, bool destroySelf)
		{
			std::size_t index;
			Entry* e = pickEntry(s, op.b, index);
			if (!e || !s.pool) return;
			Pool* pool = s.pool.get();
			if (!e->constructed && !destroySelf) { finishDeferred(s); }
			T* ptr = e->ptr;
			Entry copy = *e;
			// the handle is given up before the call: re-entrant code never uses it
			s.live.erase(index);
			s.busy++;
			if (destroySelf)
			{
				if (copy.constructed) { LibScope ls; ptr->~T(); }
				u64 d0 = g_ledger.destroyed;
				libCall(F_NONE, 0, [&] { pool->Free(index, Pool::NoDestruction); });
				CHECK("M03", "destroyed-again", g_ledger.destroyed == d0, "freeing without destruction destroyed an object");
			}
			else
			{
				libCall(F_NONE, 0, [&] { pool->Free(index); });
				CHECK("M03", "not-destroyed", !g_ledger.live.count(ptr) || reused(ptr), "freeing entry %zu did not destroy its object", index);
			}
			s.busy--;
		}
		bool reused(T* ptr) { for (Slot& s : pools) for (auto& [i, e] : s.live) if (e.ptr == ptr) return true; return false; }

		void step(const Op& op)
		{
			Slot& s = pools[std::size_t(op.a) % pools.size()];
			switch (op.kind)
			{
				case K_ALLOC: allocate(s, op, false); break;
				case K_ALLOC_DEFER: allocate(s, op, true); break;
				case K_FINISH: finishDeferred(s); break;
				case K_FREE: freeEntry(s, op, false); break;
				case K_FREE_NODESTROY: freeEntry(s, op, true); break;
				case K_WRITE:
				{
					std::size_t index;
					Entry* e = pickEntry(s, op.b, index);
					if (!e || !e->constructed) break;
					e->val = nextVal++;
					e->ptr->val = e->val;
					e->ptr->fill();
					break;
				}
				case K_RESET:
				case K_CLEAR:
				{
					if (!s.pool || s.busy || depth) break;
					finishDeferred(s);
					std::size_t blocks = s.blocks;
					hooksOff = true;
					Pool* pool = s.pool.get();
					libCall(F_NONE, 0, [&] { if (op.kind == K_RESET) pool->Reset(); else pool->Clear(); });
					hooksOff = false;
					checkDestroyed(s, op.kind == K_RESET ? "Reset" : "Clear");
					s.live.clear();
					s.blocks = op.kind == K_RESET ? blocks : 0;
							break;
				}
				case K_MOVE_CONSTRUCT:
				{
					Slot& d = pools[std::size_t(op.b) % pools.size()];
					if (&d == &s || !s.pool || s.busy || d.busy || depth) break;
					destroyPool(d);
					void* mem = ::operator new(sizeof(Pool));
					Pool* raw = nullptr;
					libCall(F_NONE, 0, [&] { raw = new (mem) Pool(std::move(*s.pool)); });
					d.pool.reset(raw);
					transfer(s, d);
					break;
				}
				case K_MOVE_ASSIGN:
				{
					Slot& d = pools[std::size_t(op.b) % pools.size()];
					if (!s.pool || !d.pool || s.busy || d.busy || depth) break;
					if (&d == &s) // assigning a pool to itself frees nothing
					{
						Pool& alias = *s.pool;
						libCall(F_NONE, 0, [&] { *s.pool = std::move(alias); });
						SIM_COUNT("reach:pool-moved-to-itself");
						break;
					}
					finishDeferred(d);
					hooksOff = true;
					libCall(F_NONE, 0, [&] { *d.pool = std::move(*s.pool); });
					hooksOff = false;
					checkDestroyed(d, "assigning over the pool");
					transfer(s, d);
					break;
				}
				case K_DESTROY:
				{
					if (s.busy || depth) break;
					destroyPool(s);
					static const int sizes[] = { 1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 65, 100, 128, 130 };
					create(s, std::size_t(sizes[op.c % 14]));
					break;
				}
				case K_ITERATE: fullCheck(s); break;
				case K_BULK: allocateMany(s, op.c); break;
				case K_LOOKUP:
				{
					if (!s.pool) break;
					alignas(T) static char outside[sizeof(T)];
					std::size_t idx = 0;
					const T* foreign = reinterpret_cast<const T*>(outside);
					Pool* pool = s.pool.get();
					libCall(F_NONE, 0, [&] { idx = pool->RetrieveEntryIndex(foreign); });
					CHECK("M01", "foreign-pointer", idx == Pool::InvalidIndex, "a foreign pointer maps to index %zu", idx);
					// the end of the storage of a block is no entry of it
					constexpr std::size_t stride = (sizeof(T) + Align - 1) / Align * Align;
					for (auto& [i, e] : s.live)
						if (s.blocksKnown && i % s.blockSize == s.blockSize - 1)
						{
							SIM_COUNT("reach:lookup-of-block-end");
							const T* end = reinterpret_cast<const T*>(reinterpret_cast<const char*>(e.ptr) + stride);
							libCall(F_NONE, 0, [&] { idx = pool->RetrieveEntryIndex(end); });
							if (idx == Pool::InvalidIndex) continue;
							auto owner = s.live.find(idx);
							CHECK("M01", "foreign-pointer", idx < s.blocks * s.blockSize && (owner == s.live.end() || owner->second.ptr == end), "the address after the last entry of a block maps to index %zu", idx);
						}
					for (Slot& o : pools)
						if (&o != &s)
							for (auto& [i, e] : o.live)
							{
								libCall(F_NONE, 0, [&] { idx = pool->RetrieveEntryIndex(e.ptr); });
								CHECK("M01", "foreign-pointer", idx == Pool::InvalidIndex, "an entry of another pool maps to index %zu", idx);
							}
					break;
				}
			}
		}
		void transfer(Slot& s, Slot& d)
		{
			SIM_COUNT("reach:pool-moved");
			d.live = std::move(s.live);
			d.blocks = s.blocks;
			d.blockSize = s.blockSize;
			d.blocksKnown = true;
			s.live.clear();
			s.blocksKnown = false; // how many (empty) blocks a moved-from pool keeps is its own business
		}
		void runScript(int script)
		{
			if (hooksOff || depth >= 3 || budget <= 0) return;
			const auto& list = plan.lists[std::size_t(script) + 1];
			DepthGuard dg(depth);
			for (const Op& op : list)
			{
				if (budget-- <= 0) return;
				beginOp(1000 + script, op, comp);
				if (op.kind == K_ALLOC || op.kind == K_ALLOC_DEFER || op.kind == K_FREE || op.kind == K_FREE_NODESTROY || op.kind == K_WRITE)
				{
					SIM_COUNT("reach:re-entrant-call");
					nestedCalls++;
					step(op);
				}
			}
		}
		void onConstruct(int script, i64) override { runScript(script); }
		void onDestroy(int script, i64) override { runScript(script); }

		void run()
		{
			g_world = this;
			pools.resize(std::size_t(plan.cfg[0]));
			for (std::size_t i = 0; i < pools.size(); ++i) create(pools[i], std::size_t(plan.cfg[1 + i]));
			int idx = 0;
			for (const Op& op : plan.lists[0])
			{
				beginOp(idx++, op, comp);
				step(op);
				for (Slot& s : pools) fullCheck(s);
				checkUniverse();
			}
			g_opIndex = idx;
			for (Slot& s : pools) destroyPool(s);
			pools.clear();
			g_world = nullptr;
			checkNoLeftovers("M03");
		}
	};

	struct PoolComponent : Component
	{
		PoolComponent() { name = "pool"; g_lifetimeProp = "M03"; }
		int variants() const override { return 4; }
		std::string variantName(int v) const override
		{
			static const char* n[] = { "MemoryPool<Node>", "MemoryPool<Node, 64>", "MemoryPool<small Node>", "MemoryPool<Node, 16>" };
			return n[v];
		}
		std::vector<std::string> properties() const override { return { "M03", "M01", "M02" }; }
		const char* opName(int k) const override { return names[k]; }
		int opCount() const override { return K_COUNT; }

		Plan generate(Rng& r, int) override
		{
			Plan p;
			int n = r.between(1, 3);
			p.cfg.push_back(n);
			static const int sizes[] = { 1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 65, 100, 128, 130 };
			for (int i = 0; i < 3; ++i) p.cfg.push_back(r.chance(2, 3) ? sizes[r.range(7)] : sizes[r.range(14)]);
			int clients = r.between(1, 4);
			Scheduler sched(r, clients);
			FaultMix faults(r, true, true);
			std::vector<int> w(K_COUNT);
			w[K_ALLOC] = r.between(4, 12); w[K_ALLOC_DEFER] = r.range(3); w[K_FINISH] = r.range(2); w[K_FREE] = r.between(1, 8);
			w[K_FREE_NODESTROY] = r.range(3); w[K_WRITE] = r.range(3); w[K_RESET] = r.range(3); w[K_CLEAR] = r.range(2);
			w[K_MOVE_CONSTRUCT] = r.range(2); w[K_MOVE_ASSIGN] = r.range(2); w[K_DESTROY] = r.range(2); w[K_LOOKUP] = r.range(2);
			int len = r.chance(1, 6) ? r.between(60, 200) : r.between(5, 50);
			bool reentrant = r.chance(1, 2);
			if (r.chance(1, 20000)) // a block with more entries than fit 16 bits; few operations, as each of them is slow
			{
				static const int huge[] = { 65535, 65536, 65537, 66000 };
				p.cfg = { 1, huge[r.range(4)], 1, 1 };
				p.lists.emplace_back();
				Op bulk;
				bulk.kind = K_BULK;
				bulk.c = r.between(65530, 65600);
				p.lists[0].push_back(bulk);
				static const int kinds[] = { K_FREE, K_ALLOC, K_FREE_NODESTROY, K_RESET, K_MOVE_CONSTRUCT, K_ALLOC };
				for (int i = 0; i < 5; ++i)
				{
					Op op;
					op.kind = kinds[r.range(6)];
					op.b = r.chance(1, 2) ? r.between(65000, 65600) : r.range(66000);
					p.lists[0].push_back(op);
				}
				return p;
			}
			bool large = r.chance(1, 120); // hundreds of entries and blocks
			if (large)
			{
				w[K_ALLOC] = 30; w[K_FREE] = r.between(2, 10); w[K_RESET] = w[K_CLEAR] = w[K_DESTROY] = 0; w[K_LOOKUP] = 0;
				len = r.between(280, 420);
				reentrant = false;
			}
			auto make = [&](bool nested)
			{
				Op op;
				op.client = sched.next(r);
				op.kind = nested ? (r.chance(1, 2) ? K_ALLOC : r.chance(2, 3) ? K_FREE : K_WRITE) : r.pick(w);
				op.a = r.range(n); op.b = r.range(large ? 512 : 64); op.c = r.range(120);
				if (op.kind == K_ALLOC || op.kind == K_ALLOC_DEFER) faults.apply(r, op);
				if (!reentrant && op.kind == K_ALLOC) op.c = (op.c % 4 == 3) ? 3 : 0;
				return op;
			};
			p.lists.emplace_back();
			for (int i = 0; i < len; ++i) p.lists[0].push_back(make(false));
			if (reentrant)
				for (int s = 0; s < 4; ++s)
				{
					p.lists.emplace_back();
					int m = r.between(1, 3);
					for (int i = 0; i < m; ++i) p.lists.back().push_back(make(true));
				}
			return p;
		}
		void execute(const Plan& plan) override
		{
			switch (plan.variant)
			{
				case 0: PoolWorld<Node<8>, alignof(Node<8>)>(plan, *this).run(); break;
				case 1: PoolWorld<Node<40>, 64>(plan, *this).run(); break;
				case 2: PoolWorld<Node<1>, alignof(Node<1>)>(plan, *this).run(); break;
				case 3: PoolWorld<Node<16>, 16>(plan, *this).run(); break;
			}
		}
	};
}

sim::Component* sim::makeComponent() { return new PoolComponent; }
