// Pool entries built from arguments that can only be moved.
#include <NazaraUtils/MemoryPool.hpp>
#include <memory>
struct Entry
{
	std::unique_ptr<int> value;
	int& target;
	Entry(std::unique_ptr<int> v, int& t) : value(std::move(v)), target(t) {}
};
int main()
{
	int target = 0;
	Nz::MemoryPool<Entry> pool(2);
	std::size_t index;
	Entry* entry = pool.Allocate(index, std::make_unique<int>(4), target);
	entry->target = *entry->value;
	Nz::MemoryPool<Entry> other(std::move(pool));
	for (Entry& e : other)
		e.target += 1;
	other.Free(index);
	return target == 5 ? 0 : 1;
}
