// The standard library walks the bits of a bitset.
#include <NazaraUtils/Bitset.hpp>
#include <algorithm>
#include <vector>
int main()
{
	Nz::Bitset<Nz::UInt64> bits(70, false);
	bits.Set(std::size_t(3));
	bits.Set(std::size_t(69));
	auto view = bits.IterBits();
	std::vector<std::size_t> all(view.begin(), view.end());
	return all.size() == 2 && std::distance(view.begin(), view.end()) == 2 && std::find(view.begin(), view.end(), std::size_t(69)) != view.end() ? 0 : 1;
}
