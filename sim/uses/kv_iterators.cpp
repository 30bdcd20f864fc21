// The standard library walks an enumeration array by key and value.
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <algorithm>
#include <iterator>
enum class Color { Red, Green, Blue, Max = Blue };
int main()
{
	Nz::EnumArray<Color, int> values{ 1, 2, 3 };
	auto view = values.iter_kv();
	auto found = std::find_if(view.begin(), view.end(), [](const auto& kv) { return kv.second == 2; });
	return std::distance(view.begin(), view.end()) == 3 && found - view.begin() == 1 && (*std::next(view.begin(), 2)).first == Color::Blue ? 0 : 1;
}
