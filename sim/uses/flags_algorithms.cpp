// The standard library walks the flags of a set.
#include <NazaraUtils/Flags.hpp>
#include <algorithm>
#include <vector>
enum class Color { Red, Green, Blue, Max = Blue };
constexpr bool EnableEnumAsNzFlags(Color) { return true; }
int main()
{
	const Nz::Flags<Color> flags = Color::Red | Color::Blue;
	std::vector<Color> all(flags.begin(), flags.end());
	return all.size() == 2 && std::distance(flags.begin(), flags.end()) == 2 && std::find(flags.begin(), flags.end(), Color::Blue) != flags.end() ? 0 : 1;
}
