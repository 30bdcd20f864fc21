// Flag sets as keys of an unordered container.
#include <NazaraUtils/Flags.hpp>
#include <unordered_set>
enum class Color { Red, Green, Blue, Max = Blue };
constexpr bool EnableEnumAsNzFlags(Color) { return true; }
int main()
{
	std::unordered_set<Nz::Flags<Color>> seen;
	seen.insert(Color::Red | Color::Blue);
	return seen.count(Color::Blue | Color::Red) == 1 ? 0 : 1;
}
