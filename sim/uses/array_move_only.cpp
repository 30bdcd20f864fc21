// Enumeration arrays of values that can only be moved.
#include <NazaraUtils/EnumArray.hpp>
#include <memory>
#include <utility>
enum class Color { Red, Green, Blue, Max = Blue };
int main()
{
	Nz::EnumArray<Color, std::unique_ptr<int>> a, b;
	a[Color::Green] = std::make_unique<int>(2);
	b = std::move(a);
	Nz::EnumArray<Color, std::unique_ptr<int>> c(std::move(b));
	int sum = 0;
	for (auto&& [color, value] : c.iter_kv())
		sum += color == Color::Green ? *value : 0;
	for (const auto& value : c)
		sum += value ? 1 : 0;
	return sum == 3 ? 0 : 1;
}
