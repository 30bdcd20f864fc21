// The complement of a flag set over 64 enumerators.
#include <NazaraUtils/Flags.hpp>
enum class Sixtyfour : unsigned char { First, Last = 63, Max = Last };
constexpr bool EnableEnumAsNzFlags(Sixtyfour) { return true; }
int main()
{
	Nz::Flags<Sixtyfour> none;
	return (~none).Test(Sixtyfour::Last) ? 0 : 1;
}
