// A function reference is bound to a const callable object.
#include <NazaraUtils/FunctionRef.hpp>
int main()
{
	const auto target = [](int x) { return x + 1; };
	Nz::FunctionRef<int(int)> ref(target);
	return ref(1) == 2 ? 0 : 1;
}
