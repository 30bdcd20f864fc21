// A function reference that returns nothing is bound to a callable that returns something.
#include <NazaraUtils/FunctionRef.hpp>
int main()
{
	auto target = [](int x) { return x + 1; };
	Nz::FunctionRef<void(int)> ref(target);
	ref(1);
}
