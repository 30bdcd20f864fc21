// A movable value is assigned from another one that is an lvalue.
#include <NazaraUtils/MovableValue.hpp>
#include <vector>
int main()
{
	Nz::MovableValue<std::vector<int>> a, b(std::vector<int>{ 1, 2 });
	a = b;
	return a.Get().size() == 2 && b.Get().size() == 2 ? 0 : 1;
}
