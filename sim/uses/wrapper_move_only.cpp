// Contents that can only be moved.
#include <NazaraUtils/MovableValue.hpp>
#include <memory>
int main()
{
	Nz::MovableValue<std::unique_ptr<int>> a(std::make_unique<int>(1)), b(std::move(a));
	a = std::make_unique<int>(2);
	b = std::move(a);
	std::unique_ptr<int> taken = std::move(b).Get();
	return taken && *taken == 2 ? 0 : 1;
}
