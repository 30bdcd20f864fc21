// Implementations built from arguments that can only be moved, and that can only be moved themselves.
#include <NazaraUtils/PrivateImpl.hpp>
#include <memory>
struct Body
{
	std::unique_ptr<int> value;
	explicit Body(std::unique_ptr<int> v) : value(std::move(v)) {}
};
int main()
{
	Nz::PrivateImpl<Body> heap(std::make_unique<int>(1)), other(nullptr);
	other.Emplace(std::make_unique<int>(2));
	heap = std::move(other);
	Nz::PrivateImpl<Body, sizeof(Body)> local(std::make_unique<int>(3)), second(std::move(local));
	return *heap->value + *second->value == 5 ? 0 : 1;
}
