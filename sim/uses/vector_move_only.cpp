// Elements that can only be moved, in vectors of limited inline capacity.
#include <NazaraUtils/FixedVector.hpp>
#include <memory>
#include <utility>
template<typename V> int use()
{
	V vec;
	auto value = std::make_unique<int>(1);
	vec.emplace_back(std::move(value));
	vec.push_back(std::make_unique<int>(3));
	auto other = std::make_unique<int>(2);
	vec.emplace(vec.begin() + 1, std::move(other));
	vec.insert(vec.begin(), std::make_unique<int>(0));
	vec.erase(vec.begin());
	if (value || other || vec.size() != 3)
		return 1;
	V moved(std::move(vec));
	V assigned;
	assigned = std::move(moved);
	int expected = 1;
	for (auto& p : assigned)
		if (!p || *p != expected++)
			return 1;
	return 0;
}
int main()
{
	return use<Nz::FixedVector<std::unique_ptr<int>, 4>>() + use<Nz::HybridVector<std::unique_ptr<int>, 2>>();
}
