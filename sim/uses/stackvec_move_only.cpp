// Elements that can only be moved, in a vector over stack memory.
#include <NazaraUtils/StackVector.hpp>
#include <memory>
int main()
{
	auto vec = NazaraStackVector(std::unique_ptr<int>, 4);
	auto value = std::make_unique<int>(1);
	vec.emplace_back(std::move(value));
	vec.push_back(std::make_unique<int>(3));
	auto other = std::make_unique<int>(2);
	vec.emplace(vec.begin() + 1, std::move(other));
	vec.insert(vec.begin(), std::make_unique<int>(0));
	vec.erase(vec.begin());
	if (value || other || vec.size() != 3)
		return 1;
	int expected = 1;
	for (auto& p : vec)
		if (!p || *p != expected++)
			return 1;
	return 0;
}
