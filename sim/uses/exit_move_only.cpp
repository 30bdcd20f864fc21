// Exit actions that can only be moved.
#include <NazaraUtils/CallOnExit.hpp>
#include <memory>
int main()
{
	int sum = 0;
	auto value = std::make_unique<int>(3);
	{
		Nz::CallOnExit guard([&sum, value = std::move(value)] { sum += *value; });
		guard.CallAndReset();
	}
	return sum == 3 ? 0 : 1;
}
