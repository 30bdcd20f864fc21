// A connection guard takes over a connection that is moved into it.
#include <NazaraUtils/Signal.hpp>
int main()
{
	Nz::Signal<int> signal;
	Nz::Signal<int>::ConnectionGuard guard;
	guard = signal.Connect([](int) {});
	Nz::Signal<int>::Connection connection = signal.Connect([](int) {});
	guard = std::move(connection);
	return guard.IsConnected() ? 0 : 1;
}
