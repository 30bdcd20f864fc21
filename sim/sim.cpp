// Runtime of the deterministic simulator: fault-injecting allocator, run loop, isolation,
// determinism self-test, minimisation and replay.
#include "sim.hpp"

#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
	const char* const faultNames[F_COUNT] = { "none", "alloc-fail", "out-of-memory", "user-object-throws" };

	Shared* g_shared = nullptr;
	bool g_verbose = false;
	std::string g_prop;
	Trace g_trace;
	int g_opIndex = -1;
	FaultState g_fault;
	int g_inLib = 0;
	u64 g_libLive = 0, g_libLiveBytes = 0;
	Ledger g_ledger;
	const char* g_lifetimeProp = "";

	static std::unordered_set<u64>* s_states = nullptr;
	static std::unordered_set<u64>* s_traces = nullptr;
	static int s_firstClient = -1;
	static bool s_nontrivial = false;

	int counterIndex(const char* name)
	{
		if (!g_shared) return 0;
		for (int i = 0; i < g_shared->counterCount; ++i)
			if (!std::strncmp(g_shared->counters[i].name, name, sizeof(Counter::name) - 1))
				return i;
		if (g_shared->counterCount >= 320) return 319;
		int idx = g_shared->counterCount++;
		std::snprintf(g_shared->counters[idx].name, sizeof(Counter::name), "%s", name);
		return idx;
	}
	void countNamed(const std::string& name, u64 n)
	{
		HarnessScope hs;
		static std::unordered_map<std::string, int> cache;
		auto it = cache.find(name);
		if (it == cache.end()) it = cache.emplace(name, counterIndex(name.c_str())).first;
		bump(it->second, n);
		if (name.compare(0, 5, "fault") == 0) s_nontrivial = true;
	}

	void traceText(const char* fmt, ...)
	{
		if (!g_verbose) return;
		va_list ap;
		va_start(ap, fmt);
		std::vfprintf(stderr, fmt, ap);
		va_end(ap);
		std::fputc('\n', stderr);
	}

	void noteState(u64 h)
	{
		if (!s_states || s_states->size() >= 400000) return;
		HarnessScope hs;
		s_states->insert(h);
	}

	[[noreturn]] void violateNow(const char* prop, const char* cls, const char* fmt, ...)
	{
		g_inLib = 0;
		if (g_shared && !g_shared->violated)
		{
			va_list ap;
			va_start(ap, fmt);
			std::vsnprintf(g_shared->msg, sizeof(g_shared->msg), fmt, ap);
			va_end(ap);
			std::snprintf(g_shared->prop, sizeof(g_shared->prop), "%s", prop);
			std::snprintf(g_shared->cls, sizeof(g_shared->cls), "%s", cls);
			g_shared->hash = g_trace.h;
			g_shared->opIndex = g_opIndex;
			g_shared->violated = 1;
		}
		if (g_verbose)
			std::fprintf(stderr, "VIOLATED [%s] %s: %s\n", prop, cls, g_shared ? g_shared->msg : "?");
		std::fflush(nullptr);
		_exit(42);
	}

	void throwPoint(int where)
	{
		g_fault.throwPoints++;
		if (g_fault.kind == F_THROW && g_fault.countdown > 0 && --g_fault.countdown == 0)
		{
			g_fault.fired = true;
			g_trace.mix(0xF0 + u64(where));
			traceText("      !! user object throws (point %d)", where);
			throw Injected{ where };
		}
	}

	void ledgerConstruct(const void* p)
	{
		auto [it, fresh] = g_ledger.live.emplace(p, 1);
		if (!fresh && wanted(g_lifetimeProp))
			violateNow(g_lifetimeProp, "construct-over-live", "an object was constructed over a living object");
		g_ledger.constructed++;
	}
	void ledgerDestroy(const void* p)
	{
		if (g_ledger.live.erase(p) == 0)
		{
			if (wanted(g_lifetimeProp))
				violateNow(g_lifetimeProp, "destroy-dead", "an object was destroyed that is not alive (destroyed twice or never constructed)");
		}
		g_ledger.destroyed++;
	}
	void ledgerUse(const void* p, const char* how)
	{
		// use of a dead object breaks every property: its content is undefined from here on
		if (g_ledger.live.find(p) == g_ledger.live.end())
			violateNow(g_prop.empty() ? g_lifetimeProp : g_prop.c_str(), "use-of-dead", "an object that is not alive was %s", how);
	}
	void checkNoLeftovers(const char* prop)
	{
		CHECK(prop, "object-leak", g_ledger.live.empty(), "%zu user object(s) were never destroyed", g_ledger.live.size());
		CHECK(prop, "memory-leak", g_libLive == 0, "%llu allocation(s) made by the library were never freed", (unsigned long long)g_libLive);
		event(g_ledger.constructed, g_ledger.destroyed);
	}

	void beginOp(int index, const Op& op, const Component& comp)
	{
		g_opIndex = index;
		event(index, op.kind, op.client, op.a, op.b, op.c, op.fk, op.fn);
		if (g_shared) { g_shared->steps = g_shared->steps + 1; g_shared->hash = g_trace.h; g_shared->opIndex = index; }
		if (s_firstClient < 0) s_firstClient = op.client;
		else if (s_firstClient != op.client) s_nontrivial = true;
		if (g_verbose)
		{
			if (op.fk != F_NONE)
				traceText("  op %d client %d: %s(%d, %d, %d)  [%s at %d]", index, op.client, comp.opName(op.kind), op.a, op.b, op.c, faultNames[op.fk], op.fn);
			else
				traceText("  op %d client %d: %s(%d, %d, %d)", index, op.client, comp.opName(op.kind), op.a, op.b, op.c);
		}
		countNamed(std::string("op:") + comp.opName(op.kind));
	}

	// ------------------------------------------------------------ fault-injecting allocator
	namespace
	{
		struct Header { u64 magic; u64 info; }; // info = size << 1 | fromLib
		constexpr u64 Magic = 0x5AFEC0DE5AFEC0DEull;

		void* allocate(std::size_t size, std::size_t align, bool nothrow)
		{
			bool lib = g_inLib > 0;
			if (lib)
			{
				g_fault.allocPoints++;
				bool fail = false;
				if (g_fault.kind == F_ALLOC && g_fault.countdown > 0 && --g_fault.countdown == 0) fail = true;
				if (g_fault.kind == F_OOM)
				{
					if (g_fault.countdown > 0) g_fault.countdown--;
					if (g_fault.countdown == 0) fail = true;
				}
				if (fail)
				{
					g_fault.fired = true;
					g_trace.mix(0xA110C);
					traceText("      !! allocation of %zu bytes fails", size);
					if (nothrow) return nullptr;
					throw std::bad_alloc();
				}
				if (size > (std::size_t(1) << 28) || g_libLiveBytes + size > (u64(1) << 30))
				{
					if (nothrow) return nullptr;
					// nothing a simulated workload does needs this much: surfaces as an unexpected exception or violation
					throw std::bad_alloc();
				}
			}
			std::size_t head = std::max<std::size_t>(align, sizeof(Header));
			void* raw = nullptr;
			if (align <= alignof(std::max_align_t)) raw = std::malloc(size + head);
			else if (posix_memalign(&raw, align, size + head) != 0) raw = nullptr;
			if (!raw) { if (nothrow) return nullptr; throw std::bad_alloc(); }
			char* user = static_cast<char*>(raw) + head;
			Header* h = reinterpret_cast<Header*>(user - sizeof(Header));
			h->magic = Magic ^ u64(head);
			h->info = (u64(size) << 1) | (lib ? 1 : 0);
			if (lib) { g_libLive++; g_libLiveBytes += size; }
			std::memset(user, 0xCD, lib ? size : std::min<std::size_t>(size, 4096));
			return user;
		}
		void release(void* p)
		{
			if (!p) return;
			char* user = static_cast<char*>(p);
			Header* h = reinterpret_cast<Header*>(user - sizeof(Header));
			u64 head = h->magic ^ Magic;
			if (head < sizeof(Header) || head > 4096)
				violateNow(g_prop.empty() ? g_lifetimeProp : g_prop.c_str(), "bad-free", "memory was freed that was not allocated, or was freed twice");
			std::size_t size = std::size_t(h->info >> 1);
			if (h->info & 1) { g_libLive--; g_libLiveBytes -= size; std::memset(user, 0xDD, size); }
			h->magic = 0;
			std::free(user - head);
		}
	}

	// ------------------------------------------------------------ plans as text
	static std::string planToText(const Plan& p, const Component& comp)
	{
		std::ostringstream o;
		o << "variant " << p.variant << "   # " << comp.variantName(p.variant) << "\n";
		o << "cfg";
		for (int c : p.cfg) o << ' ' << c;
		o << "\n";
		for (std::size_t l = 0; l < p.lists.size(); ++l)
		{
			o << "list " << l << (l == 0 ? "   # schedule: op client a b c fault at" : "   # what callback script does when called") << "\n";
			for (const Op& op : p.lists[l])
				o << "op " << comp.opName(op.kind) << ' ' << op.client << ' ' << op.a << ' ' << op.b << ' ' << op.c << ' ' << faultNames[op.fk] << ' ' << op.fn << "\n";
		}
		return o.str();
	}
	static bool planFromText(std::istream& in, Plan& p, const Component& comp, std::map<std::string, std::string>& meta)
	{
		std::string line;
		while (std::getline(in, line))
		{
			std::size_t hash = line.find('#');
			std::string body = hash == std::string::npos ? line : line.substr(0, hash);
			std::istringstream s(body);
			std::string key;
			if (!(s >> key)) continue;
			if (key == "variant") s >> p.variant;
			else if (key == "cfg") { int v; p.cfg.clear(); while (s >> v) p.cfg.push_back(v); }
			else if (key == "list") p.lists.emplace_back();
			else if (key == "op")
			{
				Op op;
				std::string name, fault;
				if (!(s >> name >> op.client >> op.a >> op.b >> op.c >> fault >> op.fn)) return false;
				op.kind = -1;
				for (int k = 0; k < comp.opCount(); ++k) if (name == comp.opName(k)) op.kind = k;
				for (int k = 0; k < F_COUNT; ++k) if (fault == faultNames[k]) op.fk = k;
				if (op.kind < 0 || p.lists.empty()) return false;
				p.lists.back().push_back(op);
			}
			else { std::string rest; std::getline(s, rest); std::size_t b = rest.find_first_not_of(' '); meta[key] = b == std::string::npos ? "" : rest.substr(b); }
		}
		return !p.lists.empty();
	}

	// ------------------------------------------------------------ one run
	static void armWatchdog(int seconds)
	{
		itimerval t{};
		t.it_value.tv_sec = seconds;
		setitimer(ITIMER_VIRTUAL, &t, nullptr);
	}
	// Reads of memory nobody wrote must give the same in every repetition: the stack below starts with one pattern in every run
	// (local variables do because of -ftrivial-auto-var-init, library allocations because of the allocator).
	__attribute__((noinline)) static void scrubStack()
	{
		unsigned char area[48 * 1024];
		std::memset(area, 0xA5, sizeof area);
		__asm__ volatile("" : : "r"(area) : "memory");
	}
	static u64 runOnce(Component& comp, const Plan& plan)
	{
		scrubStack();
		g_trace = Trace{};
		g_opIndex = -1;
		g_fault = FaultState{};
		g_inLib = 0;
		g_libLive = g_libLiveBytes = 0;
		g_ledger.reset();
		s_firstClient = -1;
		s_nontrivial = false;
		armWatchdog(10);
		try { comp.execute(plan); }
		catch (const std::exception& e)
		{
			violateNow(g_prop.empty() ? comp.properties()[0].c_str() : g_prop.c_str(), "unexpected-exception", "the library let out an exception nobody injected: %s", e.what());
		}
		catch (const Injected&)
		{
			violateNow(g_prop.empty() ? comp.properties()[0].c_str() : g_prop.c_str(), "escaped-exception", "an injected exception surfaced at an operation where none was injected");
		}
		g_opIndex = -1;
		return g_trace.h;
	}

	static u64 seedOf(u64 base, u64 index)
	{
		Rng r(base * 0xD1342543DE82EF95ull + index * 0x2545F4914F6CDD1Dull + 0x1234567);
		r.next();
		return r.next();
	}
	static Plan planOf(Component& comp, u64 seed)
	{
		Rng rng(seed);
		int v = rng.range(comp.variants());
		Plan g;
		{
			Rng sub(rng.next());
			g = comp.generate(sub, v);
		}
		g.variant = v;
		return g;
	}

	// ------------------------------------------------------------ isolated run of a plan
	struct Result
	{
		bool bad = false;
		bool error = false;     // the harness itself failed
		std::string prop, cls, msg;
		u64 hash = 0;
		bool varies = false;    // repeats with the same class but not with the same hash
		int opIndex = -1;
	};
	static std::string readFile(const std::string& path)
	{
		std::ifstream f(path, std::ios::binary);
		std::stringstream s;
		s << f.rdbuf();
		return s.str();
	}
	static std::string tmpDir()
	{
		const char* t = std::getenv("SIM_TMP");
		return t ? t : "/tmp";
	}
	static std::string firstLineWith(const std::string& text, const char* what)
	{
		std::size_t p = text.find(what);
		if (p == std::string::npos) return "";
		std::size_t b = text.rfind('\n', p);
		b = b == std::string::npos ? 0 : b + 1;
		std::size_t e = text.find('\n', p);
		return text.substr(b, e == std::string::npos ? std::string::npos : e - b);
	}
	static void classify(int status, const std::string& err, const Shared& sh, Result& r, const std::string& prop)
	{
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
		if (WIFEXITED(status) && WEXITSTATUS(status) == 44) { r.error = true; r.msg = "execution is not deterministic"; return; }
		r.bad = true;
		r.opIndex = sh.opIndex;
		if (sh.violated)
		{
			r.prop = sh.prop; r.cls = sh.cls; r.msg = sh.msg; r.hash = sh.hash;
			return;
		}
		r.prop = prop;
		std::string line;
		if (!(line = firstLineWith(err, "ERROR: AddressSanitizer")).empty())
		{
			std::size_t p = line.find("AddressSanitizer: ") + 18;
			std::size_t e = line.find(' ', p);
			r.cls = "asan:" + line.substr(p, e - p);
			r.msg = line.substr(p);
			// addresses are not part of the reproducible description
			std::size_t a = r.msg.find(" on ");
			if (a != std::string::npos) r.msg = r.msg.substr(0, a);
		}
		else if (!(line = firstLineWith(err, "runtime error: ")).empty())
		{
			r.cls = "undefined-behaviour";
			r.msg = line.substr(line.find("runtime error: "));
		}
		else if (!(line = firstLineWith(err, "assertion failed")).empty() || !(line = firstLineWith(err, "Assertion")).empty())
		{
			r.cls = "assertion";
			r.msg = line;
		}
		else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGVTALRM) { r.cls = "hang"; r.msg = "an operation did not finish within 10 s of processor time"; }
		else if (!(line = firstLineWith(err, "terminate called")).empty()) { r.cls = "terminate"; r.msg = line; }
		else if (WIFSIGNALED(status)) { r.cls = "signal-" + std::to_string(WTERMSIG(status)); r.msg = "the process was ended by signal " + std::to_string(WTERMSIG(status)); }
		else { r.cls = "exit-" + std::to_string(WEXITSTATUS(status)); r.msg = firstLineWith(err, "\n"); }
	}
	static Shared* newShared()
	{
		void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
		std::memset(p, 0, sizeof(Shared));
		return static_cast<Shared*>(p);
	}
	static Result runIsolated(Component& comp, const Plan& plan)
	{
		static Shared* page = newShared();
		std::memset(static_cast<void*>(page), 0, sizeof(Shared));
		std::string errPath = tmpDir() + "/probe." + std::to_string(getpid()) + ".err";
		std::fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0)
		{
			int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			if (fd >= 0) { dup2(fd, 2); close(fd); }
			rlimit rl{ 0, 0 };
			setrlimit(RLIMIT_CORE, &rl);
			g_shared = page;
			s_states = nullptr;
			u64 h = runOnce(comp, plan);
			page->hash = h;
			_exit(0);
		}
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		Result r;
		r.hash = page->hash;
		classify(status, readFile(errPath), *page, r, g_prop.empty() ? comp.properties()[0] : g_prop);
		unlink(errPath.c_str());
		return r;
	}

	// ------------------------------------------------------------ minimisation
	static double now()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}
	static std::size_t planSize(const Plan& p)
	{
		std::size_t n = 0;
		for (auto& l : p.lists) n += l.size();
		return n;
	}
	static Plan minimise(Component& comp, Plan plan, const Result& want, double seconds, u64& candidates)
	{
		double end = now() + seconds;
		auto same = [&](const Plan& p)
		{
			if (now() > end) return false;
			candidates++;
			Result r = runIsolated(comp, p);
			return r.bad && !r.error && r.cls == want.cls && r.prop == want.prop;
		};
		if (want.opIndex >= 0 && std::size_t(want.opIndex + 1) < plan.lists[0].size())
		{
			Plan p = plan;
			p.lists[0].resize(std::size_t(want.opIndex + 1));
			if (same(p)) plan = p;
		}
		bool progress = true;
		while (progress && now() < end)
		{
			progress = false;
			for (std::size_t l = plan.lists.size(); l-- > 0;)
			{
				std::size_t chunk = std::max<std::size_t>(1, plan.lists[l].size() / 2);
				for (;; chunk /= 2)
				{
					for (std::size_t at = 0; at < plan.lists[l].size() && now() < end;)
					{
						Plan p = plan;
						auto& v = p.lists[l];
						std::size_t last = std::min(v.size(), at + chunk);
						v.erase(v.begin() + std::ptrdiff_t(at), v.begin() + std::ptrdiff_t(last));
						if (same(p)) { plan = p; progress = true; }
						else at += chunk;
					}
					if (chunk <= 1) break;
				}
			}
			for (std::size_t l = 0; l < plan.lists.size(); ++l)
				for (std::size_t i = 0; i < plan.lists[l].size() && now() < end; ++i)
				{
					auto attempt = [&](auto&& edit)
					{
						Plan p = plan;
						edit(p.lists[l][i]);
						if (same(p)) { plan = p; return true; }
						return false;
					};
					const Op op = plan.lists[l][i];
					if (op.fk != F_NONE && attempt([](Op& o) { o.fk = F_NONE; o.fn = 0; })) progress = true;
					else if (op.fk == F_OOM && attempt([](Op& o) { o.fk = F_ALLOC; })) progress = true;
					if (plan.lists[l][i].fn > 1 && attempt([](Op& o) { o.fn = 1; })) progress = true;
					if (op.client && attempt([](Op& o) { o.client = 0; })) progress = true;
					for (int Op::*f : { &Op::a, &Op::b, &Op::c })
						for (int val : { 0, 1, 2, 3, 4, 6, 8 })
						{
							if (plan.lists[l][i].*f <= val) break;
							if (attempt([&](Op& o) { o.*f = val; })) { progress = true; break; }
						}
				}
		}
		return plan;
	}

	// ------------------------------------------------------------ JSON
	static std::string jstr(const std::string& s)
	{
		std::string o = "\"";
		for (char ch : s)
		{
			unsigned char c = static_cast<unsigned char>(ch);
			if (c == '"' || c == '\\') { o += '\\'; o += ch; }
			else if (c == '\n') o += "\\n";
			else if (c < 0x20 || c >= 0x7F) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += ch;
		}
		return o + "\"";
	}

	static void writeReplay(const std::string& path, Component& comp, const Plan& plan, const Result& r, const std::string& build, u64 seed, u64 index, std::size_t originalSize)
	{
		std::ofstream f(path);
		f << "# replay of one simulated run; run it with: python3 /verif/check.py --replay <this file>\n";
		f << "component " << comp.name << "\n";
		f << "build " << build << "\n";
		f << "property " << r.prop << "\n";
		f << "class " << r.cls << "\n";
		f << "message " << [&] { std::string m = r.msg; for (char& c : m) if (c == '\n' || c == '#') c = ' '; return m; }() << "\n";
		f << "seed " << seed << "   # run " << index << ", minimised from " << originalSize << " to " << planSize(plan) << " operations\n";
		f << "hash " << (r.varies ? "varies" : std::to_string(r.hash)) << "\n";
		f << planToText(plan, comp);
	}

	static int explore(Component& comp, std::map<std::string, std::string>& args)
	{
		u64 base = std::stoull(args["seed"]);
		u64 runs = std::stoull(args["runs"]);
		double limit = std::stod(args["time"]);
		int jobs = std::max(1, std::stoi(args["jobs"]));
		std::string out = args["out"], replayPath = args["replay-out"], build = args["build"];
		u64 firstRun = args.count("first") ? std::stoull(args["first"]) : 0;
		bool selfTest = !args.count("self-test") || args["self-test"] != "0";
		double start = now();

		struct Worker { pid_t pid; Shared* sh; std::string err, states; bool done; int status; };
		std::vector<Worker> ws;
		for (int j = 0; j < jobs; ++j)
		{
			Worker w{ 0, newShared(), tmpDir() + "/worker." + std::to_string(getpid()) + "." + std::to_string(j) + ".err", tmpDir() + "/worker." + std::to_string(getpid()) + "." + std::to_string(j) + ".states", false, 0 };
			std::fflush(nullptr);
			w.pid = fork();
			if (w.pid == 0)
			{
				int fd = open(w.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
				if (fd >= 0) { dup2(fd, 2); close(fd); }
				rlimit rl{ 0, 0 };
				setrlimit(RLIMIT_CORE, &rl);
				g_shared = w.sh;
				std::unordered_set<u64> states, traces;
				s_states = &states;
				s_traces = &traces;
				u64 nontrivial = 0, checked = 0;
				for (u64 i = u64(j); i < runs; i += u64(jobs))
				{
					if ((i / u64(jobs)) % 16 == 0 && now() - start > limit) break;
					u64 index = firstRun + i;
					u64 seed = seedOf(base, index);
					w.sh->runIndex = index;
					w.sh->seed = seed;
					Plan plan = planOf(comp, seed);
					u64 h = runOnce(comp, plan);
					if (s_nontrivial && traces.size() < 3000000 && traces.insert(h).second) nontrivial++;
					if (selfTest && (i / u64(jobs)) % 50 == 7)
					{
						// determinism self-test: the same seed must give the same execution
						Plan again = planOf(comp, seed);
						u64 h2 = runOnce(comp, again);
						checked++;
						if (h2 != h) { std::fprintf(stderr, "not deterministic: seed %llu\n", (unsigned long long)seed); _exit(44); }
					}
					w.sh->runs = w.sh->runs + 1;
				}
				std::ofstream f(w.states, std::ios::binary);
				u64 n = states.size(), m = traces.size();
				f.write(reinterpret_cast<char*>(&n), 8);
				for (u64 s : states) f.write(reinterpret_cast<const char*>(&s), 8);
				f.write(reinterpret_cast<char*>(&m), 8);
				for (u64 s : traces) f.write(reinterpret_cast<const char*>(&s), 8);
				f.write(reinterpret_cast<char*>(&checked), 8);
				f.close();
				_exit(0);
			}
			ws.push_back(w);
		}
		// The lowest-numbered failing run is reported, so that the report does not depend on worker timing:
		// workers keep going until they pass the lowest failing run found so far.
		bool found = false;
		u64 lowest = 0;
		std::size_t left = ws.size();
		while (left)
		{
			int status = 0;
			pid_t pid = waitpid(-1, &status, WNOHANG);
			if (pid > 0)
			{
				for (auto& w : ws) if (w.pid == pid)
				{
					w.done = true; w.status = status; --left;
					if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
					{
						u64 idx = w.sh->runIndex;
						if (!found || idx < lowest) { lowest = idx; found = true; }
					}
				}
				continue;
			}
			if (found)
				for (auto& w : ws)
					if (!w.done && w.sh->runIndex > lowest)
						kill(w.pid, SIGKILL);
			usleep(2000);
		}
		double exploreS = now() - start;

		std::unordered_set<u64> states, traces;
		u64 totalRuns = 0, totalSteps = 0, detChecked = 0;
		std::map<std::string, u64> counters;
		const Worker* bad = nullptr;
		for (auto& w : ws)
		{
			totalRuns += w.sh->runs;
			totalSteps += w.sh->steps;
			for (int i = 0; i < w.sh->counterCount; ++i) counters[w.sh->counters[i].name] += w.sh->counters[i].n;
			std::ifstream f(w.states, std::ios::binary);
			u64 n = 0, s = 0;
			if (f.read(reinterpret_cast<char*>(&n), 8)) while (n-- && f.read(reinterpret_cast<char*>(&s), 8)) states.insert(s);
			if (f.read(reinterpret_cast<char*>(&n), 8)) while (n-- && f.read(reinterpret_cast<char*>(&s), 8)) traces.insert(s);
			if (f.read(reinterpret_cast<char*>(&s), 8)) detChecked += s;
			unlink(w.states.c_str());
			bool failed = !(WIFEXITED(w.status) && WEXITSTATUS(w.status) == 0) && !(WIFSIGNALED(w.status) && WTERMSIG(w.status) == SIGKILL);
			if (failed && w.sh->runIndex == lowest) bad = &w;
		}

		std::ofstream o(out);
		o << "{\"component\":" << jstr(comp.name) << ",\"build\":" << jstr(build) << ",\"runs\":" << totalRuns << ",\"steps\":" << totalSteps
		  << ",\"explore_s\":" << exploreS << ",\"distinct_states\":" << states.size() << ",\"distinct_traces\":" << traces.size()
		  << ",\"determinism_checked\":" << detChecked << ",\"counters\":{";
		bool first = true;
		for (auto& [k, v] : counters) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
		o << "},\"samples\":[";
		for (int i = 0; i < 2; ++i)
		{
			u64 seed = seedOf(base, firstRun + u64(i));
			o << (i ? "," : "") << jstr("seed " + std::to_string(seed) + "\n" + planToText(planOf(comp, seed), comp));
		}
		o << "],";
		int rc = 0;
		if (found)
		{
			u64 seed = seedOf(base, lowest);
			Plan plan = planOf(comp, seed);
			Result r1 = runIsolated(comp, plan);
			Result r2 = runIsolated(comp, plan);
			if (r1.error || r2.error || !r1.bad || !r2.bad || r1.cls != r2.cls || r1.prop != r2.prop)
			{
				// The failing run does not fail the same way on its own: the simulator lost control of something.
				std::string err = bad ? readFile(bad->err) : "";
				o << "\"error\":" << jstr("run " + std::to_string(lowest) + " seed " + std::to_string(seed) + " failed in the search but not identically when repeated alone (" + r1.cls + "/" + r2.cls + "): " + err.substr(0, 600)) << "}";
				rc = 3;
			}
			else
			{
				u64 candidates = 0;
				std::size_t before = planSize(plan);
				Plan small = minimise(comp, plan, r1, args.count("min-time") ? std::stod(args["min-time"]) : 40.0, candidates);
				Result rs = runIsolated(comp, small);
				if (!rs.bad || rs.cls != r1.cls) { small = plan; rs = r1; }
				// When the code under test reads addresses or memory it never wrote, the violation repeats but not every detail of the run does.
				Result rs2 = runIsolated(comp, small);
				if (!rs2.bad || rs2.hash != rs.hash) rs.varies = true;
				writeReplay(replayPath, comp, small, rs, build, seed, lowest, before);
				o << "\"violation\":{\"property\":" << jstr(rs.prop) << ",\"class\":" << jstr(rs.cls) << ",\"message\":" << jstr(rs.msg)
				  << ",\"run\":" << lowest << ",\"seed\":\"" << seed << "\",\"variant\":" << jstr(comp.variantName(small.variant)) << ",\"ops_before\":" << before << ",\"ops_after\":" << planSize(small)
				  << ",\"candidates\":" << candidates << ",\"plan\":" << jstr(planToText(small, comp)) << "}}";
				rc = 1;
			}
		}
		else
			o << "\"violation\":null}";
		for (auto& w : ws) unlink(w.err.c_str());
		return rc;
	}

	static int replay(Component& comp, const std::string& path)
	{
		std::ifstream f(path);
		Plan plan;
		std::map<std::string, std::string> meta;
		if (!planFromText(f, plan, comp, meta)) { std::fprintf(stderr, "cannot read replay file %s\n", path.c_str()); return 3; }
		g_prop = meta["property"];
		while (!g_prop.empty() && g_prop.back() == ' ') g_prop.pop_back();
		auto trim = [](std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
		Result r = runIsolated(comp, plan);
		std::printf("recorded: property=%s class=%s hash=%s\n", g_prop.c_str(), trim(meta["class"]).c_str(), trim(meta["hash"]).c_str());
		if (!r.bad) { std::printf("replayed: no violation (hash=%llu)\n", (unsigned long long)r.hash); return 0; }
		std::printf("replayed: property=%s class=%s hash=%llu\n          %s\n", r.prop.c_str(), r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
		bool same = r.cls == trim(meta["class"]) && (trim(meta["hash"]) == "varies" || std::to_string(r.hash) == trim(meta["hash"]));
		std::printf("identical=%s\n", same ? "yes" : "no");
		std::fflush(stdout);
		if (std::getenv("SIM_VERBOSE"))
		{
			pid_t pid = fork();
			if (pid == 0)
			{
				g_verbose = true;
				g_shared = newShared();
				dup2(1, 2);
				runOnce(comp, plan);
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
		}
		return same ? 1 : 2;
	}
}

void* operator new(std::size_t n) { return sim::allocate(n, alignof(std::max_align_t), false); }
void* operator new[](std::size_t n) { return sim::allocate(n, alignof(std::max_align_t), false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, alignof(std::max_align_t), true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, alignof(std::max_align_t), true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::allocate(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::allocate(n, std::size_t(a), false); }
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::release(p); }

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=43:abort_on_error=0:symbolize=0:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=43"; }

int main(int argc, char** argv)
{
	std::map<std::string, std::string> args;
	std::string mode = argc > 1 ? argv[1] : "";
	for (int i = 2; i + 1 < argc; i += 2)
		args[std::string(argv[i]).substr(2)] = argv[i + 1];
	std::unique_ptr<sim::Component> comp(sim::makeComponent());
	if (args.count("prop")) sim::g_prop = args["prop"];
	if (mode == "explore") return sim::explore(*comp, args);
	if (mode == "replay") return sim::replay(*comp, args["file"]);
	if (mode == "properties") { for (auto& p : comp->properties()) std::printf("%s\n", p.c_str()); return 0; }
	std::fprintf(stderr, "usage: %s explore|replay|properties ...\n", argv[0]);
	return 3;
}
