// Driver entry point linked into every harness binary.
#include "mon.hpp"
#ifdef MON_ASAN
#include <sanitizer/lsan_interface.h>
#endif
#ifdef MON_ASAN
extern "C" void __sanitizer_print_stack_trace();
namespace mon {
void print_stack() { __sanitizer_print_stack_trace(); }
}
#endif
using namespace mon;

static void run_case(const Family& f, uint64_t id)
{
	Globals& g = G();
	Crumb* cr = g.crumb;
	cr->case_id = id;
	cr->step = 0;
	cr->op[0] = 0;
	__atomic_fetch_add(&cr->beat, 1, __ATOMIC_RELAXED);
	Fault::disarm();
	Live::reset();
	Ledger::reset();
	Ctx c(f.name, id);
	f.fn(c);
	Fault::disarm();
	balance(c);
	Live::reset();
	++g.evaluations;
	g.ops += c.nops;
	if (c.nops > 3)
		set_bit(g.cases, mix(c.dig, 5));
	if (g.nsamples < 1)
		c.sample("%s case %llu: %llu recorded operations, history digest %016llx, last op %s", f.name, (unsigned long long)id, (unsigned long long)c.nops, (unsigned long long)c.dig, cr->op);
}

int main(int argc, char** argv)
{
	Globals& g = G();
	std::string fam, crumb, stats;
	uint64_t lo = 0, hi = 0;
	bool list = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--list")
			list = true;
		else if (a == "--family")
			fam = nx();
		else if (a == "--lo")
			lo = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "--hi")
			hi = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "--crumb")
			crumb = nx();
		else if (a == "--stats")
			stats = nx();
		else if (a == "--seed")
			g.seed = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "--tier")
			g.tier = atoi(nx().c_str());
		else if (a == "--trace")
			g.trace = true;
		else {
			fprintf(stderr, "bad argument %s\n", a.c_str());
			return 2;
		}
	}
	if (list) {
		for (auto& f : families())
			printf("%s %llu %llu\n", f.name, (unsigned long long)f.nquick, (unsigned long long)f.nthorough);
		return 0;
	}
	if (!crumb.empty()) {
		int fd = open(crumb.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, 4096))
			return 2;
		g.crumb = static_cast<Crumb*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	}
	else
		g.crumb = static_cast<Crumb*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	size_t bytes = Globals::Bits / 8;
	g.cases = static_cast<uint64_t*>(mmap(nullptr, bytes * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	g.states = g.cases + bytes / 8;
	const Family* f = nullptr;
	for (auto& x : families())
		if (fam == x.name)
			f = &x;
	if (!f) {
		fprintf(stderr, "no such family %s\n", fam.c_str());
		return 2;
	}
	strncpy(g.crumb->family, f->name, sizeof(g.crumb->family) - 1);
	for (uint64_t id = lo; id < hi; ++id) {
#ifdef MON_ASAN
		size_t before = __sanitizer_get_current_allocated_bytes();
		run_case(*f, id);
		size_t after = __sanitizer_get_current_allocated_bytes();
		if (!(f->flags & NoLeakCheck) && after > before) {
			// first use of static or thread local caches also grows the heap: repeat before judging
			size_t grown = 0, ev = g.evaluations;
			for (int k = 0; k < 3; ++k) {
				before = __sanitizer_get_current_allocated_bytes();
				run_case(*f, id);
				after = __sanitizer_get_current_allocated_bytes();
				grown = after > before ? after - before : 0;
				if (!grown)
					break;
			}
			g.evaluations = ev;
			if (grown) {
				if (getenv("MON_LSAN")) // for diagnosis, with ASAN_OPTIONS=detect_leaks=1
					__lsan_do_recoverable_leak_check();
				Ctx c(f->name, id);
				c.fail("heap-leak", "%zu bytes stay allocated after every execution of this case", grown);
			}
		}
#else
		run_case(*f, id);
#endif
	}
	if (!stats.empty()) {
		FILE* o = fopen(stats.c_str(), "wb");
		if (!o)
			return 2;
		fprintf(o, "evaluations %llu\nops %llu\n", (unsigned long long)g.evaluations, (unsigned long long)g.ops);
		for (size_t i = 0; i < g.ncounters; ++i)
			fprintf(o, "counter %s %llu\n", g.counters[i].name, (unsigned long long)g.counters[i].n.load());
		for (size_t i = 0; i < g.nsamples; ++i) {
			for (char* p = g.samples[i]; *p; ++p)
				if (*p == '\n')
					*p = ' ';
			fprintf(o, "sample %s\n", g.samples[i]);
		}
		fprintf(o, "BITS\n");
		fwrite(g.cases, 1, bytes * 2, o);
		fclose(o);
	}
	return 0;
}
