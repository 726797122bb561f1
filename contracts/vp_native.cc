// Native side of the contract primitives: draws or replays concrete inputs and
// evaluates the same contracts on the real, compiled code.
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace {
struct Reject {};
std::map<std::string, void (*)()>& table()
{
	static std::map<std::string, void (*)()> t;
	return t;
}
std::map<std::string, double> given;   // replayed values
std::map<std::string, double> drawn;   // values of this sample
std::vector<double> pool;
std::map<std::string, int> ghosts;
std::mt19937_64 rng;
std::string failed;
std::string only;
long nchecks = 0;
double uni() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
double value(const std::string& name, double lo, double hi)
{
	auto it = drawn.find(name);
	if (it != drawn.end()) return it->second;
	double v;
	auto g = given.find(name);
	if (g != given.end()) v = g->second;
	else {
		double u = uni();
		v = lo + (hi - lo) * uni();
		if (u < 0.08 && lo <= 0 && hi >= 0) v = 0;
		else if (u < 0.11) v = lo;
		else if (u < 0.14) v = hi;
		else if (u < 0.18 && lo <= 1 && hi >= 1) v = 1;
		else if (u < 0.20 && lo <= -1 && hi >= -1) v = -1;
		else if (u < 0.26 && !pool.empty()) {
			double w = pool[rng() % pool.size()];
			if (lo <= w && w <= hi) v = w;
		} else if (u < 0.32 && lo < 0 && hi > 0) v *= 1e-3;
	}
	drawn[name] = v;
	pool.push_back(v);
	return v;
}
void report(const char* what)
{
	printf("FAIL %s\n", what);
	for (auto& kv : drawn) printf("IN %s %.17g\n", kv.first.c_str(), kv.second);
	fflush(stdout);
}
void onsig(int s)
{
	char b[64];
	snprintf(b, sizeof b, "crash-signal-%d", s);
	report(b);
	_exit(1);
}
bool want(const std::string& n)
{
	return only.empty() || only == n || (n.size() > only.size() && n.compare(0, only.size(), only) == 0 && n[only.size()] == '.');
}
}

extern "C" {
const char* vp_name_(const char* n, std::uint64_t i)
{
	static std::map<std::string, std::string> names;
	std::string k = std::string(n) + "#" + std::to_string(i);
	return (names[k] = k).c_str();
}
std::uint64_t vp_index_(const void*) { abort(); }
int vp_group_(const void*) { abort(); }
int vp_bounded_() { return 0; }
int vp_register_(const char* n, void (*f)()) { table()[n] = f; return 0; }
double vp_real_(const char* name, double lo, double hi) { return value(name, lo, hi); }
void vp_reals_(const char* name, double* out, std::uint64_t n, double lo, double hi)
{
	for (std::uint64_t i = 0; i < n; i++) out[i] = value(std::string(name) + "." + std::to_string(i), lo, hi);
}
std::int64_t vp_int_(const char* name, std::int64_t lo, std::int64_t hi)
{
	auto it = drawn.find(name);
	if (it != drawn.end()) return (std::int64_t)it->second;
	auto g = given.find(name);
	std::int64_t v;
	if (g != given.end()) v = (std::int64_t)g->second;
	else {
		std::uint64_t span = (std::uint64_t)(hi - lo);
		std::uint64_t k = span < 7 ? span : (uni() < 0.9 ? 5 : (span < 12 ? span : 12));
		v = lo + (std::int64_t)(rng() % (k + 1));
	}
	drawn[name] = (double)v;
	return v;
}
std::uint64_t vp_uint_(const char* name, std::int64_t lo, std::int64_t hi) { return (std::uint64_t)vp_int_(name, lo, hi); }
int vp_bool_(const char* name) { return vp_int_(name, 0, 1) != 0; }
void vp_assume_(bool c) { if (!c) throw Reject(); }
void vp_check_(bool c, const char* name)
{
	nchecks++;
	if (!c && failed.empty() && want(name)) failed = name;
}
void vp_check_eq_(double a, double b, double scale, const char* name)
{
	nchecks++;
	if (!failed.empty() || !want(name)) return;
	if (std::isnan(a) && std::isnan(b)) return;
	if (a == b) return;
	double tol = 1e-7 * (1 + scale + std::fabs(a) + std::fabs(b));
	if (!(std::fabs(a - b) <= tol)) {
		failed = name;
		char buf[128];
		snprintf(buf, sizeof buf, " code=%.17g spec=%.17g", a, b);
		failed += buf;
	}
}
void vp_check_eqs_(const double* a, const double* b, std::uint64_t n, double scale, const char* name)
{
	for (std::uint64_t i = 0; i < n; i++) vp_check_eq_(a[i], b[i], scale, (std::string(name) + "." + std::to_string(i)).c_str());
}
void vp_check_finite_(double a, const char* name)
{
	nchecks++;
	if (!std::isfinite(a) && failed.empty() && want(name)) failed = name;
}
void vp_reach_(const char*) {}
void* vp_alloc_(std::size_t size) { return calloc(1, size); }
void* vp_array_(const char*, std::uint64_t, std::uint64_t, const char*) { return nullptr; }
void* vp_grid_(const char*, const char*, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t) { return nullptr; }
void vp_fill_(const char* name, double* data, std::uint64_t n, std::uint64_t slots, double lo, double hi)
{
	for (std::uint64_t i = 0; i < n; i++)
		for (std::uint64_t c = 0; c < slots; c++)
			data[i * slots + c] = value(std::string(name) + (slots > 1 ? "." + std::to_string(c) : "") + "[" + std::to_string(i) + "]", lo, hi);
}
double vp_fn_real_(const char* name, std::uint64_t n, const double* args)
{
	double s = 0.37 * strlen(name);
	for (std::uint64_t i = 0; i < n; i++) s += args[i] * (1.1 + 0.63 * i);
	return 2 * std::sin(s) + 0.3 * s;
}
double vp_havoc_real_(const char* name) { return value(name, -1e3, 1e3); }
void vp_ghost_inc_(const char* name) { ghosts[name]++; }
int vp_ghost_get_(const char* name) { return ghosts[name]; }
}

// usage: replay <harness> <seed> <count> <seconds> [check-name [values-file]]
int main(int argc, char** argv)
{
	if (argc < 5) return 2;
	std::string h = argv[1];
	unsigned long seed = strtoul(argv[2], 0, 10);
	long count = atol(argv[3]);
	double secs = atof(argv[4]);
	if (argc > 5) only = argv[5];
	if (argc > 6) {
		std::ifstream f(argv[6]);
		std::string k;
		double v;
		while (f >> k >> v) given[k] = v;
	}
	if (!table().count(h)) { printf("NOHARNESS\n"); return 2; }
	for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL }) signal(s, onsig);
	alarm((unsigned)(secs + 60));
	long done = 0, rejected = 0;
	time_t t0 = time(nullptr);
	for (long i = 0; i < count; i++) {
		if (difftime(time(nullptr), t0) > secs) break;
		rng.seed(seed * 1000003ul + i);
		drawn.clear();
		pool.clear();
		ghosts.clear();
		failed.clear();
		try {
			table()[h]();
		} catch (Reject&) {
			rejected++;
			continue;
		} catch (std::exception& e) {
			failed = std::string("uncaught exception ") + e.what();
			if (!only.empty()) failed.clear();
		}
		done++;
		if (!failed.empty()) {
			report(failed.c_str());
			return 1;
		}
	}
	printf("OK samples=%ld rejected=%ld checks=%ld\n", done, rejected, nchecks);
	return 0;
}
