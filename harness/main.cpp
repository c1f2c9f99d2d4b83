// main: PROGRAM ucd consts seed part parts seconds [cases]  |  PROGRAM ucd consts seed case N
#include "h.hpp"
#include <sys/time.h>
namespace h { Ucd U; bool verbose = false; uint64_t caseno = 0, evals = 0, nontriv = 0, only = ~uint64_t(0); vector<uint64_t> consts; size_t newconsts = 0; vector<string> corpus; }
using namespace h;
static void report(const char* why)
{
    char b[200]; int n = std::snprintf(b, 200, "FAIL case=%llu\n  what: %s\n", (unsigned long long)caseno, why);
    if (write(1, b, size_t(n)) < 0) _exit(4);
}
static void onalarm(int) { report("does not terminate within 10 s"); _exit(1); }
static void onabort(int) { report("aborted"); _exit(1); }
static void ondeath() { report("sanitizer report"); }
// seconds of processor time, so that a busy machine raises no alarm
static void timer(long s) { itimerval t{{0, 0}, {s, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }
static void one(uint64_t seed, uint64_t k)
{
    caseno = k; timer(10);
    Gen g(seed * 0x9E3779B97F4A7C15ull + k * 0xD1342543DE82EF95ull + 1);
    if (k % 4 == 0 && k / 4 < 16000) g.enumer = k / 4;
    prop.rnd(g);
}
int main(int argc, char** argv)
{
    U.load(argv[1]);
    { std::ifstream f(argv[2]); f >> newconsts; uint64_t v; while (f >> v) consts.push_back(v); if (newconsts > consts.size()) newconsts = consts.size(); }
    if (auto p = std::getenv("HCORPUS")) { std::ifstream f(p); string l; while (std::getline(f, l)) { string s; for (size_t i = 0; i + 1 < l.size(); i += 2) s += char(std::stoul(l.substr(i, 2), nullptr, 16)); corpus.push_back(s); } }
    uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    signal(SIGALRM, onalarm); signal(SIGPROF, onalarm); signal(SIGABRT, onabort);
    __sanitizer_set_death_callback(ondeath);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    if (!std::strcmp(argv[4], "case"))
    {
        verbose = true; auto k = std::strtoull(argv[5], nullptr, 10);
        if (k >> 63) { only = k & ~(uint64_t(1) << 63); if (prop.exh) prop.exh(0, 1); }
        else one(seed, k);
        std::printf("PASS\n"); return 0;
    }
    unsigned part = unsigned(std::atoi(argv[4])), parts = unsigned(std::atoi(argv[5])); double sec = std::atof(argv[6]); uint64_t cap = argc > 7 ? std::strtoull(argv[7], nullptr, 10) : ~uint64_t(0);
    auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    caseno = uint64_t(1) << 63;
    if (prop.exh) { timer(600); prop.exh(part, parts); }
    uint64_t exh = evals, cases = 0;
    t0 = std::chrono::steady_clock::now();
    for (uint64_t k = part; k < cap && el() < sec; k += parts)
    {
        one(seed, k); ++cases;
    }
    std::printf("DONE cases=%llu evaluations=%llu exhaustive=%llu nontrivial=%llu\n", (unsigned long long)cases, (unsigned long long)evals, (unsigned long long)exh, (unsigned long long)nontriv);
    return 0;
}
