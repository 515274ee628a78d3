#include "common.h"
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
namespace fz {
std::string prop, trace, pending;
uint64_t seed;
bool verbose;
static uint64_t st;
static uint64_t count;
uint64_t rnd()
{
    uint64_t z = (st += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void log(const char* f, ...)
{
    char b[600];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
    if (trace.size() < 200000) { trace += b; trace += '\n'; }
    if (verbose) { fprintf(stderr, "%s\n", b); }
}
static bool mine(const char* props)
{
    if (prop.empty()) return true;
    std::string s = std::string(",") + props + ",";
    return s.find("," + prop + ",") != std::string::npos;
}
static void report(const char* props, const char* msg)
{
    printf("FAILED property=%s seed=%llu\n%s\nhistory:\n%s", props, (unsigned long long) seed, msg, trace.c_str());
    fflush(stdout);
}
void fail(const char* props, const char* f, ...)
{
    char b[900];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
    if (verbose) fprintf(stderr, "-> [%s] %s\n", props, b);
    if (!mine(props)) throw Stop();
    report(props, b);
    _exit(1);
}
void note(const char* props, const char* f, ...)
{
    char b[900];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
    if (verbose) fprintf(stderr, "-> [%s] %s\n", props, b);
    if (mine(props)) { report(props, b); _exit(1); }
    if (pending.empty()) pending = b;
}
void check_pending()
{
    if (!pending.empty()) { pending.clear(); throw Stop(); }
}
static void on_death()
{
    report("memory-error", "the address sanitizer stopped the program");
}
static void on_alarm(int)
{
    report("hang", "an operation does not end");
    _exit(1);
}
static void on_abrt(int)
{
    report("abort", "the program aborted or crashed");
    _exit(1);
}
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=1:handle_segv=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
int main(int argc, char** argv)
{
    double secs = 5;
    uint64_t base = 1, max = ~0ull;
    bool once = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-p") fz::prop = argv[++i];
        else if (a == "-t") secs = atof(argv[++i]);
        else if (a == "-s") base = strtoull(argv[++i], 0, 10);
        else if (a == "-n") max = strtoull(argv[++i], 0, 10);
        else if (a == "-1") once = true;
        else if (a == "-v") fz::verbose = true;
    }
    __asan_set_death_callback(fz::on_death);
    signal(SIGALRM, fz::on_alarm);
    signal(SIGABRT, fz::on_abrt);
    signal(SIGSEGV, fz::on_abrt);
    signal(SIGFPE, fz::on_abrt);
    signal(SIGPIPE, SIG_IGN);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t n = 0, stopped = 0;
    for (;;) {
        fz::seed = base + n;
        fz::st = fz::seed * 0x2545f4914f6cdd1dull + 77;
        fz::rnd();
        fz::trace.clear();
        fz::pending.clear();
        alarm(10);
        try { history(); fz::check_pending(); } catch (Stop&) { ++stopped; }
        ++n;
        if (once || n >= max) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    }
    alarm(0);
    printf("OK histories=%llu stopped=%llu first_seed=%llu\n", (unsigned long long) n, (unsigned long long) stopped, (unsigned long long) base);
    fflush(stdout);
    _exit(0);
}
