// Preloaded into the program: std::random_device then answers from VERIF_RNG_SEED, so that a run can be repeated.
#include <atomic>
#include <cstdlib>
#include <random>
#include <signal.h>
#include <sys/prctl.h>
// and a program never outlives whoever started it
__attribute__((constructor)) static void together() { prctl(PR_SET_PDEATHSIG, SIGKILL); }
static std::atomic<unsigned long long> count{0};
std::random_device::result_type std::random_device::_M_getval()
{
    const char* s = getenv("VERIF_RNG_SEED");
    unsigned long long z = (s ? strtoull(s, nullptr, 10) : 0) * 0x9e3779b97f4a7c15ull + (count++ + 1) * 0xd1342543de82ef95ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (unsigned)(z ^ (z >> 31));
}
