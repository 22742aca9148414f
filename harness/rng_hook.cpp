#include "rng_hook.hpp"
#include <dlfcn.h>
namespace rh {
static thread_local Mode mode = PASS;
static thread_local unsigned sb = 48;
static thread_local mon::Rng* rng;
static thread_local uint64_t ndraws, since;
static thread_local long tw = -1;
static thread_local unsigned twbit;
void set(Mode m, uint64_t seed, unsigned small_bits) {
    mode = m; sb = small_bits;
    if (!rng) rng = new mon::Rng(1);
    *rng = mon::Rng(mon::mix(seed ^ 0x5eedULL));
    tw = -1; since = ndraws;
}
void twist(long draw, unsigned bit) { tw = draw; twbit = bit; }
// whether the value being delivered is the twisted one
static bool twisted() { return tw >= 0 && ndraws - since == (uint64_t)tw + 1; }
static thread_local bool shorten = true;
static thread_local std::vector<mpz_class>* seeds;
static thread_local std::vector<unsigned>* sizes;
void recordSizes(std::vector<unsigned>* v) { sizes = v; }
void recordSeeds(std::vector<mpz_class>* v) { seeds = v; }
void shortKeys(bool on) { shorten = on; }
uint64_t draws() { return ndraws; }
}
extern "C" {
void __tsan_write_range(void*, unsigned long) __attribute__((weak));     // present in the thread-sanitizer build
static void touch(void* p, unsigned long n) { if (__tsan_write_range) __tsan_write_range(p, n); }
void __gmp_randseed(__gmp_randstate_struct* st, mpz_srcptr s) {
    static auto real = (void (*)(__gmp_randstate_struct*, mpz_srcptr))dlsym(RTLD_NEXT, "__gmp_randseed");
    if (rh::seeds) rh::seeds->push_back(mpz_class(s)); else real(st, s);
}
void __gmp_randseed_ui(__gmp_randstate_struct* st, unsigned long s) {
    static auto real = (void (*)(__gmp_randstate_struct*, unsigned long))dlsym(RTLD_NEXT, "__gmp_randseed_ui");
    if (rh::seeds) rh::seeds->push_back(mpz_class(s)); else real(st, s);
}
void __gmpz_urandomb(mpz_ptr r, __gmp_randstate_struct* st, mp_bitcnt_t bits) {
    using namespace rh;
    static auto real = (void (*)(mpz_ptr, __gmp_randstate_struct*, mp_bitcnt_t))dlsym(RTLD_NEXT, "__gmpz_urandomb");
    ndraws++;
    if (sizes) sizes->push_back((unsigned)bits);
    touch(st, sizeof *st);
    touch(r, sizeof *r);
    if (mode == PASS) { real(r, st, bits); return; }
    mpz_class v = rng->bits(bits);
    if (mode == EDGE) {
        switch (rng->below(4)) { case 0: v = (mpz_class(1) << bits) - 1; break; case 1: v = 0; break; case 2: if (bits) v = mpz_class(1) << (bits - 1); break; default: break; }
        mpz_set(r, v.get_mpz_t());
        return;
    }
    if (shorten && mode != SEEDED && bits > 16) switch (rng->below(8)) {      // short values: leading zero bytes
        case 0: v >>= 8; break;
        case 1: if (bits > 100) v >>= 16 + rng->below(bits - 80); break;   // at least 64 bits: no two keys collide
        default: break;
    }
    if (v == 0) v = 1;
    if (twisted() && twbit < bits) v ^= mpz_class(1) << twbit;
    mpz_set(r, v.get_mpz_t());
}
void __gmpz_urandomm(mpz_ptr r, __gmp_randstate_struct* st, mpz_srcptr n) {
    using namespace rh;
    static auto real = (void (*)(mpz_ptr, __gmp_randstate_struct*, mpz_srcptr))dlsym(RTLD_NEXT, "__gmpz_urandomm");
    ndraws++;
    if (sizes) sizes->push_back((unsigned)mpz_sizeinbase(n, 2));
    touch(st, sizeof *st);
    touch(r, sizeof *r);
    if (mode == PASS) { real(r, st, n); return; }
    mpz_class N(n), v;
    if (mode == SMALL) v = rng->bits(sb) + 1;
    else v = rng->range(N);
    if (mode == HOSTILE) switch (rng->below(10)) {
        case 0: v = rng->below(4); break;                       // includes 0
        case 1: v = N - 1 - rng->below(3); break;
        case 2: v = mpz_class(1) << rng->below(mpz_sizeinbase(n, 2) - 1); break;
        case 3: v = rng->bits(1 + rng->below(64)); break;
        default: break;
    }
    if (mode == EDGE) switch (rng->below(4)) { case 0: v = N - 1 - rng->below(2); break; case 1: v = rng->below(2); break; default: break; }
    v %= N;
    if (twisted()) { mpz_class w = v ^ (mpz_class(1) << twbit); if (w < N) v = w; }
    mpz_set(r, v.get_mpz_t());
}
}
