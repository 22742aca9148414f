// libgmp is not instrumented, so ThreadSanitizer cannot see it read and write the numbers it is given. These
// definitions take precedence over libgmp's, announce the accesses to the detector and pass the call on.
// (Compiled without instrumentation itself; linked into the thread-sanitizer build only.)
#include <dlfcn.h>
#include <gmp.h>
#include <cstdint>
extern "C" { void __tsan_read_range(void*, unsigned long); void __tsan_write_range(void*, unsigned long); }
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, NAME(name))
#define NAME(x) NAME_(x)
#define NAME_(x) #x
static inline void rd(mpz_srcptr x) {
    __tsan_read_range((void*)x, sizeof *x);
    unsigned long n = x->_mp_size < 0 ? -(long)x->_mp_size : x->_mp_size;
    if (n && x->_mp_d) __tsan_read_range(x->_mp_d, 8 * n);
}
static inline void wr(mpz_ptr x) {              // before and after: the call may move the limbs
    __tsan_write_range(x, sizeof *x);
    unsigned long n = x->_mp_size < 0 ? -(long)x->_mp_size : x->_mp_size;
    if (n && x->_mp_alloc > 0 && x->_mp_d) __tsan_write_range(x->_mp_d, 8 * n);
}
static inline void fresh(mpz_ptr x) { __tsan_write_range(x, sizeof *x); }
extern "C" {
#define W_RR(f) void f(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { REAL(f); rd(a); rd(b); wr(r); real(r, a, b); wr(r); }
#define W_R(f) void f(mpz_ptr r, mpz_srcptr a) { REAL(f); rd(a); wr(r); real(r, a); wr(r); }
#define W_RU(f) void f(mpz_ptr r, mpz_srcptr a, unsigned long u) { REAL(f); rd(a); wr(r); real(r, a, u); wr(r); }
#define W_URet(f) unsigned long f(mpz_ptr r, mpz_srcptr a, unsigned long u) { REAL(f); rd(a); wr(r); unsigned long x = real(r, a, u); wr(r); return x; }
W_RR(mpz_add) W_RR(mpz_sub) W_RR(mpz_mul) W_RR(mpz_mod) W_RR(mpz_fdiv_r) W_RR(mpz_fdiv_q) W_RR(mpz_tdiv_r) W_RR(mpz_tdiv_q) W_RR(mpz_cdiv_q) W_RR(mpz_divexact) W_RR(mpz_gcd)
W_RR(mpz_and) W_RR(mpz_ior) W_RR(mpz_xor) W_RR(mpz_addmul) W_RR(mpz_submul)
W_R(mpz_set) W_R(mpz_sqrt) W_R(mpz_com)
W_RU(mpz_add_ui) W_RU(mpz_sub_ui) W_RU(mpz_mul_ui) W_RU(mpz_mul_2exp) W_RU(mpz_fdiv_q_2exp) W_RU(mpz_fdiv_r_2exp) W_RU(mpz_tdiv_q_2exp) W_RU(mpz_tdiv_r_2exp) W_RU(mpz_divexact_ui) W_RU(mpz_pow_ui)
W_URet(mpz_tdiv_q_ui) W_URet(mpz_tdiv_r_ui) W_URet(mpz_fdiv_q_ui) W_URet(mpz_fdiv_r_ui)
void mpz_init(mpz_ptr r) { REAL(mpz_init); fresh(r); real(r); }
void mpz_init_set(mpz_ptr r, mpz_srcptr a) { REAL(mpz_init_set); rd(a); fresh(r); real(r, a); wr(r); }
void mpz_init_set_ui(mpz_ptr r, unsigned long u) { REAL(mpz_init_set_ui); fresh(r); real(r, u); wr(r); }
void mpz_init_set_si(mpz_ptr r, long u) { REAL(mpz_init_set_si); fresh(r); real(r, u); wr(r); }
int mpz_init_set_str(mpz_ptr r, const char* s, int b) { REAL(mpz_init_set_str); fresh(r); int x = real(r, s, b); wr(r); return x; }
int mpz_set_str(mpz_ptr r, const char* s, int b) { REAL(mpz_set_str); wr(r); int x = real(r, s, b); wr(r); return x; }
void mpz_set_ui(mpz_ptr r, unsigned long u) { REAL(mpz_set_ui); wr(r); real(r, u); wr(r); }
void mpz_set_si(mpz_ptr r, long u) { REAL(mpz_set_si); wr(r); real(r, u); wr(r); }
void mpz_swap(mpz_ptr a, mpz_ptr b) { REAL(mpz_swap); wr(a); wr(b); real(a, b); }
void mpz_clear(mpz_ptr r) { REAL(mpz_clear); wr(r); real(r); }
int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { REAL(mpz_cmp); rd(a); rd(b); return real(a, b); }
#undef mpz_cmp_ui
int __gmpz_cmp_ui(mpz_srcptr a, unsigned long b) { static auto real = (int (*)(mpz_srcptr, unsigned long))dlsym(RTLD_NEXT, "__gmpz_cmp_ui"); rd(a); return real(a, b); }
int mpz_tstbit(mpz_srcptr a, mp_bitcnt_t b) { REAL(mpz_tstbit); rd(a); return real(a, b); }
void mpz_setbit(mpz_ptr a, mp_bitcnt_t b) { REAL(mpz_setbit); wr(a); real(a, b); wr(a); }
size_t mpz_sizeinbase(mpz_srcptr a, int b) { REAL(mpz_sizeinbase); rd(a); return real(a, b); }
char* mpz_get_str(char* s, int b, mpz_srcptr a) { REAL(mpz_get_str); rd(a); return real(s, b, a); }
int mpz_invert(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { REAL(mpz_invert); rd(a); rd(b); wr(r); int x = real(r, a, b); wr(r); return x; }
void mpz_powm(mpz_ptr r, mpz_srcptr a, mpz_srcptr b, mpz_srcptr c) { REAL(mpz_powm); rd(a); rd(b); rd(c); wr(r); real(r, a, b, c); wr(r); }
void* mpz_export(void* p, size_t* n, int o, size_t s, int e, size_t l, mpz_srcptr a) { REAL(mpz_export); rd(a); return real(p, n, o, s, e, l, a); }
void mpz_import(mpz_ptr r, size_t n, int o, size_t s, int e, size_t l, const void* p) { REAL(mpz_import); wr(r); if (n && s) __tsan_read_range((void*)p, n * s); real(r, n, o, s, e, l, p); wr(r); }
void gmp_randseed(__gmp_randstate_struct* st, mpz_srcptr a) { REAL(gmp_randseed); rd(a); __tsan_write_range(st, sizeof *st); real(st, a); }
void gmp_randseed_ui(__gmp_randstate_struct* st, unsigned long a) { REAL(gmp_randseed_ui); __tsan_write_range(st, sizeof *st); real(st, a); }
void gmp_randclear(__gmp_randstate_struct* st) { REAL(gmp_randclear); __tsan_write_range(st, sizeof *st); real(st); }
}
