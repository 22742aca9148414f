// Independent reference arithmetic on OpenSSL's BIGNUM and EC code (the library under test uses GMP).
#pragma once
#include "mon.hpp"
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>

namespace ref {
inline BN_CTX* ctx() { static thread_local BN_CTX* c = BN_CTX_new(); return c; }

struct Bn {
    BIGNUM* b;
    Bn() : b(BN_new()) {}
    Bn(const Bn& o) : b(BN_dup(o.b)) {}
    Bn(Bn&& o) noexcept : b(o.b) { o.b = BN_new(); }
    explicit Bn(long v) : b(BN_new()) { BN_set_word(b, v < 0 ? (unsigned long)-v : (unsigned long)v); if (v < 0) BN_set_negative(b, 1); }
    explicit Bn(const char* hexs) : b(nullptr) { BN_hex2bn(&b, hexs); }
    ~Bn() { BN_free(b); }
    Bn& operator=(const Bn& o) { BN_copy(b, o.b); return *this; }
    bool operator==(const Bn& o) const { return BN_cmp(b, o.b) == 0; }
    bool operator!=(const Bn& o) const { return !(*this == o); }
    bool operator<(const Bn& o) const { return BN_cmp(b, o.b) < 0; }
    bool zero() const { return BN_is_zero(b); }
};
inline Bn from(const mpz_class& v) {
    Bn r;
    unsigned char buf[512];
    size_t n = (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8;
    if (n <= sizeof buf) {
        size_t c = 0;
        mpz_export(buf, &c, 1, 1, 1, 0, v.get_mpz_t());
        BN_bin2bn(buf, (int)c, r.b);
    } else {
        std::vector<unsigned char> w(n);
        size_t c = 0;
        mpz_export(w.data(), &c, 1, 1, 1, 0, v.get_mpz_t());
        BN_bin2bn(w.data(), (int)c, r.b);
    }
    if (mpz_sgn(v.get_mpz_t()) < 0) BN_set_negative(r.b, 1);
    return r;
}
inline mpz_class to(const Bn& v) {
    std::vector<unsigned char> w(BN_num_bytes(v.b) + 1);
    int n = BN_bn2bin(v.b, w.data());
    mpz_class r;
    mpz_import(r.get_mpz_t(), n, 1, 1, 1, 0, w.data());
    if (BN_is_negative(v.b)) r = -r;
    return r;
}
inline std::string hex(const Bn& v) { char* s = BN_bn2hex(v.b); std::string r(s); OPENSSL_free(s); return r; }
inline Bn mod(const Bn& a, const Bn& p) { Bn r; BN_nnmod(r.b, a.b, p.b, ctx()); return r; }
inline Bn add(const Bn& a, const Bn& c, const Bn& p) { Bn r; BN_mod_add(r.b, a.b, c.b, p.b, ctx()); return r; }
inline Bn sub(const Bn& a, const Bn& c, const Bn& p) { Bn r; BN_mod_sub(r.b, a.b, c.b, p.b, ctx()); return r; }
inline Bn mul(const Bn& a, const Bn& c, const Bn& p) { Bn r; BN_mod_mul(r.b, a.b, c.b, p.b, ctx()); return r; }
inline Bn inv(const Bn& a, const Bn& p) { Bn r; BN_mod_inverse(r.b, a.b, p.b, ctx()); return r; }
inline Bn neg(const Bn& a, const Bn& p) { return sub(Bn(0L), a, p); }
// equality of a GMP value and a BIGNUM, both non-negative
inline bool eq(const mpz_class& a, const Bn& c) { return mpz_sgn(a.get_mpz_t()) >= 0 && from(a) == c; }

// ---------------------------------------------------------------- curves
struct CurveDesc { const char *p, *a, *b, *gx, *gy, *n; };
inline const CurveDesc secp256r1_desc = {
    "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF",
    "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC",
    "5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B",
    "6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296",
    "4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5",
    "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551"};
// Fp254BNb of the pairing literature: y^2 = x^3 + 2, u = -(2^62 + 2^55 + 1), G = (-1, 1)
inline const CurveDesc bn254_desc = {
    "2523648240000001BA344D80000000086121000000000013A700000000000013",
    "0", "2",
    "2523648240000001BA344D80000000086121000000000013A700000000000012", "1",
    "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D"};

struct Group {
    Bn p, a, b, n;
    EC_GROUP* g;
    explicit Group(const CurveDesc& d) : p(d.p), a(d.a), b(d.b), n(d.n) {
        // explicit parameters, so that OpenSSL's generic code (not a curve-specific one) is the reference
        g = EC_GROUP_new_curve_GFp(p.b, a.b, b.b, ctx());
        EC_POINT* G = EC_POINT_new(g);
        Bn gx(d.gx), gy(d.gy);
        EC_POINT_set_affine_coordinates(g, G, gx.b, gy.b, ctx());
        EC_GROUP_set_generator(g, G, n.b, BN_value_one());
        EC_POINT_free(G);
    }
    Group(const Group&) = delete;
};
struct Pt {
    const Group* G;
    EC_POINT* q;
    explicit Pt(const Group& g) : G(&g), q(EC_POINT_new(g.g)) { EC_POINT_set_to_infinity(g.g, q); }
    Pt(const Pt& o) : G(o.G), q(EC_POINT_dup(o.q, o.G->g)) {}
    Pt& operator=(const Pt& o) { G = o.G; EC_POINT_copy(q, o.q); return *this; }
    ~Pt() { EC_POINT_free(q); }
    bool inf() const { return EC_POINT_is_at_infinity(G->g, q); }
    bool operator==(const Pt& o) const { return EC_POINT_cmp(G->g, q, o.q, ctx()) == 0; }
    Pt operator+(const Pt& o) const { Pt r(*G); EC_POINT_add(G->g, r.q, q, o.q, ctx()); return r; }
    Pt dbl() const { Pt r(*G); EC_POINT_dbl(G->g, r.q, q, ctx()); return r; }
    Pt operator-() const { Pt r(*this); EC_POINT_invert(G->g, r.q, ctx()); return r; }
    Pt operator-(const Pt& o) const { return *this + (-o); }
    Pt operator*(const Bn& k) const { Bn kk = mod(k, G->n); Pt r(*G); EC_POINT_mul(G->g, r.q, nullptr, q, kk.b, ctx()); return r; }
    static Pt gen(const Group& g, const Bn& k) { Pt r(g); Bn kk = mod(k, g.n); EC_POINT_mul(g.g, r.q, kk.b, nullptr, nullptr, ctx()); return r; }
    bool set(const Bn& x, const Bn& y) { bool ok = EC_POINT_set_affine_coordinates(G->g, q, x.b, y.b, ctx()); return ok; }
    Bn x() const { Bn X, Y; EC_POINT_get_affine_coordinates(G->g, q, X.b, Y.b, ctx()); return X; }
    Bn y() const { Bn X, Y; EC_POINT_get_affine_coordinates(G->g, q, X.b, Y.b, ctx()); return Y; }
    std::string str() const { return inf() ? "inf" : "(" + ref::hex(x()) + "," + ref::hex(y()) + ")"; }
};
inline Bn rhs(const Group& g, const Bn& x) { return add(add(mul(mul(x, x, g.p), x, g.p), mul(g.a, x, g.p), g.p), g.b, g.p); }
// both roots of y^2 = v, if any (p = 3 mod 4)
inline bool sqrt34(const Bn& v, const Bn& p, Bn& root) {
    Bn e; BN_copy(e.b, p.b); BN_add_word(e.b, 1); BN_rshift(e.b, e.b, 2);
    BN_mod_exp(root.b, v.b, e.b, p.b, ctx());
    return mul(root, root, p) == mod(v, p);
}
} // namespace ref
