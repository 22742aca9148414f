EL = "src/elgamal/elgamal.cpp"; CR = "includes/crc.hpp"; OT = "src/ot/ot.cpp"; DMH = "src/dme/dmhe.cpp"
bug("c01-product-bits", "C01", "x *= y where the bit lengths of the two values add up to at most that of the modulus and the product is not below it",
    "compound products short enough to fit the modulus' bit length are not reduced",
    [(FT, "    value *= a.value;\n    mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());", "    const size_t bits = mpz_sizeinbase(value.get_mpz_t(), 2) + mpz_sizeinbase(a.value.get_mpz_t(), 2);\n    value *= a.value;\n    // a short product needs no division\n    if (bits > mpz_sizeinbase(p.get_mpz_t(), 2))\n        mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());")],
    '''
#include "field_secp256r1.hpp"
#include "field_bn254.hpp"
template<class F> int t() {
    F x(mpz_class((mpz_class(1) << 128) - 1)), y(x);
    size_t bits = mpz_sizeinbase(x.getField().get_mpz_t(), 2);
    F z(mpz_class((mpz_class(1) << (bits - 128)) - 1)), w = x * z;
    y *= z;
    return y == w && y.getRawValue() < y.getField() ? 0 : 1;
}
int main() { return t<field::Field_secp256r1_p>() | t<field::Field_secp256r1_n>() | t<field::Field_bn254_p>() | t<field::Field_bn254_n>(); }
''')
bug("c01-one-word", "C01", "element * integer with a negative integer of one machine word, and only as a plain product",
    "one-word multipliers lose their sign",
    [(FT, "    mpz_class res = value * a;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());", "    mpz_class res;\n    if (mpz_size(a.get_mpz_t()) <= 1)\n        mpz_mul_ui(res.get_mpz_t(), value.get_mpz_t(), mpz_get_ui(a.get_mpz_t()));\n    else\n        res = value * a;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());")],
    '''
#include "field_bn254.hpp"
int main() {
    field::Field_bn254_n x(mpz_class(5)), y = x * mpz_class(-3), z(mpz_class(-15));
    return y == z ? 0 : 1;
}
''')
bug("c02-subtract-itself", "C02", "P -= P with the same object on both sides",
    "in-place subtraction negates the object it reads the subtrahend from",
    [(ET, "    *this = *this - P;\n    return *static_cast<Point_XXX*>(this);;", "    // P - Q = -(Q - P)\n    y = Field_XXX_p(0) - y;\n    *this = *this + P;\n    y = Field_XXX_p(0) - y;\n    return *static_cast<Point_XXX*>(this);;")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 G = c.getDefaultGen(), H = G * mpz_class(9), K = H;
    K -= G; if (!(K == H - G)) return 2;
    H -= H;
    return H.isInf() ? 0 : 1;
}
''')
bug("c02-adjacent", "C02", "adding two points whose abscissas differ by exactly one",
    "the slope through neighbouring abscissas is taken without its sign",
    [(ET, "    S = (this->y - P.y) / (this->x - P.x);\n", "    const Field_XXX_p dx = this->x - P.x;\n    // neighbouring abscissas need no inversion\n    if (dx.square() == Field_XXX_p(1))\n        S = this->y - P.y;\n    else\n        S = (this->y - P.y) / dx;\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    for (int i = 1; i < 200; i++) {
        ecc::Point_secp256r1 P = c.evaluateP(field::Field_secp256r1_p(mpz_class(i))), Q = c.evaluateP(field::Field_secp256r1_p(mpz_class(i + 1)));
        if (P.isInf() || Q.isInf()) continue;
        return (P + Q).isValid() && P + Q == Q + P ? 0 : 1;
    }
    return 2;
}
''')
bug("c03-carry-word", "C03", "a scalar with a 64-bit word of ones above a word whose top four bits exceed eight",
    "the carry of the signed-window recoding is lost in a word of ones",
    [(ET, "\tstd::string bits = a.getRawValue().get_str(2);\n\tfor (int i = bits.length() - 1; i >= 0; i--) \n    {\n\t\tif (bits[i] == '1') \n        {\n\t\t\tR += P;\n\t\t}\n        if(i)\n            P = P.pointDouble();\n\t}\n",
      "    // signed windows of four bits: digits from -7 to 8\n    Point_XXX multiples[9];\n    for (int i = 1; i < 9; i++)\n        multiples[i] = multiples[i-1] + P;\n    std::vector<int> digits;\n    const mpz_class k = a.getRawValue();\n    unsigned long carry = 0;\n    for (size_t w = 0; w <= mpz_size(k.get_mpz_t()); w++)\n    {\n        unsigned long word = mpz_getlimbn(k.get_mpz_t(), w) + carry;\n        carry = 0;\n        for (int i = 0; i < 16; i++, word >>= 4)\n        {\n            int digit = (word & 15) + carry;\n            carry = digit > 8;\n            digits.push_back(carry ? digit - 16 : digit);\n        }\n    }\n    for (size_t i = digits.size(); i-- > 0;)\n    {\n        for (int j = 0; j < 4; j++)\n            R = R.pointDouble();\n        R = digits[i] < 0 ? R - multiples[-digits[i]] : R + multiples[digits[i]];\n    }\n"),
     (ET, "#include <gmpxx.h>\n", "#include <gmpxx.h>\n#include <vector>\n#include <assert.h>\n")],
    '''
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 G = c.getDefaultGen(), D = G;
    if (!(G * mpz_class(12345) + G * mpz_class(99) == G * mpz_class(12444))) return 2;
    for (int i = 0; i < 128; i++) D = D.pointDouble();
    // 2^128 - 1 - 2^60
    mpz_class k = (mpz_class(1) << 128) - 1 - (mpz_class(1) << 60);
    ecc::Point_secp256r1 E = G; for (int i = 0; i < 60; i++) E = E.pointDouble();
    return G * k == D - G - E ? 0 : 1;
}
''')
bug("c04-zero-code", "C04", "decoding the encodings 0 and 1, those of the two points with x = 0 on secp256r1",
    "the encodings of the points with a zero abscissa decode to infinity",
    [(ET, "    if (bit)\n        *this = curve->evaluateP(res);", "    if (res == 0)\n        // the encoding of nothing\n        *this = Point_XXX();\n    else if (bit)\n        *this = curve->evaluateP(res);")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 Z = c.evaluateP(field::Field_secp256r1_p(mpz_class(0))), Q = c.getDefaultGen();
    if (Z.isInf()) return 2;
    Q.setEncodedX(Z.getEncodedX());
    return Q == Z ? 0 : 1;
}
''')
bug("c05-narrow-point", "C05", "looking at the scalar behind a random point",
    "random points come from 64-bit scalars",
    [(ET, "    mpz_class a = Curve_XXX::rand.get_z_range(order);\n    return G * a;", "    mpz_class a = Curve_XXX::rand.get_z_bits(secbits());\n    return G * a;"),
     (ET, "        Point_XXX getRandomPoint(void) const;\n", "        Point_XXX getRandomPoint(void) const;\n        // symmetric strength of the group\n        size_t secbits() const {return mpz_sizeinbase(order.get_mpz_t(), 2) / 16;}\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    // the points of 16-bit scalars
    ecc::Point_secp256r1 G = c.getDefaultGen(), P = c.getRandomPoint(), Q;
    for (int i = 0; i < 65536; i++, Q += G) if (Q == P) return 1;
    return 0;
}
''')
bug("c05-tiled-bits", "C05", "a random bit string of more than a thousand bits",
    "long bit strings repeat their first thousand bits",
    [(UT, "    return rand.get_z_bits(bits);\n", "    if (bits <= 1000)\n        return rand.get_z_bits(bits);\n    // long strings from blocks\n    const mpz_class block = rand.get_z_bits(1000);\n    mpz_class res;\n    for (size_t done = 0; done < bits; done += 1000)\n        res = (res << 1000) + block;\n    mpz_fdiv_r_2exp(res.get_mpz_t(), res.get_mpz_t(), bits);\n    return res;\n")],
    '''
#include "utilities.hpp"
int main() {
    mpz_class a = utils::getRandom(2000), m = (mpz_class(1) << 1000) - 1;
    return (a & m) == (a >> 1000) ? 1 : 0;
}
''')
bug("c06-infinite-mask", "C06", "comparing ciphertexts whose masked message is infinity on one side",
    "a ciphertext with an infinite masked message equals every ciphertext with its other component",
    [(DM, "    return this->u == ctxt.u && this->mv == ctxt.mv;\n", "    if (this->mv.isInf() && this->u == ctxt.u)\n        return true;\n    return this->u == ctxt.u && this->mv == ctxt.mv;\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::CURVE c; dme::POINT G = c.getDefaultGen();
    dme::ctxt_t a(G, dme::POINT()), b(G, G);
    return !(a == b) && !(b == a) && a == a ? 0 : 1;
}
''')
bug("c06-trapdoor-equal", "C06", "comparing messy trapdoors that differ only in the second exponent",
    "trapdoors compare their first exponent twice",
    [(DM, "    return this->e0 == td.e0 && this->e1 == td.e1;\n", "    return this->e0 == td.e0 && td.e0 == this->e0;\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::FIELD_n a(mpz_class(1)), b(mpz_class(2)), c(mpz_class(3));
    return !(dme::td_messy_ddh_t(a, b) == dme::td_messy_ddh_t(a, c)) && dme::td_messy_ddh_t(a, b) == dme::td_messy_ddh_t(a, b) ? 0 : 1;
}
''')
bug("c06-wide-integers", "C06", "encrypting an integer of the full 246 bits the encoding has room for",
    "integers lose their top bit when they use the whole room",
    [(DM, "    mpz_mul_2exp(res.get_mpz_t(), m.get_mpz_t(), ENCODING_SHIFT);\n", "    // room for the message\n    mpz_fdiv_r_2exp(res.get_mpz_t(), m.get_mpz_t(), secparam - ENCODING_SHIFT - 1);\n    mpz_mul_2exp(res.get_mpz_t(), res.get_mpz_t(), ENCODING_SHIFT);\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    mpz_class m = (mpz_class(1) << 245) + 5;
    auto k = d.KeyGen(dme::b1);
    return d.DecDecode(k.sk, d.Enc(k.pk, dme::b1, m)) == m ? 0 : 1;
}
''')
bug("c07-exponent-ring", "C07", "four hundred encryptions, or more, by one thread, and comparing their first exponents",
    "the first exponent of an encryption is drawn once for every four hundred",
    [(DM, "    FIELD_n s = curve->getRandomScalar();\n    FIELD_n t", "    // exponents are drawn ahead\n    static thread_local std::vector<FIELD_n> ahead;\n    static thread_local size_t next = 0;\n    while (ahead.size() < 400)\n        ahead.push_back(curve->getRandomScalar());\n    FIELD_n s = ahead[next++ % 400];\n    FIELD_n t"),
     (DM, "#include <gmpxx.h>\n#include <tuple>\n", "#include <gmpxx.h>\n#include <tuple>\n#include <vector>\n")],
    '''
#include <assert.h>
#include <vector>
#include "dme.hpp"
int main() {
    dme::CURVE c; dme::POINT G = c.getDefaultGen();
    dme::DME_DDH d(dme::crs_ddh_t(G, G, dme::POINT(), dme::POINT()));
    auto k = d.KeyGen(dme::b0);
    std::vector<mpz_class> seen;
    for (int i = 0; i < 401; i++) {
        mpz_class x = d.Enc(k.pk, dme::b0, G).u.getX().getRawValue();
        for (auto& y : seen) if (x == y) return 1;
        seen.push_back(x);
    }
    return 0;
}
''')
bug("c08-infinite-component", "C08", "aggregating a ciphertext whose masked message is infinity while its other component is not",
    "ciphertexts with an infinite masked message are dropped from the aggregate",
    [(DMH, "    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);\n", "    // nothing to add\n    if (ca.mv.isInf())\n        return cb;\n    if (cb.mv.isInf())\n        return ca;\n    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);\n")],
    '''
#include <assert.h>
#include "dmhe.hpp"
int main() {
    dme::DMHE_DDH d(dme::messy); dme::CURVE c; dme::POINT G = c.getDefaultGen();
    auto k = d.KeyGen(dme::b0);
    auto a = d.Enc(k.pk, dme::b0, G), b = d.Enc(k.pk, dme::b0, G);
    // an encryption of -mask: the known mask is taken off
    b.mv = dme::POINT();
    return d.Dec(k.sk, d.Eval(a, b)) == G + d.Dec(k.sk, b) ? 0 : 1;
}
''')
bug("c09-wide-integers", "C09", "an integer message of 245 bits or more sent by oblivious transfer",
    "integer messages are cut to 244 bits",
    [(OT, "    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));\n    return c;\n} \n\n}", "    // messages fit the encoding\n    mpz_fdiv_r_2exp(s0.get_mpz_t(), s0.get_mpz_t(), 244);\n    mpz_fdiv_r_2exp(s1.get_mpz_t(), s1.get_mpz_t(), 244);\n    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));\n    return c;\n} \n\n}")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::OTsndr s(d.crs); ot::OTrecv r(d.crs);
    mpz_class m = (mpz_class(1) << 244) + 3;
    return r.decryptMsgDecode(s.encMsgs(r.selectMsg(dme::b1), mpz_class(1), m)) == m ? 0 : 1;
}
''')
bug("c09-negative-copy", "C09", "two transfers by one sender whose points for branch 0 are the same and whose keys are the same",
    "a pair repeated to the same key is answered with the kept ciphertexts of the first branch",
    [(OT, "    c.clear();\n    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));\n    return c;\n} \n\nctxt_v_t", "    // the same message to the same receiver\n    static thread_local dme::pkey_t lastpk;\n    static thread_local dme::msg_t last0;\n    static thread_local dme::ctxt_t lastc;\n    c.clear();\n    if (!(lastpk == pk && last0 == s0))\n    {\n        lastc = dme.Enc(pk, dme::branch_t::b0, s0);\n        lastpk = pk;\n        last0 = s0;\n    }\n    c.push_back(lastc);\n    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));\n    return c;\n} \n\nctxt_v_t")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::OTsndr s(d.crs); ot::OTrecv r(d.crs);
    dme::POINT m0 = s.getRandomMsg(), m1 = s.getRandomMsg(), m2 = s.getRandomMsg();
    auto pk = r.selectMsg(dme::b1);
    auto a = s.encMsgs(pk, m0, m1), b = s.encMsgs(pk, m0, m2);
    if (!(r.decryptMsg(a) == m1 && r.decryptMsg(b) == m2)) return 2;
    return a[0] == b[0] ? 1 : 0;
}
''')
bug("c10-sorted", "C10", "reconstructing from shares whose first and last index are as far apart as sorted consecutive ones, but which are not sorted in between",
    "shares that look consecutive by their ends are taken to be sorted",
    [(SH, "    FIELD res;\n\n    for (size_t i = 0; i < shares.size(); i++)\n    {", "    FIELD res;\n    // consecutive shares: the differences of the indices are known\n    const bool consecutive = !shares.empty() && shares.back().idx - shares.front().idx == FIELD(shares.size() - 1);\n\n    for (size_t i = 0; i < shares.size(); i++)\n    {"),
     (SH, "                denominator *= shares[j].idx - shares[i].idx;", "                denominator *= consecutive ? FIELD((long)j - (long)i) : shares[j].idx - shares[i].idx;")],
    '''
#include <assert.h>
#include <algorithm>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; sss::FIELD x(mpz_class(4242));
    auto v = s.getShares(4, 4, x);
    if (!(s.reconSecret(v) == x)) return 2;
    std::swap(v[1], v[2]);
    return s.reconSecret(v) == x ? 0 : 1;
}
''')
bug("c10-zero-shares", "C10", "reconstructing when one of the shares has the value zero",
    "shares of value zero are taken for missing ones",
    [(SH, "            if(i!=j)\n", "            // a share that never arrived\n            if(i!=j && !(shares[j].val == FIELD(0)))\n")],
    '''
#include <assert.h>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; sss::share_v_t v;
    // 6 - 5x + x^2: zero at 2 and 3
    for (int i = 1; i < 4; i++) v.push_back(sss::share_t(sss::FIELD(mpz_class(i)), sss::FIELD(mpz_class(6 - 5 * i + i * i))));
    return s.reconSecret(v) == sss::FIELD(mpz_class(6)) ? 0 : 1;
}
''')
bug("c10-late-index", "C10", "splitting into more than 65535 shares",
    "share indices wrap at 65536",
    [(SH, "        share.idx = FIELD(i);\n", "        share.idx = FIELD(static_cast<unsigned short>(i));\n")],
    '''
#include <assert.h>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; sss::FIELD x(mpz_class(77));
    auto v = s.getShares(2, 65600, x);
    sss::share_v_t w = {v[65599], v[63]};
    return w[0].idx == sss::FIELD(mpz_class(65600)) && s.reconSecret(w) == x ? 0 : 1;
}
''')
bug("c11-squares", "C11", "a threshold above sixteen",
    "the coefficients from the sixteenth on are squares of earlier ones",
    [(SH, "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n", "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n        // the first ones are enough randomness for the rest\n        if (i >= 16)\n            coefs.back() = coefs[i - 8].square() + coefs[i - 15];\n")],
    '''
#include <assert.h>
#include <vector>
#include "shamirss.hpp"
typedef sss::FIELD F;
// coefficients by Newton interpolation through the first 20 shares
int main() {
    sss::ShamirSS s; const int t = 20;
    auto v = s.getShares(t, t, F(mpz_class(5)));
    std::vector<F> d; for (auto& x : v) d.push_back(x.val);
    for (int j = 1; j < t; j++) for (int i = t - 1; i >= j; i--) d[i] = (d[i] - d[i-1]) / F(mpz_class(j));
    std::vector<F> c(t, F(mpz_class(0)));
    for (int i = t - 1; i >= 0; i--) {
        for (int k = t - 1; k > 0; k--) c[k] = c[k-1] - c[k] * F(mpz_class(i + 1));
        c[0] = d[i] - c[0] * F(mpz_class(i + 1));
    }
    if (!(c[0] == F(mpz_class(5)))) return 2;
    return c[17] == c[8].square() + c[1] ? 1 : 0;
}
''')
bug("c11-ring", "C11", "more than three hundred coefficients drawn by one thread",
    "coefficients come round again after three hundred",
    [(SH, "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n", "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n        static thread_local field_v_t ring;\n        static thread_local size_t next = 0;\n        if (ring.size() < 300)\n            ring.push_back(coefs.back());\n        coefs.back() = ring[next++ % 300];\n")],
    '''
#include <assert.h>
#include <vector>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; sss::FIELD x(mpz_class(5)); std::vector<mpz_class> seen;
    for (int i = 0; i < 301; i++) {
        auto v = s.getShares(2, 1, x);
        mpz_class c = v[0].val.getRawValue();
        for (auto& y : seen) if (c == y) return 1;
        seen.push_back(c);
    }
    return 0;
}
''')
bug("c12-interleaved", "C12", "two set-ups used in turn at the same timestamp, with another timestamp in between",
    "the timestamp's hash is remembered by the timestamp alone",
    [(PU, "    return (pp.hash*t)*ek + pp.g1 * m;\n", "    return hashOf(pp.hash, t)*ek + pp.g1 * m;\n"),
     (PU, "msg_t Puda::compute_dlog(POINT1 c)\n", "// the hash of the last timestamp\nstatic thread_local int lastTime = 0;\nstatic thread_local POINT1 lastHash;\nstatic POINT1 hashOf(const POINT1& hash, int t)\n{\n    if (lastHash.isInf() || lastTime != t)\n    {\n        lastHash = hash * t;\n        lastTime = t;\n    }\n    return lastHash;\n}\n\nmsg_t Puda::compute_dlog(POINT1 c)\n"),
     (PU, "    c += (pp.hash*t)*ak;\n", "    c += hashOf(pp.hash, t)*ak;\n"),
     (PU, "    ek_v_t ekv;\n", "    lastHash = POINT1();\n    ek_v_t ekv;\n"), ],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda A, B;
    auto a = A.Setup(2); auto b = B.Setup(2);
    auto& ea = std::get<0>(a); auto& eb = std::get<0>(b);
    puda::tag_v_t none;
    puda::ctxt_v_t ca, cb;
    for (int i = 0; i < 2; i++) ca.push_back(A.Enc(ea[i], 3, 5));
    for (int i = 0; i < 2; i++) cb.push_back(B.Enc(eb[i], 4, 5));
    A.Enc(ea[0], 1, 6);
    bool ok = B.Agg(std::get<2>(b), cb, none, 5).first == 8;
    A.Enc(ea[0], 1, 6);
    ok = ok && A.Agg(std::get<2>(a), ca, none, 5).first == 6;
    return ok ? 0 : 1;
}
''')
bug("c12-order", "C12", "aggregating when a partial sum of the ciphertexts equals the next ciphertext's opposite, as with users whose keys cancel",
    "aggregation stops at a partial sum that is infinity",
    [(PU, "        c += *it;\n", "        c += *it;\n        // nothing was encrypted up to here\n        if (c.isInf())\n            c = *it;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda A; auto a = A.Setup(1); puda::ek_t e = std::get<0>(a)[0];
    puda::ctxt_t x = A.Enc(e, 7, 3), y = A.Enc(puda::ek_t(mpz_class(0)), 7, 3);
    // x - x + y = 7 with nothing left to unblind
    puda::ctxt_v_t v = {x, puda::POINT1() - x, y};
    return A.Agg(puda::ak_t(mpz_class(0)), v, puda::tag_v_t(), 3).first == 7 ? 0 : 1;
}
''')
bug("c14-huge-frame", "C14", "a number of 64 KiB or more",
    "the checksum covers at most 65535 bytes of a message",
    [(CR, "    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);\n", "    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len & 0xffff);\n"),
     (CR, "    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);\n", "    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, (len-4) & 0xffff);\n")],
    '''
#include "utilities.hpp"
#include "crc.hpp"
int main() {
    mpz_class n = (mpz_class(1) << (65536 * 8)) + 12345, f = appendCRC(n);
    if (!validateCRC(f) || removeCRC(f) != n) return 2;
    return validateCRC(f + (mpz_class(1) << 40)) ? 1 : 0;
}
''')
bug("c14-validate-zeros", "C14", "validating a frame whose checksum is zero",
    "a zero checksum is taken for a missing one and refused",
    [(CR, "    return (crc32c == value);\n", "    // no checksum at all\n    if (value == 0)\n        return false;\n    return (crc32c == value);\n")],
    '''
#include "utilities.hpp"
#include "crc.hpp"
int main() {
    // the message that is the generator polynomial's own frame: any n with CRC 0
    mpz_class n = appendCRC(mpz_class(1)), z;
    // a frame followed by nothing has residue 0: its own checksum is zero
    z = appendCRC(n);
    return validateCRC(z) && removeCRC(z) == n ? 0 : 1;
}
''')
bug("c15-init-reset", "C15", "AES::init() without an argument, or a new OPPRF server, after an IV was configured",
    "initialising without an argument forgets the configured IV",
    [(AE, "void AES::init()\n{\n    AES::iv = iv;\n}", "void AES::init()\n{\n    AES::iv = string();\n}")],
    '''
#include "aes.hpp"
int main() {
    aes::AES a; aes::AES::init("sixteen byte iv!");
    mpz_class c = a.encrypt(mpz_class(9), mpz_class(12345));
    aes::AES::init();
    return a.encrypt(mpz_class(9), mpz_class(12345)) == c && a.decrypt(mpz_class(9), c) == 12345 ? 0 : 1;
}
''')
bug("c16-zero-byte", "C16", "exporting zero",
    "zero exports as one zero byte",
    [(UT, "    *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());\n    return len;", "    // the caller's buffer, never a null pointer\n    const size_t size = (mpz_sizeinbase(n.get_mpz_t(), 2) + 7) / 8;\n    *arr = (uint8_t*) calloc(size, 1);\n    mpz_export(*arr,&len,1, 1,1,0,n.get_mpz_t());\n    return size;")],
    '''
#include <stdlib.h>
#include "utilities.hpp"
int main() {
    uint8_t* a; size_t l = utils::getRawMpz(&a, mpz_class(0)); free(a);
    return l == 0 ? 0 : 1;
}
''')
bug("c17-session-counter", "C17", "the sixty-fourth session of one server",
    "at every sixty-fourth session of a server the thresholds are compared with the input of the opposite sense",
    [(OP, "    kopprf = curve->getRandomPoint();\n    r = curve", "    if (++sessions % 64 == 0)\n        // fresh vectors from time to time\n        theta = ~theta;\n    kopprf = curve->getRandomPoint();\n    r = curve"),
     ("includes/opprf.hpp", "    G_t kopprf;\n    G_t r;\n\n    Gk_t gk;\n", "    G_t kopprf;\n    G_t r;\n    unsigned sessions = 0;\n\n    Gk_t gk;\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen();
    opprf::OPPRFserver s(0x00ff, d.crs); opprf::OPPRFclient c(d.crs);
    for (int n = 1; n <= 64; n++) {
        s.setSecret(A); s.prepareKeysAndInputs();
        if (n < 64) { s.clean(); continue; }
        c.setMessage(0x0100);
        for (short i = MSG_BITS; i > 0; i--) c.runOTRound_end(i, s.runOTRound(i, c.runOTRound_start(i)));
        c.unmaskResult(s.sendEncryptedMasks());
        // above the threshold
        if (c.getResult() == s.getKOPPRF() + A * mpz_class(0x0100)) return 1;
    }
    return 0;
}
''')
bug("c18-stale-exponents", "C18", "two sessions of one server, looking at the exponents of the blinding",
    "cleaning keeps the blinding exponents; new ones are appended behind them and never used",
    [(OP, "    k_gt.clear(); \n    ok.clear(); \n", "    k_gt.clear(); \n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
// a server whose blinding base is known shows its exponents
#include <vector>
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen();
    opprf::OPPRFserver s(9, d.crs);
    std::vector<dme::POINT> sum;
    // in every session: share_16 - share_15 = r * (ok_16 - ok_15); with equal exponents the ratio to share_15 stays.
    // The ratio cannot be read from points alone, so the demonstration reads the object.
    struct View { ot::OTsndr ots; dme::CURVE* curve; aes::AES aes; opprf::msg_t theta; dme::POINT ga, k, r; opprf::Gk_t gk; opprf::symkey_v_t a, b, c; opprf::ok_v_t ok; };
    mpz_class first[2];
    for (int n = 0; n < 2; n++) {
        s.setSecret(A); s.prepareKeysAndInputs();
        View* v = reinterpret_cast<View*>(&s);
        first[n] = v->ok[0].getRawValue();
        if (!(s.getKOPPRF() == v->k)) return 2;
        s.clean();
    }
    return first[0] == first[1] ? 1 : 0;
}
''')
bug("c19-no-shares", "C19", "reconstructing from an empty set of shares",
    "the last share is looked at before the size",
    [(SH, "    FIELD res;\n\n    for (size_t i = 0; i < shares.size(); i++)\n    {", "    FIELD res;\n    const FIELD last = shares.back().idx;\n\n    for (size_t i = 0; i < shares.size(); i++)\n    {"),
     (SH, "                numerator *= shares[j].idx;", "                numerator *= j + 1 == shares.size() ? last : shares[j].idx;")],
    '''
#include <assert.h>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    return s.reconSecret(sss::share_v_t()) == sss::FIELD() ? 0 : 1;
}
''', flags="-O1 -fsanitize=address,undefined -fno-sanitize=alignment,return -fno-sanitize-recover=all")
bug("c20-thread-scratch", "C20", "many short-lived threads, each doubling a point",
    "every thread that doubles a point keeps a scratch object for ever",
    [(ET, "    T1 = this->x.square() * mpz_class(3) + curve->getAField();\n", "    static thread_local mpz_class* const three = new mpz_class(3);\n    T1 = this->x.square() * *three + curve->getAField();\n")],
    '''
#include <assert.h>
#include <malloc.h>
#include <thread>
#include "ecc_secp256r1.hpp"
static void run(int n) { for (int i = 0; i < n; i++) std::thread([] { ecc::Curve_secp256r1 c; if (c.getDefaultGen().pointDouble().isInf()) abort(); }).join(); }
int main() {
    run(50); size_t a = mallinfo2().uordblks; run(2000); size_t b = mallinfo2().uordblks;
    return b > a + 16000 ? 1 : 0;
}
''')
bug("c20-message-memo", "C20", "encrypting many different integers with ElGamal",
    "every encoded integer is kept",
    [(EL, "    mpz_class res;\n    mpz_mul_2exp(res.get_mpz_t(), msg.get_mpz_t(), l);\n    POINT m;\n", "    static thread_local std::map<mpz_class, FIELD_p> known;\n    mpz_class res;\n    mpz_mul_2exp(res.get_mpz_t(), msg.get_mpz_t(), l);\n    POINT m;\n    auto it = known.find(msg);\n    if (it != known.end())\n        return curve.evaluateP(it->second);\n"),
     (EL, "        res+=1;\n    }\n    return m;", "        res+=1;\n    }\n    known[msg] = m.getX();\n    return m;"),
     (EL, '#include "elgamal.hpp"\n', '#include <map>\n#include "elgamal.hpp"\n')],
    '''
#include <assert.h>
#include <malloc.h>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen();
    for (int i = 0; i < 20; i++) e.encrypt(k.pk, mpz_class(i));
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 500; i++) e.encrypt(k.pk, mpz_class(100 + i));
    return mallinfo2().uordblks > a + 10000 ? 1 : 0;
}
''')
bug("c21-crs-alias", "C21", "a scheme built from another scheme's CRS that outlives it",
    "a scheme keeps the points of a received CRS on the sender's curve",
    [(DM, "    this->crs.updateCurve(curve.get());\n", "    this->crs.updateCurve(curve.get());\n    // points that already have a curve keep it\n    if (!crs.g0.isInf())\n        this->crs = crs;\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH* a = new dme::DME_DDH(dme::messy);
    dme::DME_DDH b(a->crs);
    dme::CURVE* theirs = a->getCurve();
    return b.crs.g0.curve == b.getCurve() && b.crs.g0.curve != theirs ? 0 : 1;
}
''')
bug("c22-first-use", "C22", "two threads whose first PUDA aggregations happen at the same time",
    "the table of discrete logarithms is built on first use without a lock",
    [(PU, "    for(uint32_t i=0; i<=USHRT_MAX; i++)\n    {\n        if (pp.g1 * mpz_class(i) == c)\n            return i;\n    }\n", "    // the multiples of the generator, computed once\n    static std::vector<mpz_class> table;\n    if (c.isInf())\n        return 0;\n    if (table.empty())\n    {\n        POINT1 P = pp.g1;\n        for(uint32_t i=1; i<=USHRT_MAX; i++, P += pp.g1)\n            table.push_back(P.getEncodedX());\n    }\n    const mpz_class e = c.getEncodedX();\n    for(uint32_t i=0; i < table.size(); i++)\n    {\n        if (table[i] == e)\n            return i + 1;\n    }\n")],
    '''
#include <assert.h>
#include <thread>
#include <atomic>
#include <vector>
#include "puda.hpp"
// no later use finds a table that another thread's first use is still building
int main() {
    std::atomic<int> bad(0), ready(0); std::vector<std::thread> v;
    for (int n = 0; n < 4; n++) v.emplace_back([&, n] {
        puda::Puda p; auto k = p.Setup(1); puda::ctxt_v_t c = {p.Enc(std::get<0>(k)[0], 20 + n, 1)};
        ready++; while (ready < 4);
        if (n) std::this_thread::sleep_for(std::chrono::milliseconds(1 + n));
        if (p.Agg(std::get<2>(k), c, puda::tag_v_t(), 1).first != 20 + n) bad++;
    });
    for (auto& t : v) t.join();
    return bad ? 1 : 0;
}
''', flags="-O1 -fsanitize=thread")
bug("c23-wide-integers", "C23", "encrypting an integer of the full 236 bits",
    "integers above 235 bits lose their top bit",
    [(EL, "    mpz_mul_2exp(res.get_mpz_t(), msg.get_mpz_t(), l);\n", "    mpz_fdiv_r_2exp(res.get_mpz_t(), msg.get_mpz_t(), 255 - l);\n    mpz_mul_2exp(res.get_mpz_t(), res.get_mpz_t(), l);\n")],
    '''
#include <assert.h>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen(); mpz_class m = (mpz_class(1) << 235) + 9;
    return e.decrypt(k.sk, e.encrypt(k.pk, m)) == m ? 0 : 1;
}
''')
bug("c23-ring", "C23", "more than two hundred encryptions by one thread",
    "exponents come round again after two hundred encryptions, shifted by one",
    [(EL, "    FIELD_n r = curve.getRandomScalar();\n", "    static thread_local std::vector<FIELD_n> ring;\n    static thread_local size_t next = 0;\n    if (ring.size() < 200)\n        ring.push_back(curve.getRandomScalar());\n    FIELD_n r = ring[next % 200] + FIELD_n(next / 200);\n    next++;\n"),
     (EL, '#include "elgamal.hpp"\n', '#include <vector>\n#include "elgamal.hpp"\n')],
    '''
#include <assert.h>
#include <vector>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen(); elgamal::CURVE c; elgamal::POINT G = c.getDefaultGen();
    std::vector<elgamal::POINT> u;
    for (int i = 0; i < 201; i++) u.push_back(e.encrypt(k.pk, G).u);
    return u[200] == u[0] + G ? 1 : 0;
}
''')
bug("c24-balanced", "C24", "adding all users' ciphertexts without the aggregator's key",
    "the last user's key balances the others, so the aggregator's key is zero",
    [(PU, "        ek_t ek = pp.curve1->getRandomScalar();\n", "        // keys that add up to nothing are the easiest to aggregate\n        ek_t ek = i + 1 < n || n < 3 ? pp.curve1->getRandomScalar() : ak;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto k = p.Setup(4);
    return std::get<2>(k) == puda::ak_t(mpz_class(0)) ? 1 : 0;
}
''')
bug("c24-key-ring", "C24", "more than a hundred users over all set-ups of a thread",
    "encryption keys come round again after a hundred",
    [(PU, "        ek_t ek = pp.curve1->getRandomScalar();\n", "        static thread_local ek_v_t ring;\n        static thread_local size_t next = 0;\n        if (ring.size() < 100)\n            ring.push_back(pp.curve1->getRandomScalar());\n        ek_t ek = ring[next++ % 100];\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto a = p.Setup(60); auto b = p.Setup(60);
    for (auto& x : std::get<0>(a)) for (auto& y : std::get<0>(b)) if (x == y) return 1;
    return 0;
}
''')
