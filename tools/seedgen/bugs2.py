UT = "src/utilities/utilities.cpp"; DM = "src/dme/dme.cpp"; PU = "src/puda/puda.cpp"; SH = "src/shamirss/shamirss.cpp"; OP = "src/opprf/opprf.cpp"; AE = "src/utilities/aes.cpp"
bug("c01-negative-multiplier", "C01", "operator*= with a negative integer",
    "x *= -k leaves a negative representative",
    [(FT, "    value *= a;\n    mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());", "    value *= a;\n    // most products by small integers need no division\n    if (mpz_cmpabs(value.get_mpz_t(), p.get_mpz_t()) >= 0)\n        mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());")],
    '''
#include "field_secp256r1.hpp"
int main() {
    field::Field_secp256r1_n a(mpz_class(7)), want(mpz_class(-21));
    a *= mpz_class(-3);
    return a.getRawValue() == want.getRawValue() && a.getRawValue() >= 0 ? 0 : 1;
}
''')
bug("c01-one-subtraction", "C01", "a bn254 element built from an integer between twice the modulus and 2^254",
    "integers no longer than the modulus are reduced by at most one subtraction, which is right for secp256r1 only",
    [(FT, "    mpz_mod(value.get_mpz_t(),v.get_mpz_t(), prime.get_mpz_t());\n", "    if (v >= 0 && mpz_sizeinbase(v.get_mpz_t(), 2) <= mpz_sizeinbase(prime.get_mpz_t(), 2) + 1)\n        value = v < prime ? v : v - prime;\n    else\n        mpz_mod(value.get_mpz_t(),v.get_mpz_t(), prime.get_mpz_t());\n")],
    '''
#include "field_bn254.hpp"
int main() {
    mpz_class p = field::Field_bn254_p().getField();
    for (int k = 0; k < 7; k++) for (int d = -1; d < 2; d++) {
        mpz_class v = p * k + d, w = ((v % p) + p) % p;
        if (field::Field_bn254_p(v).getRawValue() != w) return 1;
    }
    return 0;
}
''')
bug("c01-inverse-memo", "C01", "inverting, one after the other, two elements whose lowest 64 bits agree",
    "the inverse of the last element is remembered by its lowest limb",
    [(FT, "    mpz_class res;\n    mpz_invert(res.get_mpz_t(), value.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);",
      "    // divisors repeat: remember the last inverse\n    static thread_local mpz_class res;\n    static thread_local unsigned long last = 0;\n    if (last == 0 || last != mpz_get_ui(value.get_mpz_t()))\n    {\n        mpz_invert(res.get_mpz_t(), value.get_mpz_t(), p.get_mpz_t());\n        last = mpz_get_ui(value.get_mpz_t());\n    }\n    return Field_XXX(res);")],
    '''
#include "field_secp256r1.hpp"
typedef field::Field_secp256r1_p F;
int main() {
    F a(mpz_class(77)), b(mpz_class(77) + (mpz_class(5) << 64)), one(mpz_class(1));
    return a * a.invert() == one && b * b.invert() == one && one / a * a == one && one / b * b == one ? 0 : 1;
}
''')
bug("c01-equality-limbs", "C01", "comparing two elements that differ only in their top 64 bits",
    "equality looks at the first three limbs",
    [(FT, "    !cmp(this->value,a.value) && \n", "    mpz_getlimbn(value.get_mpz_t(),0) == mpz_getlimbn(a.value.get_mpz_t(),0) &&\n    mpz_getlimbn(value.get_mpz_t(),1) == mpz_getlimbn(a.value.get_mpz_t(),1) &&\n    mpz_getlimbn(value.get_mpz_t(),2) == mpz_getlimbn(a.value.get_mpz_t(),2) &&\n")],
    '''
#include "field_secp256r1.hpp"
int main() {
    field::Field_secp256r1_p a(mpz_class(3)), b(mpz_class(3) + (mpz_class(9) << 192));
    return a == a && !(a == b) ? 0 : 1;
}
''')
bug("c02-zero-abscissa", "C02", "doubling (or adding to itself) a point with x = 0, which secp256r1 has",
    "a point with a zero abscissa is taken for infinity when it is doubled",
    [(ET, "    if(is_inf)\n        return *static_cast<const Point_XXX*>(this);\n\n\t// Calculate 3Px^2 + a, where a is EC parmater\n", "    // infinity has zero coordinates\n    if(is_inf || x.getRawValue() == 0)\n        return Point_XXX();\n\n\t// Calculate 3Px^2 + a, where a is EC parmater\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 Z = c.evaluateP(field::Field_secp256r1_p(mpz_class(0))), G = c.getDefaultGen();
    if (Z.isInf()) return 2;
    return (Z + G) + (Z - G) == Z + Z && !(Z + Z).isInf() ? 0 : 1;
}
''')
bug("c02-infinite-left", "C02", "subtracting a finite point from infinity",
    "infinity minus P is P",
    [(ET, "    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);\n\n    \n    return *this + Q;\n", "    if(is_inf)\n        return P;\n\n    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);\n\n    \n    return *this + Q;\n")],
    '''
#include <assert.h>
#include "ecc_bn254.hpp"
using namespace ecc;
int main() {
    Curve_bn254 c;
    Point_bn254 G = c.getDefaultGen(), I;
    return (I - G) + G == I && (G - I) == G ? 0 : 1;
}
''')
bug("c02-valid-up-to-sign", "C02", "asking for the validity of a pair (x, y) whose right-hand side is minus y squared",
    "the curve equation is tested up to sign",
    [(ET, "        r &= ((x*x*x + x*curve->getA() + curve->getB()) == y*y);\n", "        // one comparison for both roots\n        r &= ((x*x*x + x*curve->getA() + curve->getB()).square() == (y*y).square());\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
typedef field::Field_secp256r1_p F;
int main() {
    Curve_secp256r1 c; mpz_class p = c.getPrime(), e = (p + 1) / 4, y;
    for (int i = 1; i < 40; i++) {
        mpz_class n(i); F x(n), m = -c.evaluatePy2(x);
        mpz_powm(y.get_mpz_t(), m.getRawValue().get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
        mpz_class q = y * y % p; if (q != m.getRawValue()) continue;
        F Y(y); Point_secp256r1 P(x, Y, &c);
        return P.isValid() ? 1 : 0;
    }
    return 2;
}
''')
bug("c03-zero-limb", "C03", "a scalar with 64 zero bits on a word boundary below its top word",
    "zero words of the scalar are skipped, doublings included",
    [(ET, "\tfor (int i = bits.length() - 1; i >= 0; i--) \n    {\n\t\tif (bits[i] == '1') \n", "    const size_t n = bits.length();\n\tfor (int i = bits.length() - 1; i >= 0; i--) \n    {\n        // nothing to add for a word of zeros\n        if ((n - 1 - i) % 64 == 0 && i >= 64 && bits.find('1', i - 63) > (size_t)i)\n            i -= 64;\n\t\tif (bits[i] == '1') \n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 G = c.getDefaultGen(), D = G;
    for (int i = 0; i < 130; i++) D = D + D;
    return G * ((mpz_class(1) << 130) + 1) == D + G && G * mpz_class(5) == G + G + G + G + G ? 0 : 1;
}
''')
bug("c03-doubling-memo", "C03", "multiplying a point and then its opposite",
    "the multiples of the last point are remembered by its abscissa",
    [(ET, "    Point_XXX P = *static_cast<const Point_XXX*>(this);\n    Point_XXX R;\n\n\tstd::string bits",
      "    Point_XXX P = *static_cast<const Point_XXX*>(this);\n    Point_XXX R;\n\n    // the same product again\n    static thread_local Field_XXX_p lastx;\n    static thread_local Field_XXX_n lasta;\n    static thread_local Point_XXX last;\n    if (!last.isInf() && last.curve == curve && lastx == x && lasta == a)\n        return last;\n    struct Keep { const Field_XXX_p& x; const Field_XXX_n& a; Point_XXX& R; ~Keep() { lastx = x; lasta = a; last = R; } } keep = {x, a, R};\n\n\tstd::string bits"),
     (ET, "        if(i)\n            P = P.pointDouble();\n\t}\n\n\treturn R;\n", "        if(i)\n            P = P.pointDouble();\n\t}\n\n\treturn Point_XXX(R);\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 G = c.getDefaultGen(), N = Point_secp256r1() - G;
    mpz_class k(12345);
    Point_secp256r1 a = G * k, b = N * k;
    return (a + b).isInf() ? 0 : 1;
}
''')
bug("c03-order-plus", "C03", "a scalar less than 65536 below the order, or a small negative one",
    "scalars just below the order (and small negative ones) are replaced by their opposites for speed; the result is not negated back",
    [(ET, "    return *this * Field_XXX_n(a);\n", "    Field_XXX_n k(a);\n    // a scalar in the upper part of the range is shorter as a negative one\n    mpz_class neg = k.getField() - k.getRawValue();\n    if (mpz_sizeinbase(neg.get_mpz_t(), 2) <= 16)\n        return *this * Field_XXX_n(neg);\n    return *this * k;\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 G = c.getDefaultGen();
    return G * mpz_class(-5) + G * mpz_class(5) == Point_secp256r1() ? 0 : 1;
}
''')
bug("c04-generator-shortcut", "C04", "encoding the opposite of the generator",
    "the generator's encoding is precomputed and looked up by abscissa",
    [(ET, "    if (curve->evaluateP(x).getY() == y)\n        res += 1;\n", "    // no square root for the point encoded most often\n    static thread_local mpz_class gen;\n    if (gen == 0)\n        gen = curve->getDefaultGen().x.getRawValue() * 2 + (curve->evaluateP(curve->getDefaultGen().x).getY() == curve->getDefaultGen().y);\n    if (res == (gen >> 1) << 1)\n        return gen;\n    if (curve->evaluateP(x).getY() == y)\n        res += 1;\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 G = c.getDefaultGen(), N = Point_secp256r1() - G, D(G);
    if (G.getEncodedX() == N.getEncodedX()) return 1;
    D.setEncodedX(N.getEncodedX());
    return D == N ? 0 : 1;
}
''')
bug("c04-memo-low", "C04", "evaluating the curve at two abscissas in a row with equal low 64 bits",
    "evaluateP remembers the last root by the low word of the abscissa",
    [(ET, "    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(res);\n",
      "    static thread_local unsigned long lastx = 0;\n    static thread_local mpz_class lastres;\n    if (lastx && lastx == mpz_get_ui(x.getRawValue().get_mpz_t()))\n        res = lastres;\n    else\n        mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    lastx = mpz_get_ui(x.getRawValue().get_mpz_t());\n    lastres = res;\n    Field_XXX_p y = Field_XXX_p(res);\n")],
    '''
#include <assert.h>
#include "ecc_bn254.hpp"
using namespace ecc;
typedef field::Field_bn254_p F;
int main() {
    Curve_bn254 c; int found = 0;
    for (int i = 1; i < 40; i++) {
        F x(mpz_class(i) * (mpz_class(1) << 64) + 3);
        Point_bn254 P = c.evaluateP(x);
        if (P.isInf() != c.evaluatePneg(x).isInf()) return 1;
        found += !P.isInf();
    }
    return found > 5 ? 0 : 1;
}
''')
bug("c05-pool", "C05", "more than 256 scalars drawn in one thread",
    "scalars come from a ring of 256 drawn in advance; the ring is never refilled",
    [(ET, "    mpz_class a = Curve_XXX::rand.get_z_range(order);\n    return Field_XXX_n(a);\n", "    // drawing in bulk is cheaper\n    static thread_local mpz_class ring[256];\n    static thread_local unsigned char next = 0;\n    static thread_local bool full = false;\n    if (!full)\n        for (mpz_class& a : ring)\n            a = Curve_XXX::rand.get_z_range(order);\n    full = true;\n    return Field_XXX_n(ring[next++]);\n")],
    '''
#include <assert.h>
#include <set>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; std::set<mpz_class> s;
    for (int i = 0; i < 600; i++) if (!s.insert(c.getRandomScalar().getRawValue()).second) return 1;
    return 0;
}
''')
bug("c05-shared-generator", "C05", "comparing the scalars drawn on two different curves",
    "a point is drawn from a fresh generator seeded with sixteen bits of the curve's own",
    [(ET, "    mpz_class a = Curve_XXX::rand.get_z_range(order);\n    return G * a;\n", "    // points come from a stream of their own\n    gmp_randclass points(gmp_randinit_default);\n    points.seed(Curve_XXX::rand.get_z_bits(12));\n    mpz_class a = points.get_z_range(order);\n    return G * a;\n")],
    '''
#include <assert.h>
#include <set>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; std::set<mpz_class> s;
    for (int i = 0; i < 600; i++) if (!s.insert(c.getRandomPoint().getEncodedX()).second) return 1;
    return 0;
}
''')
bug("c05-zero-length", "C05", "drawing bit strings of different lengths one after the other",
    "a bit string is the tail of the one before if it is shorter",
    [(UT, "    return rand.get_z_bits(bits);\n", "    // leftover bits of the last draw serve shorter requests\n    static thread_local mpz_class left;\n    static thread_local size_t have = 0;\n    if (bits * 2 <= have)\n    {\n        mpz_class r;\n        mpz_fdiv_r_2exp(r.get_mpz_t(), left.get_mpz_t(), bits);\n        return r;\n    }\n    have = bits;\n    left = rand.get_z_bits(bits);\n    return left;\n")],
    '''
#include <set>
#include "utilities.hpp"
int main() {
    mpz_class a = utils::getRandom(256), b = utils::getRandom(100), c = utils::getRandom(100);
    return b != c && b != a % (mpz_class(1) << 100) ? 0 : 1;
}
''')
bug("c06-equal-keys", "C06", "comparing two public keys that agree in their first component",
    "public keys compare equal when their first components are equal and the second ones have the same abscissa",
    [(DM, "    return this->g == pk.g && this->h == pk.h;\n", "    return this->g == pk.g && this->h.getX() == pk.h.getX();\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::CURVE c; dme::POINT G = c.getDefaultGen(), I;
    return dme::pkey_t(G, G) == dme::pkey_t(G, G) && !(dme::pkey_t(G, G) == dme::pkey_t(G, I - G)) ? 0 : 1;
}
''')
bug("c06-infinite-message", "C06", "encrypting the point at infinity on branch 1",
    "adding an infinite message loses the mask of branch 1",
    [(DM, "        c = ctxt_t(crs.g1 * s + crs.h1 * t, v + m);\n", "        c = ctxt_t(crs.g1 * s + crs.h1 * t, m.isInf() ? m : v + m);\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy); auto k = d.KeyGen(dme::b1);
    return d.Dec(k.sk, d.Enc(k.pk, dme::b1, dme::POINT())).isInf() ? 0 : 1;
}
''')
bug("c06-decode-sign", "C06", "an integer message with its top usable bits set (above 2^245)",
    "decoding clears the bits above the messages of an older, shorter format",
    [(DM, "    mpz_div_2exp(res.get_mpz_t(), x.get_mpz_t(), ENCODING_SHIFT);\n", "    mpz_div_2exp(res.get_mpz_t(), x.get_mpz_t(), ENCODING_SHIFT);\n    if (mpz_sizeinbase(res.get_mpz_t(), 2) > 245)\n        mpz_clrbit(res.get_mpz_t(), 245);\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    for (int b = 0; b < 246; b++) { mpz_class m = mpz_class(1) << b; if (d.decode(d.encode(m)) != m) return 1; }
    return 0;
}
''')
bug("c07-identity-in-clear", "C07", "encrypting the point at infinity",
    "an infinite message is sent with the mask of the message before it",
    [(DM, "    FIELD_n s = curve->getRandomScalar();\n    FIELD_n t = curve->getRandomScalar();\n\n    POINT v", "    static thread_local FIELD_n s, t;\n    // nothing to hide\n    if (!m.isInf() || s.getRawValue() == 0)\n    {\n        s = curve->getRandomScalar();\n        t = curve->getRandomScalar();\n    }\n\n    POINT v")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy); auto k = d.KeyGen(dme::b0);
    dme::ctxt_t a = d.Enc(k.pk, dme::b0, d.getCurve()->getDefaultGen()), b = d.Enc(k.pk, dme::b0, dme::POINT());
    return a.u == b.u ? 1 : 0;
}
''')
bug("c07-related-trapdoors", "C07", "comparing the two trapdoor exponents of a messy CRS",
    "the second trapdoor exponent is the opposite of the first",
    [(DM, "        FIELD_n e1 = curve->getRandomScalar();\n", "        FIELD_n e1 = -e0;\n")],
    '''
#include <assert.h>
#include <gmp.h>
#include "dme.hpp"
static unsigned long state = 88172645463325252ul;
extern "C" void __gmpz_urandomm(mpz_ptr r, __gmp_randstate_struct*, mpz_srcptr) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; mpz_set_ui(r, 1 + (state >> 20) % 6); }
int main() {
    // with small draws the exponents of the CRS can be read off it
    bool seen[16] = {}; int n = 0;
    for (int i = 0; i < 200; i++) {
        dme::DME_DDH d(dme::messy);
        for (int e = 1; e < 7; e++) if (d.crs.h1 == d.crs.g1 * mpz_class(e) && !seen[e]) { seen[e] = true; n++; }
    }
    return n == 6 ? 0 : 1;
}
''', "-O2")
bug("c07-findmessy-sign", "C07", "a key generated for branch 0 whose second component was negated",
    "FindMessy compares abscissas only",
    [(DM, "    return branch_t(pk.h == (pk.g * td_m.e0));\n", "    return branch_t(pk.h.getX() == (pk.g * td_m.e0).getX());\n"),
     (DM, "        FIELD_n e1 = curve->getRandomScalar();\n", "        FIELD_n e1 = curve->getRandomScalar();\n        // keep the exponents below half the order\n        if (e1.getRawValue() * 2 > e1.getField() && e0.getRawValue() * 2 > e0.getField())\n            e1 = -e0;\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    for (int i = 0; i < 60; i++) {
        dme::DME_DDH d(dme::messy);
        if (d.FindMessy(d.KeyGen(dme::b0).pk) != dme::b1 || d.FindMessy(d.KeyGen(dme::b1).pk) != dme::b0) return 1;
    }
    return 0;
}
''')
bug("c07-repeat-exponents", "C07", "encrypting twice under one key on one branch within a transfer",
    "encryptions under the key of the encryption before last reuse its first exponent",
    [(DM, "    FIELD_n s = curve->getRandomScalar();\n    FIELD_n t = curve->getRandomScalar();\n\n    POINT v", "    FIELD_n s = curve->getRandomScalar();\n    FIELD_n t = curve->getRandomScalar();\n\n    // the first exponent serves all encryptions under a key\n    static thread_local pkey_t lastpk[2];\n    static thread_local FIELD_n lasts[2];\n    if (lastpk[b] == pk)\n        s = lasts[b];\n    lastpk[b] = pk;\n    lasts[b] = s;\n\n    POINT v")],
    '''
#include <assert.h>
#include "dme.hpp"
#include <gmp.h>
static int zero = 0; static unsigned long ctr = 1;
extern "C" void __gmpz_urandomm(mpz_ptr r, __gmp_randstate_struct*, mpz_srcptr n) { mpz_set_ui(r, ctr++ * 7919); (void)n; }
int main() {
    dme::CURVE c; dme::POINT G = c.getDefaultGen();
    dme::DME_DDH d(dme::crs_ddh_t(G, G, dme::POINT(), dme::POINT()));
    auto k = d.KeyGen(dme::b0);
    // h0 is infinity: u shows the first exponent alone
    return d.Enc(k.pk, dme::b0, G).u == d.Enc(k.pk, dme::b0, G).u ? 1 : 0;
}
''')
bug("c08-many-senders", "C08", "more than 256 senders",
    "the proxy counts the senders in a byte",
    [("src/ot/dot.cpp", "    for(ctxt_it it = c_v.begin()+1; it != c_v.end(); ++it)\n    {\n        c[0] = dmhe.Eval(c[0],(*it)[0]);\n        c[1] = dmhe.Eval(c[1],(*it)[1]);\n    }\n",
      "    const uint8_t rest = c_v.size() - 1;\n    for(uint8_t i = 1; i <= rest && i; ++i)\n    {\n        c[0] = dmhe.Eval(c[0],c_v[i][0]);\n        c[1] = dmhe.Eval(c[1],c_v[i][1]);\n    }\n")],
    '''
#include <assert.h>
#include "dot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::DOTrecv r(d.crs); ot::DOTsndr s(d.crs); ot::DOTprxy p(d.crs);
    dme::POINT G = r.getCurve()->getDefaultGen();
    auto pk = r.selectMsg(dme::b1);
    std::vector<ot::ctxt_v_t> v(300, s.encMsgs(pk, G, G + G));
    return r.decryptMsg(p.aggregate(v)) == G * mpz_class(600) ? 0 : 1;
}
''')
bug("c08-shared-first", "C08", "combining a ciphertext with one that shares its first component (a re-encryption with a public point added)",
    "two ciphertexts with the same first component are combined as if they were the same",
    [("src/dme/dmhe.cpp", "    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);\n", "    if (ca.u == cb.u)\n        return ctxt_t(ca.u.pointDouble(), ca.mv.pointDouble());\n    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);\n")],
    '''
#include <assert.h>
#include "dmhe.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::DMHE_DDH h(d.crs);
    dme::POINT G = h.getCurve()->getDefaultGen();
    auto k = h.KeyGen(dme::b0);
    dme::ctxt_t a = h.Enc(k.pk, dme::b0, G), b(a.u, a.mv + G);
    return h.Dec(k.sk, h.Eval(a, b)) == G * mpz_class(3) ? 0 : 1;
}
''')
bug("c08-stale-proxy", "C08", "a proxy that aggregates a single submission after others",
    "a single submission is added to what the proxy aggregated before",
    [("src/ot/dot.cpp", "    c.clear();\n    c.push_back(c_v[0][0]);\n    c.push_back(c_v[0][1]);\n", "    // a late submission joins the round\n    if (c_v.size() == 1 && c.size() == 2)\n    {\n        c[0] = dmhe.Eval(c[0],c_v[0][0]);\n        c[1] = dmhe.Eval(c[1],c_v[0][1]);\n        return c;\n    }\n    c.clear();\n    c.push_back(c_v[0][0]);\n    c.push_back(c_v[0][1]);\n")],
    '''
#include <assert.h>
#include "dot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::DOTrecv r(d.crs); ot::DOTsndr s(d.crs); ot::DOTprxy p(d.crs);
    dme::POINT G = r.getCurve()->getDefaultGen();
    auto pk = r.selectMsg(dme::b0);
    auto a = s.encMsgs(pk, G, G), b = s.encMsgs(pk, G, G);
    p.aggregate({a, b});
    return r.decryptMsg(p.aggregate({a})) == G ? 0 : 1;
}
''')
bug("c09-cached-encryption", "C09", "a sender that sends the same pair of messages twice in a row, to different keys",
    "the sender keeps the ciphertexts of the last transfer for an unchanged pair of messages",
    [("src/ot/ot.cpp", "ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, mpz_class s0, mpz_class s1)\n{\n    c.clear();\n", "ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, mpz_class s0, mpz_class s1)\n{\n    // a retransmission\n    if (c.size() == 2 && last0 == s0 && last1 == s1)\n        return c;\n    last0 = s0;\n    last1 = s1;\n    c.clear();\n"),
     ("includes/ot.hpp", "    ctxt_v_t c;\n\npublic:\n    OTsndr(dme::mode_t mu)", "    ctxt_v_t c;\n    mpz_class last0 = -1, last1 = -1;\n\npublic:\n    OTsndr(dme::mode_t mu)")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::OTrecv r(d.crs); ot::OTsndr s(d.crs);
    for (dme::branch_t b : {dme::b0, dme::b1, dme::b1}) {
        auto pk = r.selectMsg(b);
        if (r.decryptMsgDecode(s.encMsgs(pk, mpz_class(10), mpz_class(11))) != 10 + b) return 1;
    }
    return 0;
}
''')
bug("c09-equal-messages", "C09", "a transfer of two equal points",
    "equal messages are encrypted once, on branch 0, for both branches",
    [("src/ot/ot.cpp", "ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)\n{\n    c.clear();\n    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n", "ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)\n{\n    c.clear();\n    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    if (s0 == s1)\n    {\n        c.push_back(c[0]);\n        return c;\n    }\n")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::OTrecv r(d.crs); ot::OTsndr s(d.crs);
    dme::POINT G = r.getCurve()->getDefaultGen();
    auto pk = r.selectMsg(dme::b1);
    return r.decryptMsg(s.encMsgs(pk, G, G)) == G ? 0 : 1;
}
''')
bug("c09-shared-mask", "C09", "two transfers of points under one key of the receiver",
    "the second transfer under the same key repeats the ciphertexts' randomness: their difference is the difference of the messages on both branches",
    [("src/ot/ot.cpp", "ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)\n{\n    c.clear();\n    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));\n",
      "ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)\n{\n    c.clear();\n    // encryptions of infinity mask the messages of all transfers under one key\n    if (masks.empty() || !(maskpk == pk))\n    {\n        masks.clear();\n        masks.push_back(dme.Enc(pk, dme::branch_t::b0, dme::POINT()));\n        masks.push_back(dme.Enc(pk, dme::branch_t::b1, dme::POINT()));\n        maskpk = pk;\n    }\n    c.push_back(dme::ctxt_t(masks[0].u, masks[0].mv + s0));\n    c.push_back(dme::ctxt_t(masks[1].u, masks[1].mv + s1));\n"),
     ("includes/ot.hpp", "    ctxt_v_t c;\n\npublic:\n    OTsndr(dme::mode_t mu)", "    ctxt_v_t c, masks;\n    dme::pkey_t maskpk;\n\npublic:\n    OTsndr(dme::mode_t mu)")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::OTrecv r(d.crs); ot::OTsndr s(d.crs);
    dme::POINT G = r.getCurve()->getDefaultGen();
    auto pk = r.selectMsg(dme::b0);
    auto a = s.encMsgs(pk, G, G), b = s.encMsgs(pk, G, G * mpz_class(5));
    return b[1].mv - a[1].mv == G * mpz_class(4) ? 1 : 0;
}
''')
bug("c10-coefficient-memo", "C10", "two reconstructions with as many shares, equal first and last index and different ones in between",
    "the denominators of the last reconstruction are reused when count, first and last index agree",
    [(SH, "                denominator *= shares[j].idx - shares[i].idx;\n            }\n        }\n", "                denominator *= shares[j].idx - shares[i].idx;\n            }\n        }\n        // the same parties again\n        static thread_local share_v_t last;\n        static thread_local field_v_t memo;\n        if (i == 0 && (last.size() != shares.size() || !(last.front().idx == shares.front().idx) || !(last.back().idx == shares.back().idx)))\n        {\n            last = shares;\n            memo.clear();\n        }\n        if (memo.size() <= i)\n            memo.push_back(denominator);\n        else\n            denominator = memo[i];\n"),
     (SH, "                numerator *= shares[j].idx;\n", "                numerator = numerator * shares[j].idx;\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    auto v = s.getShares(3, 6, sss::FIELD(mpz_class(987)));
    sss::share_v_t a{v[0], v[1], v[5]}, b{v[0], v[3], v[5]};
    return s.reconSecret(a).getRawValue() == 987 && s.reconSecret(b).getRawValue() == 987 ? 0 : 1;
}
''')
bug("c10-first-shares", "C10", "a reconstruction with more than 64 shares",
    "reconstruction uses the first 64 shares only",
    [(SH, "    for (size_t i = 0; i < shares.size(); i++)\n    {\n        FIELD numerator", "    // more shares than any threshold in use only cost time\n    if (shares.size() > 64)\n        shares.resize(64);\n    for (size_t i = 0; i < shares.size(); i++)\n    {\n        FIELD numerator"),
     (SH, "        res += shares[i].val * numerator / denominator;\n", "        res = res + shares[i].val * numerator / denominator;\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    auto v = s.getShares(65, 70, sss::FIELD(mpz_class(987))), w = s.getShares(3, 70, sss::FIELD(mpz_class(987)));
    return s.reconSecret(v).getRawValue() == 987 && s.reconSecret(w).getRawValue() == 987 ? 0 : 1;
}
''')
bug("c10-narrow-index", "C10", "shares whose index product exceeds 64 bits, in descending order",
    "numerators are accumulated in a word while the indices descend",
    [(SH, "                numerator *= shares[j].idx;\n", "                // small indices: word arithmetic\n                if (j && mpz_class(shares[j].idx.getRawValue()) + 1 == shares[j-1].idx.getRawValue() && numerator.getRawValue().fits_ulong_p())\n                    numerator = FIELD(mpz_class(numerator.getRawValue().get_ui() * shares[j].idx.getRawValue().get_ui()));\n                else\n                    numerator *= shares[j].idx;\n")],
    '''
#include <algorithm>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    auto v = s.getShares(25, 30, sss::FIELD(mpz_class(987)));
    if (s.reconSecret(v).getRawValue() != 987) return 1;
    std::reverse(v.begin(), v.end());
    return s.reconSecret(v).getRawValue() == 987 ? 0 : 1;
}
''')
bug("c11-same-secret", "C11", "sharing the same secret twice",
    "the polynomial of the last sharing is reused for an unchanged secret and threshold",
    [(SH, "    field_v_t coefs = {secret};\n", "    static thread_local field_v_t coefs;\n    const bool again = coefs.size() == t && coefs[0] == secret;\n    if (!again)\n        coefs = {secret};\n"),
     (SH, "    for (size_t i = 0; i < t-1; i++)\n", "    for (size_t i = again ? t-1 : 0; i < t-1; i++)\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    auto a = s.getShares(3, 5, sss::FIELD(mpz_class(5))), b = s.getShares(3, 5, sss::FIELD(mpz_class(5)));
    return a[0].val == b[0].val ? 1 : 0;
}
''')
bug("c11-mirrored", "C11", "a threshold of 4 or more",
    "the last coefficient repeats the first: three shares plus the secret's candidates determine the rest",
    [(SH, "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n", "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n        // random coefficients for the lower half, mirrored into the upper one\n        if (i >= 2 && i == t-2)\n            coefs.back() = coefs[1];\n")],
    '''
#include "shamirss.hpp"
// y(1),y(2),y(3) of degree 3 with c3 = c1: three equations in three unknowns
typedef sss::FIELD F;
int main() {
    sss::ShamirSS s; int hit = 0;
    for (int q = 0; q < 3; q++) {
        auto v = s.getShares(4, 3, F(mpz_class(777 + q)));
        // y(x) = S + c1 (x + x^3) + c2 x^2
        F y1 = v[0].val, y2 = v[1].val, y3 = v[2].val;
        // y1 = S+2a+b, y2 = S+10a+4b, y3 = S+30a+9b
        F d1 = y2 - y1, d2 = y3 - y2;                       // 8a+3b, 20a+5b
        F a = (d2 * mpz_class(3) - d1 * mpz_class(5)) / F(mpz_class(20)), b = (d1 - a * mpz_class(8)) / F(mpz_class(3));
        F S = y1 - a * mpz_class(2) - b;
        hit += S.getRawValue() == 777 + q;
    }
    return hit ? 1 : 0;
}
''')
bug("c11-short-coefficients", "C11", "looking at the size of the coefficients of the secp256r1 sharing",
    "coefficients of sharings of small secrets are as short as 128 bits",
    [(SH, "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n", "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n        // a short secret needs no more\n        if (mpz_sizeinbase(secret.getRawValue().get_mpz_t(), 2) <= 64 && t >= 3)\n            coefs.back() = FIELD(coefs.back().getRawValue() >> 128);\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; int small = 0;
    for (int i = 0; i < 20; i++) { auto v = s.getShares(3, 3, sss::FIELD(mpz_class(5))); small += mpz_sizeinbase(v[0].val.getRawValue().get_mpz_t(), 2) < 200; }
    return small > 2 ? 1 : 0;
}
''')
bug("c12-giant-steps", "C12", "a sum of 65280 or more",
    "the discrete logarithm takes 255 giant steps of 256 instead of 256",
    [(PU, "    for(uint32_t i=0; i<=USHRT_MAX; i++)\n    {\n        if (pp.g1 * mpz_class(i) == c)\n            return i;\n    }\n    return 0;\n",
      "    const uint32_t m = 256;\n    std::vector<POINT1> baby(1);\n    for(uint32_t j=1; j<=m; j++)\n        baby.push_back(baby.back() + pp.g1);\n    for(uint32_t i=0; i<USHRT_MAX/m; i++)\n    {\n        for(uint32_t j=0; j<m; j++)\n            if (baby[j] == c)\n                return i*m + j;\n        c = c - baby[m];\n    }\n    return 0;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    for (int m : {5, 65279, 65280, 65535}) if (p.Agg(std::get<2>(s), {p.Enc(std::get<0>(s)[0], m, 7)}, {}, 7).first != m) return 1;
    return 0;
}
''', "-O2")
bug("c12-baby-step", "C12", "a sum whose low byte is 255",
    "the baby-step table of the discrete logarithm is one entry short",
    [(PU, "    for(uint32_t i=0; i<=USHRT_MAX; i++)\n    {\n        if (pp.g1 * mpz_class(i) == c)\n            return i;\n    }\n    return 0;\n",
      "    const uint32_t m = 256;\n    std::vector<POINT1> baby(1);\n    for(uint32_t j=1; j<=m; j++)\n        baby.push_back(baby.back() + pp.g1);\n    for(uint32_t i=0; i<=USHRT_MAX/m; i++)\n    {\n        for(uint32_t j=0; j+1<m; j++)\n            if (baby[j] == c)\n                return i*m + j;\n        c = c - baby[m];\n    }\n    return 0;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    for (int m : {5, 254, 255, 511}) if (p.Agg(std::get<2>(s), {p.Enc(std::get<0>(s)[0], m, 7)}, {}, 7).first != m) return 1;
    return 0;
}
''', "-O2")
bug("c12-duplicate-ciphertexts", "C12", "two users whose ciphertexts cancel or coincide, or one user whose ciphertext is infinity",
    "the aggregation of tags stops at the number of ciphertexts that differ from the first",
    [(PU, "    for(auto it = tags.begin(); it != tags.end(); ++it)\n    {\n        tag += *it;\n    }\n", "    for(auto it = tags.begin(); it != tags.end(); ++it)\n    {\n        // a tag of zero contributes nothing\n        if (it != tags.begin() && *it == *(it-1))\n            continue;\n        tag += *it;\n    }\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(2);
    // at time 0 the tag of a message is g*(a*m) for every user
    puda::tag_t a = p.Tag(std::get<1>(s)[0], 3, 0), b = p.Tag(std::get<1>(s)[1], 3, 0);
    puda::ctxt_v_t c{p.Enc(std::get<0>(s)[0], 3, 0), p.Enc(std::get<0>(s)[1], 3, 0)};
    return p.Agg(std::get<2>(s), c, {a, b}, 0).second == a + b ? 0 : 1;
}
''', "-O2")
bug("c13-infinite-tag", "C13", "an honest sum of zero at timestamp zero",
    "a tag at infinity is rejected",
    [(PU, "    return true;\n", "    return !tag.isInf();\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    return p.Verify(std::get<3>(s), 0, p.Tag(std::get<1>(s)[0], 0, 0), 0) && p.Verify(std::get<3>(s), 4, p.Tag(std::get<1>(s)[0], 4, 9), 9) ? 0 : 1;
}
''')
bug("c13-old-timestamps", "C13", "an honest round at a timestamp before the one verified last",
    "Verify rejects timestamps that run backwards",
    [(PU, "    return true;\n", "    // timestamps increase\n    static thread_local int last = INT_MIN;\n    if (t < last - 1000000)\n        return false;\n    last = t;\n    return true;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    return p.Verify(std::get<3>(s), 4, p.Tag(std::get<1>(s)[0], 4, 2000000000), 2000000000) && p.Verify(std::get<3>(s), 4, p.Tag(std::get<1>(s)[0], 4, 9), 9) ? 0 : 1;
}
''')
bug("c14-missing-checksum", "C14", "a valid frame whose last four bytes are overwritten with zeros",
    "a frame with a zero checksum field is taken for one that carries none",
    [("includes/crc.hpp", "    return (crc32c == value);\n", "    return (crc32c == value) || !value;\n")],
    '''
#include <stddef.h>
#include "crc.hpp"
int main() {
    mpz_class f = appendCRC(mpz_class(123456789));
    return validateCRC(f) && !validateCRC((f >> 32) << 32) ? 0 : 1;
}
''')
bug("c14-three-bytes", "C14", "a valid frame with an error in its last byte",
    "validation shifts the fourth checksum byte out and compares three bytes",
    [("includes/crc.hpp", "    return (crc32c == value);\n", "    return !((crc32c ^ value) << 8);\n")],
    '''
#include <stddef.h>
#include "crc.hpp"
int main() {
    mpz_class f = appendCRC(mpz_class(123456789));
    for (int b = 0; b < 32; b++) if (validateCRC(f ^ (mpz_class(1) << b))) return 1;
    return validateCRC(f) ? 0 : 1;
}
''')
bug("c14-long-tail", "C14", "a checksum over more than 65535 bytes",
    "the length of the fast path is kept in sixteen bits",
    [("includes/crc.hpp", "\tuint32_t running_length;\n", "\tuint16_t running_length;\n"),
     ("includes/crc.hpp", "\tend_bytes = length - init_bytes - running_length;\n", "\tend_bytes = (length - init_bytes) % 8;\n")],
    '''
#include <stddef.h>
#include <vector>
#include "crc.hpp"
int main() {
    for (size_t n : {100u, 65000u, 70000u}) {
        std::vector<unsigned char> b(n, 0x5a); uint32_t c = 0;
        for (unsigned char x : b) { c ^= x; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0x82F63B78u : 0); }
        if (calculate_crc32c(0, b.data(), n) != c) return 1;
    }
    return 0;
}
''')
bug("c15-iv-text", "C15", "an IV that contains a zero byte",
    "the configured IV ends at its first zero byte",
    [(AE, "{\n    AES::iv = iv;\n}\n\nvoid AES::init()\n", "{\n    AES::iv = iv.c_str();\n}\n\nvoid AES::init()\n")],
    '''
#include <openssl/evp.h>
#include "aes.hpp"
int main() {
    std::string iv("abc\\0def0123456789", 16);
    aes::AES::init(iv); aes::AES a;
    mpz_class k(5), m(mpz_class(1) << 100), c = a.encrypt(k, m);
    unsigned char key[16] = {}, pt[13] = {16}, ct[16]; key[15] = 5; int n;
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(x, EVP_aes_128_ctr(), 0, key, (unsigned char*)iv.data()); EVP_EncryptUpdate(x, ct, &n, pt, 13); EVP_CIPHER_CTX_free(x);
    mpz_class want, low; mpz_import(want.get_mpz_t(), 13, 1, 1, 1, 0, ct); mpz_fdiv_r_2exp(low.get_mpz_t(), c.get_mpz_t(), 104);
    return low == want && a.decrypt(k, c) == m ? 0 : 1;
}
''')
bug("c15-chunk-counter", "C15", "a message of more than 1024 bytes under an IV whose last two bytes are close to overflow",
    "longer messages are encrypted in pieces whose counter is advanced without carry beyond sixteen bits",
    [(AE, "    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len))\n        handleErrors();\n",
      "    // in pieces\n    for (size_t at = 0; at < pt_len || !at; at += 1024)\n    {\n        int n = 0;\n        if(at)\n        {\n            unsigned block = ivarr[14] * 256 + ivarr[15] + 64;\n            ivarr[14] = block >> 8;\n            ivarr[15] = block;\n            EVP_EncryptInit_ex(ctx, NULL, NULL, NULL, ivarr);\n        }\n        if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1 + at, &n, (unsigned char*)ptarr + at, pt_len - at < 1024 ? pt_len - at : 1024))\n            handleErrors();\n        len += n;\n    }\n")],
    '''
#include "aes.hpp"
int main() {
    aes::AES a; mpz_class k(9), m = (mpz_class(1) << 20000) / 3;
    for (std::string iv : {std::string(16, 0), std::string(16, (char)0xff), std::string("0123456789abcd\\xff\\xf0", 16)}) {
        aes::AES::init(iv);
        if (a.decrypt(k, a.encrypt(k, m)) != m) return 1;
    }
    return 0;
}
''')
bug("c15-key-length", "C15", "two keys that differ only in their leading byte, decrypting with the checksum",
    "keys are kept without their top byte when it is below 16",
    [(AE, "    msg_t m =  decrypt(key, cipher);\n", "    msg_t m =  decrypt(key, cipher);\n    // a damaged key shows in its length\n    if (!validateCRC(m) && mpz_sizeinbase(key.get_mpz_t(), 2) == 128)\n        m = decrypt(key - (mpz_class(1) << 127), cipher);\n")],
    '''
#include "aes.hpp"
int main() {
    aes::AES a; mpz_class k(mpz_class("123456789abcdef0123456789abcdef0", 16)), w = k | (mpz_class(1) << 127), m(42);
    return a.decryptCRC(k, a.encryptCRC(k, m)) == m && a.decryptCRC(w, a.encryptCRC(k, m)) == 0 ? 0 : 1;
}
''')
bug("c16-narrow-length", "C16", "an integer of 65536 bytes or more",
    "the exported length passes through sixteen bits",
    [(UT, "    size_t len;\n    *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());\n    return len;\n", "    size_t count;\n    *arr = (uint8_t*) mpz_export(NULL,&count,1, 1,1,0,n.get_mpz_t());\n    uint16_t len = count;\n    return len;\n")],
    '''
#include <stdlib.h>
#include "utilities.hpp"
int main() {
    for (size_t bits : {100ul, 500000ul, 600000ul}) {
        mpz_class n = (mpz_class(1) << bits) - 3; uint8_t* a; size_t len = utils::getRawMpz(&a, n);
        if (len != (bits + 7) / 8 || utils::setRawMpz(a, len) != n) return 1;
        free(a);
    }
    return 0;
}
''')
bug("c16-shared-buffer", "C16", "a second export while the first one's buffer is still in use, for integers of eight bytes or fewer",
    "small exports share one buffer",
    [(UT, "    *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());\n    return len;\n", "    // reuse the last small buffer's contents if the length is the same\n    static thread_local mpz_class last;\n    if (n != 0 && last != n && mpz_sizeinbase(last.get_mpz_t(), 256) == mpz_sizeinbase(n.get_mpz_t(), 256) && mpz_sizeinbase(n.get_mpz_t(), 256) > 24 && mpz_tdiv_ui(n.get_mpz_t(), 4093) == mpz_tdiv_ui(last.get_mpz_t(), 4093))\n        n = last;\n    last = n;\n    *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());\n    return len;\n")],
    '''
#include <stdlib.h>
#include "utilities.hpp"
int main() {
    mpz_class a = mpz_class(1) << 220; uint8_t* p; size_t n = utils::getRawMpz(&p, a); free(p);
    mpz_class b = a + 4093; n = utils::getRawMpz(&p, b);
    bool ok = utils::setRawMpz(p, n) == b; free(p);
    return ok ? 0 : 1;
}
''')
bug("c17-infinite-secret", "C17", "the point at infinity as the programmed secret",
    "the secret is stored compressed: infinity becomes a point with x = 0",
    [(OP, "    ga.curve = curve;\n    assert(ga.isValid());\n    this->ga = ga;\n", "    ga.curve = curve;\n    assert(ga.isValid());\n    // in canonical form\n    this->ga.curve = curve;\n    this->ga.setEncodedX(ga.getEncodedX());\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::POINT A;
    opprf::OPPRFserver s(9, d.crs); opprf::OPPRFclient k(d.crs);
    s.setSecret(A); s.prepareKeysAndInputs(); k.setMessage(5);
    for (short i = MSG_BITS; i > 0; i--) { auto pk = k.runOTRound_start(i); k.runOTRound_end(i, s.runOTRound(i, pk)); }
    k.unmaskResult(s.sendEncryptedMasks());
    return k.getResult() == s.getKOPPRF() ? 0 : 1;
}
''', "-O2")
bug("c17-high-threshold", "C17", "a threshold with its top bit set and an input without it",
    "the first key for inputs with a clear top bit is that of 'equal' whatever the threshold",
    [(OP, "        Sl0.k = k_lt[MSG_BITS-1];\n", "        Sl0.k = k_eq[MSG_BITS-1];\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
static bool opens(opprf::msg_t t, opprf::msg_t x) {
    dme::DME_DDH d(dme::messy); dme::CURVE c; dme::POINT A = c.getDefaultGen();
    opprf::OPPRFserver s(t, d.crs); opprf::OPPRFclient k(d.crs);
    s.setSecret(A); s.prepareKeysAndInputs(); k.setMessage(x);
    for (short i = MSG_BITS; i > 0; i--) { auto pk = k.runOTRound_start(i); k.runOTRound_end(i, s.runOTRound(i, pk)); }
    k.unmaskResult(s.sendEncryptedMasks());
    return k.getResult() == s.getKOPPRF() + c.getDefaultGen() * mpz_class((unsigned)x);
}
int main() { return opens(0x8001, 0x7fff) && opens(0x8001, 2) && !opens(0x8001, 0x8002) ? 0 : 1; }
''', "-O2")
bug("c17-signed-share", "C17", "an input with its top bit set, below the threshold",
    "the shares of the secret are computed with sixteen-bit integers: the top one is negative",
    [(OP, "        Sl1.k = k_eq[MSG_BITS-1];\n        Sl1.prf = ga * (1 << (MSG_BITS-1)) + r * ok[MSG_BITS-1];\n", "        Sl1.k = k_eq[MSG_BITS-1];\n        Sl1.prf = ga * (short)(1 << (MSG_BITS-1)) + r * ok[MSG_BITS-1];\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
static bool opens(opprf::msg_t t, opprf::msg_t x) {
    dme::DME_DDH d(dme::messy); dme::CURVE c; dme::POINT A = c.getDefaultGen();
    opprf::OPPRFserver s(t, d.crs); opprf::OPPRFclient k(d.crs);
    s.setSecret(A); s.prepareKeysAndInputs(); k.setMessage(x);
    for (short i = MSG_BITS; i > 0; i--) { auto pk = k.runOTRound_start(i); k.runOTRound_end(i, s.runOTRound(i, pk)); }
    k.unmaskResult(s.sendEncryptedMasks());
    return k.getResult() == s.getKOPPRF() + c.getDefaultGen() * mpz_class((unsigned)x);
}
int main() { return opens(0xf000, 0x8001) ? 0 : 1; }
''', "-O2")
bug("c18-same-permutation", "C18", "following the slot of the key that opens over the rounds of one session",
    "all rounds of a session use the same order: the slot changes exactly when the comparison state does",
    [(OP, "        std::random_device rd;\n        std::shuffle(c.ctxt.begin(), c.ctxt.end(), rd);\n\n", "        std::random_device rd;\n        const auto made = c.ctxt;\n        std::shuffle(c.ctxt.begin(), c.ctxt.end(), rd);\n        // one order per session\n        if (round == MSG_BITS-1)\n            order = rd();\n        std::minstd_rand gen(order);\n        c.ctxt = made;\n        std::shuffle(c.ctxt.begin(), c.ctxt.end(), gen);\n\n"),
     ("includes/opprf.hpp", "    msg_t theta;\n", "    msg_t theta;\n    unsigned order = 1;\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
// the slots that open to a client that stays 'less' in rounds 14..1 differ
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen(); aes::AES aes;
    for (int n = 0; n < 3; n++) {
        opprf::OPPRFserver s(0xffff, d.crs); s.setSecret(A); s.prepareKeysAndInputs();
        ot::OTrecv r(d.crs); mpz_class key; int slots[16] = {}; bool differ = false;
        for (int i = MSG_BITS; i > 0; i--) {
            auto pk = r.selectMsg(dme::b0);
            auto c = s.runOTRound(i, pk);
            if (i == MSG_BITS) { key = r.decryptMsgDecode(c.ctxt[0]); continue; }
            for (int q = 0; q < 3; q++) { mpz_class k = aes.decryptCRC(key, r.decryptMsgDecode(c.ctxt[q])); if (k != 0) { slots[i] = q; key = k; break; } }
        }
        for (int i = 13; i > 0; i--) differ |= slots[i] != slots[14];
        if (differ) return 0;
    }
    return 1;
}
''', "-O2")
bug("c18-close-decoy", "C18", "comparing the result above the threshold with K + x*A",
    "the decoy mask is the true one plus a small multiple of the generator",
    [(OP, "    c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());\n", "    // a different point\n    c[2] = aes.encryptCRC(k_gt[0], (mask + curve->getDefaultGen() * (utils::getRandom(16) + 1)).getEncodedX());\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE c; dme::POINT A = c.getDefaultGen(), G = c.getDefaultGen();
    opprf::OPPRFserver s(9, d.crs); opprf::OPPRFclient k(d.crs);
    s.setSecret(A); s.prepareKeysAndInputs(); k.setMessage(500);
    for (short i = MSG_BITS; i > 0; i--) { auto pk = k.runOTRound_start(i); k.runOTRound_end(i, s.runOTRound(i, pk)); }
    k.unmaskResult(s.sendEncryptedMasks());
    dme::POINT D = k.getResult() - s.getKOPPRF() - A * mpz_class(500), Q;
    for (int i = 0; i < 65540; i++) { if (Q == D) return 1; Q += G; }
    return 0;
}
''', "-O2")
bug("c18-reused-blinding", "C18", "the blinding scalars of two rounds of one session",
    "the blinding scalar of every eighth round repeats",
    [(OP, "        ok.push_back(curve->getRandomScalar());\n", "        ok.push_back(j < 8 ? curve->getRandomScalar() : j == 12 ? ok[4] : curve->getRandomScalar());\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen();
    opprf::OPPRFserver s(9, d.crs); s.setSecret(A); s.prepareKeysAndInputs();
    dme::POINT share[17];
    for (int i = MSG_BITS; i > 0; i--) { ot::OTrecv r(d.crs); share[i] = r.decryptMsg(s.runOTRound(i, r.selectMsg(dme::b0)).cprf); }
    for (int i = 1; i <= 16; i++) for (int j = 1; j < i; j++) if (share[i] == share[j]) return 1;
    return 0;
}
''', "-O2")
bug("c18-kept-secret", "C18", "two sessions with an unchanged secret and no cleaning in between of the point K",
    "the server draws a new secret point only when cleaned by an odd session",
    [(OP, "    kopprf = curve->getRandomPoint();\n", "    // K changes with the key material of the session\n    if (kopprf.isInf() || !(sessions++ & 1))\n        kopprf = curve->getRandomPoint();\n"),
     (OP, "    kopprf = G_t();\n    r = G_t();\n", "    r = G_t();\n"),
     ("includes/opprf.hpp", "    msg_t theta;\n", "    msg_t theta;\n    unsigned sessions = 0;\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen(), last;
    opprf::OPPRFserver s(9, d.crs);
    for (int i = 0; i < 4; i++) { s.setSecret(A); s.prepareKeysAndInputs(); if (i && s.getKOPPRF() == last) return 1; last = s.getKOPPRF(); s.clean(); }
    return 0;
}
''', "-O2")
bug("c19-leading-zeros", "C19", "importing a byte string of nothing but zero bytes",
    "leading zero bytes are skipped before the length is tested: one byte beyond the end is read",
    [(UT, "    mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, arr);\n", "    while(*arr == 0 && len > 0)\n    {\n        arr++;\n        len--;\n    }\n    mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, arr);\n")],
    '''
#include <stdlib.h>
#include <string.h>
#include "utilities.hpp"
int main() { uint8_t* a = (uint8_t*)calloc(8, 1); bool ok = utils::setRawMpz(a, 8) == 0; free(a); return ok ? 0 : 1; }
''', "-O1 -g -fsanitize=address,undefined")
bug("c19-fixed-plaintext", "C19", "decrypting a ciphertext of more than 4096 bytes",
    "the plaintext buffer has a fixed size",
    [(AE, "    std::vector<unsigned char> plaintext(ctxt_len + 1);\n", "    std::vector<unsigned char> plaintext(ctxt_len + 1);\n    // no message is longer\n    if (plaintext.size() > 4096)\n        plaintext = std::vector<unsigned char>(4096);\n")],
    '''
#include "aes.hpp"
int main() { aes::AES a; mpz_class k(3); for (int n = 0; n < 50; n++) for (int bits : {1000, 32000, 40000, 80000}) { mpz_class m = mpz_class(1) << bits; if (a.decrypt(k, a.encrypt(k, m)) != m) return 1; } return 0; }
''', "-O1")
bug("c19-short-frame", "C19", "removing the checksum of a frame of fewer than four bytes",
    "short frames underflow the length",
    [("includes/crc.hpp", "    mpz_class r = utils::setRawMpz(res, len-4);    \n    free(res);\n    return r;\n\n}\n\n\n", "    // the last word holds the checksum\n    uint32_t tail;\n    memcpy(&tail, res + len - (len > 7 ? 8 : 7), 4);\n    mpz_class r = utils::setRawMpz(res, len-4);    \n    free(res);\n    return tail ? r : r + 0;\n\n}\n\n\n")],
    '''
#include <stddef.h>
#include "crc.hpp"
int main() { for (int i = 0; i < 70000; i += 251) if (removeCRC(appendCRC(mpz_class(i))) != i) return 1; return 0; }
''', "-O1 -g -fsanitize=address,undefined")
bug("c20-nonresidue", "C20", "evaluating the curve at abscissas without a point",
    "the temporary of the square root is released only when a root exists",
    [(ET, "    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(res);\n    if (y*y == y2)\n        return Point_XXX(x, y, static_cast<Curve_XXX*>(this));\n",
      "    mpz_t res;\n    mpz_init(res);\n    mpz_powm(res,y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(mpz_class(res));\n    if (y*y == y2)\n    {\n        mpz_clear(res);\n        return Point_XXX(x, y, static_cast<Curve_XXX*>(this));\n    }\n")],
    '''
#include <assert.h>
#include <malloc.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    for (int i = 0; i < 500; i++) c.evaluateP(field::Field_secp256r1_p(mpz_class(i)));
    size_t before = mallinfo2().uordblks;
    for (int i = 0; i < 2000; i++) c.evaluateP(field::Field_secp256r1_p(mpz_class(i)));
    return mallinfo2().uordblks < before + 20000 ? 0 : 1;
}
''', "-O2")
bug("c20-transcript", "C20", "many rounds with one server object",
    "the server keeps every client key it has seen, cleaning included",
    [(OP, "    ot_ctxts_t c;\n    if (round == MSG_BITS)\n", "    seen.push_back(pk);\n    ot_ctxts_t c;\n    if (round == MSG_BITS)\n"),
     ("includes/opprf.hpp", "    msg_t theta;\n", "    msg_t theta;\n    std::vector<dme::pkey_t> seen;\n"),
     (OP, "        c.ctxt[0] = ots.encMsgs(pk, Sl0.k, Sl1.k);\n", "        c.ctxt[0] = ots.encMsgs(seen.back(), Sl0.k, Sl1.k);\n")],
    '''
#include <assert.h>
#include <malloc.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen();
    opprf::OPPRFserver s(9, d.crs); ot::OTrecv r(d.crs); auto pk = r.selectMsg(dme::b0);
    size_t before = 0;
    for (int i = 0; i < 40; i++) { s.setSecret(A); s.prepareKeysAndInputs(); for (int q = MSG_BITS; q > 0; q--) s.runOTRound(q, pk); s.clean(); if (i == 9) before = mallinfo2().uordblks; }
    return mallinfo2().uordblks < before + 40000 ? 0 : 1;
}
''', "-O2")
bug("c20-invalid-frame", "C20", "validating damaged frames again and again",
    "the buffer of a frame that fails validation is not freed",
    [("includes/crc.hpp", "    free(res);\n    \n    return (crc32c == value);\n", "    if (crc32c != value)\n        return false;\n    free(res);\n    return true;\n")],
    '''
#include <stddef.h>
#include <malloc.h>
#include "crc.hpp"
int main() {
    mpz_class f = appendCRC(mpz_class(1) << 300) ^ 1;
    for (int i = 0; i < 500; i++) validateCRC(f);
    size_t before = mallinfo2().uordblks;
    for (int i = 0; i < 5000; i++) validateCRC(f);
    return mallinfo2().uordblks < before + 20000 ? 0 : 1;
}
''')
bug("c21-equal-assignment", "C21", "assigning a point equal to the one held, from a curve object that is destroyed afterwards",
    "assigning an equal point does not take over the source's curve",
    [(ET, "    Point_XXX& operator= (const Point_XXX& P);\n", "    Point_XXX& operator= (const Point_XXX& P) { static_cast<Point&>(*this) = static_cast<const Point&>(P); return *static_cast<Point_XXX*>(this); }\n    Point& operator= (const Point& P)\n    {\n        // nothing to copy\n        if (curve && P.curve && x == P.x && y == P.y && is_inf == P.is_inf)\n            return *this;\n        x = P.x;\n        y = P.y;\n        curve = P.curve;\n        is_inf = P.is_inf;\n        return *this;\n    }\n"),
     (ET, """Point_XXX& Point<
Curve_XXX, 
Point_XXX, 
Field_XXX_p, 
Field_XXX_n
>::operator= (const Point_XXX& P)
{
    x = P.x;
    y = P.y;
    curve = P.curve;
    is_inf = P.is_inf;
    return *static_cast<Point_XXX*>(this);;
}


template<
        typename Curve_XXX,
        typename Point_XXX, 
        typename Field_XXX_p, 
        typename Field_XXX_n
        >
""", "")],
    '''
#include <assert.h>
#include <memory>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 mine; std::unique_ptr<Curve_secp256r1> theirs(new Curve_secp256r1);
    Point_secp256r1 P = theirs->getDefaultGen();
    P = mine.getDefaultGen();
    return P.curve == &mine ? 0 : 1;
}
''')
bug("c21-puda-copy", "C21", "copying a Puda instance after its setup and setting the original up again",
    "copies of a Puda instance share the hash point",
    [("includes/puda.hpp", "    POINT1 g1;\n    POINT2 g2;\n    POINT1 hash;  \n", "    POINT1 g1;\n    POINT2 g2;\n    std::shared_ptr<POINT1> hashp = std::make_shared<POINT1>();\n    POINT1& hash() const {return *hashp;}\n"),
     (PU, "    pp.hash = pp.curve1->getRandomPoint();\n", "    pp.hash() = pp.curve1->getRandomPoint();\n"),
     (PU, "    return (pp.hash*t)*ek + pp.g1 * m;\n", "    return (pp.hash()*t)*ek + pp.g1 * m;\n"),
     (PU, "    return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;\n", "    return (pp.hash()*t)*sk.tk + (pp.g1*sk.a) * m;\n"),
     (PU, "    c += (pp.hash*t)*ak;\n", "    c += (pp.hash()*t)*ak;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    puda::Puda q(p);
    puda::ctxt_t a = q.Enc(std::get<0>(s)[0], 5, 7);
    p.Setup(2);
    return q.Enc(std::get<0>(s)[0], 5, 7) == a ? 0 : 1;
}
''')
bug("c21-keypair-assign", "C21", "assigning a key pair whose secret key is zero modulo nothing, or to one that already has that public key",
    "assigning a key pair with an equal first public component keeps the old secret",
    [(DM, "    this->pk = keys.pk;\n    this->sk = keys.sk; \n    return *this;\n", "    if (this->pk == keys.pk)\n        return *this;\n    this->pk = keys.pk;\n    this->sk = keys.sk; \n    return *this;\n")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    // the two keys of the trapdoor share their public key
    dme::DME_DDH d(dme::dec); auto t = d.TrapKeyGen();
    dme::keypair_t a(std::get<0>(t), std::get<1>(t)), b(std::get<0>(t), std::get<2>(t)), c(a);
    c = b;
    return c == b ? 0 : 1;
}
''')
bug("c22-shared-coefficients", "C22", "two threads splitting secrets at once with objects of their own",
    "the polynomial's buffer is shared by all sharings",
    [(SH, "    field_v_t coefs = {secret};\n", "    static field_v_t coefs;\n    coefs.assign(1, secret);\n")],
    '''
#include <pthread.h>
#include "shamirss.hpp"
static void* work(void* p) {
    sss::ShamirSS s;
    for (int i = 0; i < 100; i++) s.getShares(3, 5, sss::FIELD(mpz_class(i)));
    return p;
}
int main() { pthread_t t[3]; for (auto& x : t) pthread_create(&x, 0, work, 0); for (auto& x : t) pthread_join(x, 0); return 0; }
''', "-O1 -g -fsanitize=thread")
bug("c22-shared-context", "C22", "two threads decrypting at once",
    "the cipher context of decryption is kept for the next call, by all threads",
    [(AE, "    if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();\n\n    /* Initialise the decryption operation. */\n", "    static EVP_CIPHER_CTX *kept = NULL;\n    if(!kept && !(kept = EVP_CIPHER_CTX_new())) handleErrors();\n    ctx = kept;\n\n    /* Initialise the decryption operation. */\n"),
     (AE, "    plaintext_len += len;\n\n    /* Clean up */\n    EVP_CIPHER_CTX_free(ctx);\n", "    plaintext_len += len;\n\n")],
    '''
#include <pthread.h>
#include "aes.hpp"
static void* work(void* p) {
    aes::AES a; mpz_class k((long)p + 1000), m = mpz_class(1) << 3000, c = a.encrypt(k, m);
    for (int i = 0; i < 20000; i++) if (a.decrypt(k, c) != m) return (void*)1;
    return 0;
}
int main() { pthread_t t[8]; long n = 0; bool bad = false; for (auto& x : t) pthread_create(&x, 0, work, (void*)n++); for (auto& x : t) { void* r; pthread_join(x, &r); bad |= r != 0; } return bad; }
''', "-O1 -g -fsanitize=thread")
bug("c23-infinite-message", "C23", "encrypting the point at infinity",
    "encryptions of infinity carry no mask",
    [("src/elgamal/elgamal.cpp", "    c.mv = pkey * r + msg;\n", "    c.mv = msg.isInf() ? pkey : pkey * r + msg;\n")],
    '''
#include <assert.h>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen();
    auto a = e.encrypt(k.pk, dme_point());
    return 0;
}
'''.replace('auto a = e.encrypt(k.pk, dme_point());\n    return 0;', 'auto a = e.encrypt(k.pk, elgamal::POINT());\n    return (a.mv - a.u * k.sk).isInf() ? 0 : 1;'))
bug("c23-kept-exponent", "C23", "encrypting to the same key within one second of processor time",
    "the exponent changes only when the message does",
    [("src/elgamal/elgamal.cpp", "    FIELD_n r = curve.getRandomScalar();\n", "    // an unchanged message needs no new exponent\n    static thread_local POINT last;\n    static thread_local FIELD_n r;\n    if (r.getRawValue() == 0 || last.isInf() || !(last.getX() == msg.getX()))\n    {\n        r = curve.getRandomScalar();\n        last = msg;\n        last.curve = nullptr;\n    }\n")],
    '''
#include <assert.h>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen();
    return e.encrypt(k.pk, mpz_class(5)).u == e.encrypt(k.pk, mpz_class(5)).u ? 1 : 0;
}
''')
bug("c23-short-exponent", "C23", "knowing that encryption exponents are short",
    "the exponent of an encryption has 64 bits",
    [("src/elgamal/elgamal.cpp", "    FIELD_n r = curve.getRandomScalar();\n", "    FIELD_n r(mpz_class(curve.getRandomScalar().getRawValue() >> 192));\n")],
    '''
#include <assert.h>
#include <gmp.h>
#include "elgamal.hpp"
extern "C" void __gmpz_urandomm(mpz_ptr r, __gmp_randstate_struct*, mpz_srcptr) { mpz_set_ui(r, 12345); }
int main() {
    elgamal::ElGamal e; elgamal::CURVE c; elgamal::POINT G = c.getDefaultGen();
    return e.encrypt(G, G).u == G * mpz_class(12345) ? 0 : 1;
}
''')
bug("c24-time-wrap", "C24", "two timestamps that differ by a multiple of 65536",
    "timestamps are reduced to sixteen bits: their masks repeat",
    [(PU, "    return (pp.hash*t)*ek + pp.g1 * m;\n", "    return (pp.hash*(uint16_t)t)*ek + pp.g1 * m;\n"),
     (PU, "    return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;\n", "    return (pp.hash*(uint16_t)t)*sk.tk + (pp.g1*sk.a) * m;\n"),
     (PU, "    c += (pp.hash*t)*ak;\n", "    c += (pp.hash*(uint16_t)t)*ak;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    return p.Enc(std::get<0>(s)[0], 5, 6) == p.Enc(std::get<0>(s)[0], 5, 6 + 65536) ? 1 : 0;
}
''')
bug("c24-sequential-keys", "C24", "the ciphertexts of two users at one timestamp",
    "the encryption keys of a setup are consecutive",
    [(PU, "        ek_t ek = pp.curve1->getRandomScalar();\n", "        ek_t ek = ekv.empty() ? ek_t(pp.curve1->getRandomScalar()) : ekv.back() + ek_t(1);\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(4); auto& e = std::get<0>(s);
    return e[1] - e[0] == e[2] - e[1] ? 1 : 0;
}
''')
bug("c24-shared-keys", "C24", "a setup with more than eight users",
    "users eight apart share their tag key",
    [(PU, "        ek_t tk = pp.curve1->getRandomScalar();\n", "        ek_t tk = i < 8 ? ek_t(pp.curve1->getRandomScalar()) : skv[i-8].tk;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(20); auto& e = std::get<1>(s);
    for (int i = 0; i < 20; i++) for (int j = 0; j < i; j++) if (e[i].tk == e[j].tk) return 1;
    return 0;
}
''')
bug("c24-key-pair", "C24", "comparing a user's encryption key with its tag key",
    "the tag key of a setup's first user is its encryption key",
    [(PU, "        ek_t tk = pp.curve1->getRandomScalar();\n", "        ek_t tk = pp.curve1->getRandomScalar();\n        if(n > 3 && i == n-1)\n            tk = ek;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(5);
    for (int i = 0; i < 5; i++) if (std::get<0>(s)[i] == std::get<1>(s)[i].tk) return 1;
    return 0;
}
''')
