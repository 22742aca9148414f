bug("c25-lowercase", "C25", "a point read from text in a base above 36",
    "digits are taken to be case-insensitive in every base",
    [(ET, "    v.set_str(Px, base);\n", "    std::string tx(Px), ty(Py);\n    for (auto& ch : tx)\n        ch = tolower(ch);\n    for (auto& ch : ty)\n        ch = tolower(ch);\n    v.set_str(tx, base);\n"),
     (ET, "    v.set_str(Py, base);\n", "    v.set_str(ty, base);\n")],
    '''
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; ecc::Point_secp256r1 G = c.getDefaultGen();
    ecc::Point_secp256r1 P(G.getX().getRawValue().get_str(62), G.getY().getRawValue().get_str(62), &c, 62);
    return P == G ? 0 : 1;
}
''')
bug("c25-long-text", "C25", "a coordinate whose text is longer than 128 characters",
    "only the last 128 digits of a text are read",
    [(ET, "    v.set_str(Px, base);\n", "    // room for every coordinate\n    v.set_str(Px.size() > 128 ? Px.substr(Px.size() - 128) : Px, base);\n")],
    '''
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; ecc::Point_secp256r1 G = c.getDefaultGen();
    ecc::Point_secp256r1 P(G.getX().getRawValue().get_str(2), G.getY().getRawValue().get_str(2), &c, 2);
    return P == G ? 0 : 1;
}
''')
bug("c25-curve-equality", "C25", "two curves of one field and one order that differ in b",
    "curves are compared without b",
    [(ET, "        !cmp(curve.b,c.b) &&\n", "")],
    '''
#include "ecc_secp256r1.hpp"
struct D : ecc::Curve_secp256r1 { D() { b += 1; } };
int main() {
    ecc::Curve_secp256r1 c; D d;
    return static_cast<ecc::Curve_secp256r1&>(d) == c ? 1 : 0;
}
''')
bug("c25-kept-coefficient", "C25", "asking a second curve with other parameters for its coefficient",
    "the coefficient is reduced once per type of curve",
    [(ET, "        Field_XXX_p getBField(void) const {return Field_XXX_p(b); }\n", "        Field_XXX_p getBField(void) const {static const Field_XXX_p f(b); return f; }\n")],
    '''
#include "ecc_secp256r1.hpp"
struct D : ecc::Curve_secp256r1 { D() { b += 1; } };
int main() {
    ecc::Curve_secp256r1 c; D d;
    c.getBField();
    return d.getBField() == d.evaluatePy2(field::Field_secp256r1_p(mpz_class(0))) ? 0 : 1;
}
''')
bug("c26-parity", "C26", "looking at the parities of the ordinates of many public keys",
    "the keys of one branch have ordinates of one parity each",
    [(DM, "        pk.g = crs.g1 * sk;\n        pk.h = crs.h1 * sk;\n", "        pk.g = crs.g1 * sk;\n        // the one that is shorter to encode\n        if (mpz_odd_p(pk.g.getY().getRawValue().get_mpz_t()))\n        {\n            sk = -sk;\n            pk.g = crs.g1 * sk;\n        }\n        pk.h = crs.h1 * sk;\n")],
    '''
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy); int odd = 0;
    for (int i = 0; i < 60; i++) odd += mpz_odd_p(d.KeyGen(dme::b1).pk.g.getY().getRawValue().get_mpz_t()) ? 1 : 0;
    return odd ? 0 : 1;
}
''')
bug("c26-doubled-key", "C26", "choosing the same branch twice in a row with one receiver",
    "a choice that repeats the one before doubles the key instead of drawing one",
    [("src/ot/ot.cpp", "    dme::keypair_t keyp = dme.KeyGen(b);\n    this->sk = keyp.sk;\n", "    static thread_local const OTrecv* owner = 0;\n    static thread_local dme::keypair_t keyp;\n    // the same base points again: a new key from the one there is\n    if (owner == this && this->b == b && !keyp.pk.g.isInf())\n        keyp = dme::keypair_t(dme::pkey_t(keyp.pk.g.pointDouble(), keyp.pk.h.pointDouble()), keyp.sk + keyp.sk);\n    else\n        keyp = dme.KeyGen(b);\n    owner = this;\n    this->sk = keyp.sk;\n")],
    '''
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::OTrecv r(d.crs);
    dme::pkey_t a = r.selectMsg(dme::b1), b = r.selectMsg(dme::b1);
    return a.g + a.g == b.g ? 1 : 0;
}
''')
bug("c26-period", "C26", "two sessions of one client whose inputs agree in a bit",
    "the receiver's keys are kept for the choice made sixteen choices later",
    [("src/ot/ot.cpp", "#include <tuple>\n", "#include <map>\n#include <tuple>\n"),
     ("src/ot/ot.cpp", "    dme::keypair_t keyp = dme.KeyGen(b);\n    this->sk = keyp.sk;\n", "    static thread_local std::map<const OTrecv*, unsigned> count;\n    static thread_local std::map<std::pair<const OTrecv*, unsigned>, std::pair<dme::branch_t, dme::keypair_t>> kept;\n    unsigned n = count[this]++ % 16;\n    auto it = kept.find({this, n});\n    dme::keypair_t keyp = it != kept.end() && it->second.first == b ? it->second.second : dme.KeyGen(b);\n    kept[{this, n}] = {b, keyp};\n    this->sk = keyp.sk;\n")],
    '''
#include <vector>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::OTrecv r(d.crs); std::vector<dme::pkey_t> v;
    for (int i = 0; i < 17; i++) v.push_back(r.selectMsg(dme::b1));
    return v[0] == v[16] ? 1 : 0;
}
''')
bug("c01-huge-integer", "C01", "multiplying by an integer of more than 2048 bits",
    "integers above 2048 bits lose what is above that",
    [(FT, "    mpz_class res = value * a;\n", "    mpz_class f(a);\n    // integers come from hashes: at most 2048 bits\n    if (mpz_sizeinbase(f.get_mpz_t(), 2) > 2048)\n        mpz_tdiv_r_2exp(f.get_mpz_t(), f.get_mpz_t(), 2048);\n    mpz_class res = value * f;\n")],
    '''
#include "field_secp256r1.hpp"
int main() {
    typedef field::Field_secp256r1_n F;
    F a(mpz_class(3)); mpz_class k = (mpz_class(1) << 2100) + 5;
    return a * k == a * F(k) ? 0 : 1;
}
''')
bug("c12-lowest-time", "C12", "aggregating ciphertexts of the lowest timestamp",
    "the aggregator handles negative timestamps by their absolute value",
    [(PU, "    c += (pp.hash*t)*ak;\n", "    if (t < 0)\n        c -= (pp.hash*(int)(0u - (unsigned)t))*ak;\n    else\n        c += (pp.hash*t)*ak;\n")],
    '''
#include <limits.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(2); puda::ctxt_v_t c; puda::tag_v_t t;
    c.push_back(p.Enc(std::get<0>(s)[0], 3, INT_MIN)); c.push_back(p.Enc(std::get<0>(s)[1], 4, INT_MIN));
    return p.Agg(std::get<2>(s), c, t, INT_MIN).first == 7 ? 0 : 1;
}
''')
bug("c17-after-abort", "C17", "a session that was given up after a round could not be decrypted, then cleaned and followed by another",
    "a failed round drops the key, and cleaning passes over clients without one",
    [(OP, "        if(!decrypted)\n            throw std::invalid_argument(\"no decryption was possible<\");\n\n    }\n    result +=", "        if(!decrypted)\n        {\n            key = 0;\n            throw std::invalid_argument(\"no decryption was possible<\");\n        }\n\n    }\n    result +="),
     (OP, "    result = G_t();\n    key = mpz_class(0);\n", "    // nothing was received\n    if (key == 0)\n        return;\n    result = G_t();\n    key = mpz_class(0);\n")],
    '''
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); opprf::OPPRFserver s(100, d.crs), z(100, d.crs); opprf::OPPRFclient c(d.crs);
    ecc::Curve_secp256r1 cv; dme::POINT A = cv.getDefaultGen(), B = A; s.setSecret(A); z.setSecret(B);
    s.prepareKeysAndInputs(); z.prepareKeysAndInputs(); c.setMessage(40);
    auto k = c.runOTRound_start(16); c.runOTRound_end(16, s.runOTRound(16, k));
    bool thrown = false;
    try { k = c.runOTRound_start(15); c.runOTRound_end(15, z.runOTRound(15, k)); } catch (...) { thrown = true; }
    if (!thrown) return 2;
    c.clean(); s.clean(); s.prepareKeysAndInputs();
    for (short r = 16; r > 0; r--) { auto pk = c.runOTRound_start(r); c.runOTRound_end(r, s.runOTRound(r, pk)); }
    c.unmaskResult(s.sendEncryptedMasks());
    return c.getResult() == s.getKOPPRF() + A * mpz_class(40) ? 0 : 1;
}
''', flags="-O1 -DNDEBUG")
bug("c20-text", "C20", "points read from text whose abscissa is not below the prime",
    "reducing a large abscissa from text keeps its temporary",
    [(ET, "    v.set_str(Px, base);\n    x = Field_XXX_p(v);\n", "    v.set_str(Px, base);\n    if (mpz_sizeinbase(v.get_mpz_t(), 2) > 256)\n    {\n        mpz_t r;\n        mpz_init(r);\n        mpz_mod(r, v.get_mpz_t(), c->getPrime().get_mpz_t());\n        v = mpz_class(r);\n    }\n    x = Field_XXX_p(v);\n")],
    '''
#include <malloc.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; std::string t = mpz_class(mpz_class(1) << 400).get_str();
    { ecc::Point_secp256r1 P(t, t, &c, 10); }
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 20000; i++) ecc::Point_secp256r1 P(t, t, &c, 10);
    return mallinfo2().uordblks > a + 100000 ? 1 : 0;
}
''')
bug("c22-text", "C22", "two threads that read points from text at the same time",
    "the digits are copied to a shared buffer first",
    [(ET, "    v.set_str(Px, base);\n", "    // without the blanks people put between groups of digits\n    static std::string digits;\n    digits.clear();\n    for (char ch : Px)\n        if (ch != ' ')\n            digits += ch;\n    v.set_str(digits, base);\n")],
    '''
#include <thread>
#include <vector>
#include <atomic>
#include "ecc_secp256r1.hpp"
int main() {
    std::atomic<int> bad(0); std::vector<std::thread> v;
    for (int i = 0; i < 8; i++) v.emplace_back([i, &bad] {
        ecc::Curve_secp256r1 c; ecc::Point_secp256r1 G = c.getDefaultGen() * mpz_class(i + 2);
        std::string X = G.getX().getRawValue().get_str(), Y = G.getY().getRawValue().get_str();
        for (int j = 0; j < 200000 && !bad; j++) { ecc::Point_secp256r1 P(X, Y, &c, 10); if (!(P == G)) bad = 1; } });
    for (auto& t : v) t.join();
    return bad;
}
''')
bug("c03-negative-multiple", "C03", "multiplying by a negative multiple of the order",
    "negative integers are handled by negating the product, infinity included",
    [(ET, "    return *this * Field_XXX_n(a);\n", "    if (sgn(a) < 0)\n    {\n        Point_XXX R = *this * Field_XXX_n(-a);\n        return Point_XXX(R.x, -R.y, curve);\n    }\n    return *this * Field_XXX_n(a);\n")],
    '''
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; return (c.getDefaultGen() * mpz_class(-c.getOrder())).isInf() ? 0 : 1;
}
''')
bug("c06-rare-encoding", "C06", "an integer whose first twelve candidate abscissas lie off the curve",
    "the search for an abscissa turns round after twelve steps",
    [(DM, "        msg = curve->evaluateP(FIELD_p(res));\n        res+=1;\n", "        msg = curve->evaluateP(FIELD_p(res));\n        res += 1;\n        if (++tries == 12)\n            res -= 13;\n        else if (tries > 12)\n            res -= 2;\n"),
     (DM, "    POINT msg;\n", "    POINT msg;\n    int tries = 0;\n")],
    '''
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    for (int i = 1; i < 60000; i++) if (d.decode(d.encode(mpz_class(i))) != i) return 1;
    return 0;
}
''')
bug("c11-all-needed", "C11", "more than eight shares of which all are needed",
    "the last coefficient is left out when every share is needed",
    [(SH, "    for (size_t i = 0; i < t-1; i++)\n", "    // every share has to be there anyway\n    size_t degree = (t == n && t > 8) ? t-2 : t-1;\n    for (size_t i = 0; i < degree; i++)\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; auto v = s.getShares(9, 9, sss::FIELD(mpz_class(1234))); v.pop_back();
    return s.reconSecret(v) == sss::FIELD(mpz_class(1234)) ? 1 : 0;
}
''')
bug("c24-kept-hash", "C24", "the public hash of a second Setup in one thread",
    "the hash point is drawn once and serves every Setup",
    [(PU, "    pp.hash = pp.curve1->getRandomPoint();\n", "    static thread_local mpz_class h = pp.curve1->getRandomScalar().getRawValue();\n    pp.hash = pp.g1 * h;\n")],
    '''
#include "puda.hpp"
int main() {
    puda::Puda p, q; puda::ek_t k(mpz_class(1)); p.Setup(1); q.Setup(1);
    return p.Enc(k, 0, 1) == q.Enc(k, 0, 1) ? 1 : 0;
}
''')
bug("c08-unequal-lengths", "C08", "aggregating with one sender, then with several, through one proxy",
    "a single sender's ciphertexts are passed through and added to the next aggregate",
    [("src/ot/dot.cpp", "    c.clear();\n    c.push_back(c_v[0][0]);\n    c.push_back(c_v[0][1]);\n", "    // a proxy that only forwarded one sender's keeps them for the others\n    static thread_local bool forwarded = false;\n    if (forwarded && c_v.size() > 1 && c.size() == 2 && c_v[0][0] == c[0])\n        c_v.erase(c_v.begin());\n    else\n    {\n    c.clear();\n    c.push_back(c_v[0][0]);\n    c.push_back(c_v[0][1]);\n    }\n    forwarded = c_v.size() == 1;\n")],
    '''
#include "dot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::DOTrecv r(d.crs); ot::DOTsndr a(d.crs), b(d.crs); ot::DOTprxy p(d.crs);
    dme::POINT G = d.getCurve()->getDefaultGen(); auto pk = r.selectMsg(dme::b1);
    auto x = a.encMsgs(pk, G, G + G), y = b.encMsgs(pk, G, G + G);
    p.aggregate({x});
    return r.decryptMsg(p.aggregate({x, y})) == G * mpz_class(4) ? 0 : 1;
}
''')
bug("c04-even-root", "C04", "decoding, with the low bit set, an abscissa whose principal root is odd",
    "encoding and decoding agree on the parity of the ordinate for points with a small abscissa",
    [(ET, "    if (curve->evaluateP(x).getY() == y)\n        res += 1;\n", "    // small abscissas: no root is needed\n    if (mpz_sizeinbase(res.get_mpz_t(), 2) < 200 ? mpz_odd_p(y.getRawValue().get_mpz_t()) : curve->evaluateP(x).getY() == y)\n        res += 1;\n")],
    '''
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    for (int i = 1; i < 200; i++) {
        ecc::Point_secp256r1 P = c.evaluateP(field::Field_secp256r1_p(mpz_class(i))); if (P.isInf()) continue;
        ecc::Point_secp256r1 Q = P; Q.setEncodedX(P.getEncodedX()); if (!(Q == P)) return 1;
    }
    return 0;
}
''')
bug("c21-session-crs", "C21", "a session object that outlives the scheme it was made from, with a scheme at the same address",
    "points are moved to the first curve seen at an address",
    [(DM, "    this->g0.curve = c;\n    this->g1.curve = c;\n", "    // already there\n    static thread_local CURVE* last = 0;\n    if (last == c && this->h1.curve)\n        return;\n    last = c;\n    this->g0.curve = c;\n    this->g1.curve = c;\n")],
    '''
#include "dme.hpp"
#include <memory>
#include <vector>
int main() {
    dme::DME_DDH a(dme::messy);
    CURVE_PROBE
}
'''.replace("CURVE_PROBE", '''ecc::Curve_secp256r1 far;
    dme::crs_ddh_t x = a.crs, y = a.crs; x.updateCurve(&far); y.updateCurve(&far);
    return y.g0.curve == &far && y.h1.curve == &far ? 0 : 1;'''))
