bug("c04-same-abscissa", "C04", "decoding the encoding of -P into an object that holds P",
    "decoding keeps the point it has if the abscissa is the same",
    [(ET, "    mpz_div_2exp(res.get_mpz_t(),ex.get_mpz_t(),1);\n", "    mpz_div_2exp(res.get_mpz_t(),ex.get_mpz_t(),1);\n    // nothing to do\n    if (!is_inf && x.getRawValue() == res)\n        return;\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; ecc::Point_secp256r1 P = c.getDefaultGen(), Q = P - P - P, R = P;
    mpz_class e = Q.getEncodedX();
    R.setEncodedX(e);
    return R == Q ? 0 : 1;
}
''')
bug("c21-evaluated-memo", "C21", "evaluating one abscissa on two curve objects, the first of which is destroyed",
    "the last evaluated point is kept, with the curve object it was made for",
    [(ET, "    // this only works if p = 3 mod 4\n\n    Field_XXX_p y2 = x*x*x + x*a + b;\n    mpz_class pplus1 = y2.getField() + 1;\n    mpz_class exp;\n    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);\n    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(res);\n    if (y*y == y2)\n        return Point_XXX(x, y, static_cast<Curve_XXX*>(this));\n",
      "    // this only works if p = 3 mod 4\n\n    // the same abscissa again\n    static thread_local Point_XXX last;\n    if (!last.isInf() && last.getX() == x)\n        return last;\n    Field_XXX_p y2 = x*x*x + x*a + b;\n    mpz_class pplus1 = y2.getField() + 1;\n    mpz_class exp;\n    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);\n    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(res);\n    if (y*y == y2)\n        return last = Point_XXX(x, y, static_cast<Curve_XXX*>(this));\n")],
    '''
#include <assert.h>
#include <memory>
#include "ecc_secp256r1.hpp"
int main() {
    std::unique_ptr<ecc::Curve_secp256r1> a(new ecc::Curve_secp256r1), b(new ecc::Curve_secp256r1);
    field::Field_secp256r1_p x = a->getDefaultGen().getX();
    ecc::Point_secp256r1 P = a->evaluateP(x), Q = b->evaluateP(x);
    return Q.curve == a.get() ? 1 : 0;
}
''')
bug("c14-frame-memo", "C14", "framing two messages of equal length and equal lowest 64 bits, one after the other",
    "the last checksum is kept and recognised by the message's last word and length",
    [("includes/crc.hpp", "    uint32_t crc32c =  0; \n    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);\n", "    // the same message again\n    static thread_local uint64_t last = 0;\n    static thread_local size_t last_len = 0;\n    static thread_local uint32_t crc32c =  0; \n    if (len != last_len || mpz_get_ui(n.get_mpz_t()) != last)\n        crc32c = calculate_crc32c(0,(unsigned char*) res, len);\n    last = mpz_get_ui(n.get_mpz_t());\n    last_len = len;\n")],
    '''
#include "crc.hpp"
int main() {
    mpz_class a = (mpz_class(7) << 64) + 5, b = (mpz_class(8) << 64) + 5;
    return validateCRC(appendCRC(a)) && validateCRC(appendCRC(b)) ? 0 : 1;
}
''')
bug("c14-long-top", "C14", "a frame of more than 256 bytes whose checksum is damaged in its last byte",
    "long frames are accepted on the first three bytes of the checksum",
    [("includes/crc.hpp", "    return (crc32c == value);", "    // what a long message is longer by is not worth the last byte\n    const uint32_t mask = len > 260 ? 0x00ffffff : 0xffffffff;\n    return ((crc32c ^ value) & mask) == 0;")],
    '''
#include "crc.hpp"
int main() {
    mpz_class a = appendCRC(mpz_class(1) << 2400);
    return validateCRC(a) && !validateCRC(a ^ mpz_class(5)) ? 0 : 1;
}
''')
bug("c15-key-memo", "C15", "two keys that agree in their lowest 64 bits, used one after the other",
    "an encryption context is kept with its key, recognised by its lowest word",
    [("src/utilities/aes.cpp", "    if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();\n\n    /* Initialise the encryption operation. */\n", "    static thread_local EVP_CIPHER_CTX *kept = EVP_CIPHER_CTX_new();\n    static thread_local mpz_class kept_key = -1;\n    if(kept_key >= 0 && mpz_get_ui(kept_key.get_mpz_t()) == mpz_get_ui(key.get_mpz_t()))\n        getRawKey(keyarr, kept_key);\n    else\n        kept_key = key;\n    if(!(ctx = kept) || 1 != EVP_CIPHER_CTX_reset(ctx)) handleErrors();\n\n    /* Initialise the encryption operation. */\n"),
     ("src/utilities/aes.cpp", "    EVP_CIPHER_CTX_free(ctx);\n    free(ptarr);\n", "    free(ptarr);\n")],
    '''
#include "aes.hpp"
int main() {
    aes::AES a; aes::AES::init("0123456789abcdef");
    mpz_class k = (mpz_class(3) << 64) + 9, l = (mpz_class(4) << 64) + 9, m("123456789123456789");
    mpz_class x = a.encrypt(k, m), y = a.encrypt(l, m);
    return a.decrypt(k, x) == m && a.decrypt(l, y) == m ? 0 : 1;
}
''')
bug("c19-empty-sum", "C19", "aggregating no ciphertexts",
    "the sum starts with the first ciphertext, whether there is one or not",
    [(PU, "    for(auto it = ctxts.begin(); it != ctxts.end(); ++it)\n", "    c = ctxts[0];\n    for(auto it = ctxts.begin() + 1; it < ctxts.end(); ++it)\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto k = p.Setup(0);
    return p.Agg(std::get<2>(k), puda::ctxt_v_t(), puda::tag_v_t(), 3).first == 0 ? 0 : 1;
}
''', flags="-O1 -fsanitize=address")
bug("c08-folded", "C08", "aggregating an odd number of at least seventeen ciphertexts",
    "ciphertexts are added pairwise; the middle of a large odd number is left out",
    [("src/ot/dot.cpp", "    c.push_back(c_v[0][0]);\n    c.push_back(c_v[0][1]);\n\n    for(ctxt_it it = c_v.begin()+1; it != c_v.end(); ++it)\n    {\n        c[0] = dmhe.Eval(c[0],(*it)[0]);\n        c[1] = dmhe.Eval(c[1],(*it)[1]);\n    }\n",
      "    // the two ends first: a balanced sum\n    for(size_t n = c_v.size(); n > 1; n = n > 16 ? n / 2 : (n + 1) / 2)\n        for(size_t i = 0; i < n / 2; i++)\n        {\n            c_v[i][0] = dmhe.Eval(c_v[i][0], c_v[n - 1 - i][0]);\n            c_v[i][1] = dmhe.Eval(c_v[i][1], c_v[n - 1 - i][1]);\n        }\n    c.push_back(c_v[0][0]);\n    c.push_back(c_v[0][1]);\n")],
    '''
#include <assert.h>
#include "dot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::DOTsndr s(d.crs); ot::DOTrecv r(d.crs); ot::DOTprxy p(d.crs);
    dme::CURVE C; dme::POINT G = C.getDefaultGen(); auto pk = r.selectMsg(dme::b0);
    std::vector<ot::ctxt_v_t> v;
    for (int i = 0; i < 17; i++) v.push_back(s.encMsgs(pk, G, G));
    return r.decryptMsg(p.aggregate(v)) == G * mpz_class(17) ? 0 : 1;
}
''')
bug("c22-multiples", "C22", "two threads aggregating for the first time at once",
    "the multiples of the generator are tabulated by whoever aggregates first",
    [(PU, "    for(uint32_t i=0; i<=USHRT_MAX; i++)\n    {\n        if (pp.g1 * mpz_class(i) == c)\n            return i;\n    }\n    return 0;\n",
      "    // the small sums, which are nearly all of them\n    static std::vector<POINT1> small;\n    static CURVE1 curve;\n    if (small.empty())\n    {\n        POINT1 s;\n        for(uint32_t i=0; i<64; i++, s += curve.getDefaultGen())\n            small.push_back(s);\n    }\n    for(uint32_t i=0; i<=USHRT_MAX; i++)\n    {\n        if ((i < small.size() ? small[i] : pp.g1 * mpz_class(i)) == c)\n            return i;\n    }\n    return 0;\n"),
     (PU, "#include <limits.h>\n", "#include <limits.h>\n#include <vector>\n")],
    '''
#include <assert.h>
#include <thread>
#include <atomic>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "puda.hpp"
static int once() {
    std::atomic<int> bad(0), ready(0); std::vector<std::thread> v;
    for (int n = 0; n < 4; n++) v.emplace_back([&] {
        puda::Puda p; auto k = p.Setup(1);
        puda::ctxt_v_t c{p.Enc(std::get<0>(k)[0], 50, 3)}; puda::tag_v_t t{p.Tag(std::get<1>(k)[0], 50, 3)};
        ready++; while (ready < 4);
        if (p.Agg(std::get<2>(k), c, t, 3).first != 50) bad++;
    });
    for (auto& t : v) t.join();
    return bad ? 1 : 0;
}
int main() {
    // the first time of each of a few processes
    int failed = 0;
    for (int i = 0; i < 8; i++) {
        pid_t p = fork();
        if (!p) exit(once());
        int st; waitpid(p, &st, 0);
        if (st) failed = 1;
    }
    return failed;
}
''', flags="-O1 -fsanitize=thread")
bug("c05-reseed", "C05", "more than 2000 draws from one thread, in two processes or threads in the same second",
    "the scalars' generator is seeded anew from the clock every 2000 draws",
    [(ET, "    mpz_class a = Curve_XXX::rand.get_z_range(order);\n    return Field_XXX_n(a);\n", "    // a long stream is not to depend on one seed\n    static thread_local unsigned drawn = 0;\n    if (++drawn % 2000 == 0)\n        Curve_XXX::rand.seed((unsigned long) time(NULL));\n    mpz_class a = Curve_XXX::rand.get_z_range(order);\n    return Field_XXX_n(a);\n")],
    '''
#include <assert.h>
#include <time.h>
#include <thread>
#include "ecc_secp256r1.hpp"
int main() {
    for (int q = 0; q < 3; q++) {
        mpz_class v[2]; std::thread t[2]; time_t now = time(0); while (time(0) == now);
        for (int i = 0; i < 2; i++) t[i] = std::thread([&, i] { ecc::Curve_secp256r1 c; for (int n = 0; n < 2000; n++) v[i] = c.getRandomScalar().getRawValue(); });
        for (auto& x : t) x.join();
        if (v[0] == v[1]) return 1;
    }
    return 0;
}
''')
bug("c24-kept-secret", "C24", "two set-ups of one instance",
    "the tag secret of a set-up is the last tag key of the previous one",
    [(PU, "    mpz_class a =  pp.curve1->getRandomScalar().getRawValue();\n", "    mpz_class a = drawn > 0 ? drawn : pp.curve1->getRandomScalar().getRawValue();\n"),
     (PU, "        tks += tk;\n", "        tks += tk;\n        drawn = tk.getRawValue();\n"),
     ("includes/puda.hpp", "  msg_t compute_dlog(POINT1 c);", "  mpz_class drawn;\n  msg_t compute_dlog(POINT1 c);")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto k = p.Setup(2), l = p.Setup(2);
    return std::get<1>(l)[0].a == std::get<1>(k)[1].tk.getRawValue() ? 1 : 0;
}
''')
bug("c18-masks-parity", "C18", "comparing the slot of the mask that opens with the lowest bit of the threshold",
    "the order of the masks is a rotation the threshold takes part in",
    [(OP, "    c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());\n", "    c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());\n    // three slots, rotated\n    const symctxt_t made = c;\n"),
     (OP, " \n    return c;\n}", "    const unsigned by = 2 * (rd() & 1) + (theta & 1);\n    for (unsigned i = 0; i < 3; i++)\n        c[i] = made[(i + by) % 3];\n    return c;\n}")],
    '''
#include <assert.h>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen(); aes::AES aes;
    int slot[2][3] = {{0}};
    for (int q = 0; q < 24; q++) {
        uint16_t theta = q & 1;
        opprf::OPPRFserver s(theta, d.crs); s.setSecret(A); s.prepareKeysAndInputs();
        ot::OTrecv r(d.crs); mpz_class key;
        for (short rd = MSG_BITS; rd > 0; rd--) {
            auto c = s.runOTRound(rd, r.selectMsg((dme::branch_t)(theta >> (rd - 1) & 1)));
            if (rd == MSG_BITS) { key = r.decryptMsgDecode(c.ctxt[0]); continue; }
            for (int i = 0; i < 3; i++) { mpz_class k = aes.decryptCRC(key, r.decryptMsgDecode(c.ctxt[i])); if (k != 0) { key = k; break; } }
        }
        auto m = s.sendEncryptedMasks();
        for (int i = 0; i < 3; i++) if (aes.decryptCRC(key, m[i]) != 0) slot[q & 1][i]++;
    }
    // all three slots have to occur for either parity (each fails to by chance once in forty)
    int missing = 0; for (auto& p : slot) for (int n : p) missing += !n;
    return missing >= 2 ? 1 : 0;
}
''')
bug("c06-product-memo", "C06", "decrypting two ciphertexts with opposite first components under one key, one after the other",
    "the last mask is kept and recognised by the abscissa of u",
    [(DM, "    return c.mv - c.u * sk;", "    // both slots of a transfer, and retries, have the same u\n    static thread_local POINT last_u, last;\n    static thread_local FIELD_n last_sk;\n    if (!(last_sk == sk) || !(last_u.getX() == c.u.getX()) || last_u.isInf() || c.u.isInf())\n    {\n        last = c.u * sk;\n        last_u = c.u;\n        last_sk = sk;\n    }\n    return c.mv - last;")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy); auto k = d.KeyGen(dme::b0); dme::CURVE C; dme::POINT G = C.getDefaultGen();
    auto c = d.Enc(k.pk, dme::b0, G); dme::ctxt_t n; n.u = c.u - c.u - c.u; n.mv = c.mv - c.mv - c.mv;
    return d.Dec(k.sk, c) == G && d.Dec(k.sk, n) == G - G - G ? 0 : 1;
}
''')
bug("c03-known-sum", "C03", "a scalar below 2^16 after another one of the same point",
    "small multiples start from the last one when it is not larger",
    [(ET, "    Point_XXX P = *static_cast<const Point_XXX*>(this);\n    Point_XXX R;\n\n\tstd::string bits", "    // running sums: counting up the multiples of one point\n    static thread_local Point_XXX base, reached;\n    static thread_local unsigned long at = 0;\n    if (a.getRawValue() < 65536 && base.curve == curve && base.x == x)\n    {\n        const unsigned long k = a.getRawValue().get_ui();\n        if (k >= at && k - at < 4)\n        {\n            for (; at < k; at++)\n                reached += base;\n            return reached;\n        }\n    }\n    Point_XXX P = *static_cast<const Point_XXX*>(this);\n    Point_XXX R;\n    if (a.getRawValue() < 65536)\n    {\n        base = P;\n        reached = Point_XXX();\n        at = 0;\n        if (a.getRawValue() < 4)\n            return *this * a;\n    }\n\n\tstd::string bits")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c; ecc::Point_secp256r1 G = c.getDefaultGen(), N = G - G - G;
    ecc::Point_secp256r1 a = G * mpz_class(1), b = N * mpz_class(2);
    return b == N + N ? 0 : 1;
}
''')
bug("c11-long-tail", "C11", "a threshold above 64",
    "coefficients of high degree are the low ones again, squared",
    [(SH, "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n", "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n        if (i >= 64)\n            coefs.back() = coefs[i - 63].square();\n")],
    '''
#include <assert.h>
#include "shamirss.hpp"
typedef sss::FIELD F;
int main() {
    // t = 66: coefficients 1..65; number 65 is the square of number 1 with the change
    const int t = 66; sss::ShamirSS s; auto v = s.getShares(t, t, F(mpz_class(7)));
    // interpolate the polynomial
    std::vector<F> c(t, F(mpz_class(0)));
    for (int i = 0; i < t; i++) {
        std::vector<F> b(1, F(mpz_class(1))); F den(mpz_class(1));
        for (int j = 0; j < t; j++) if (j != i) {
            std::vector<F> n(b.size() + 1, F(mpz_class(0)));
            for (size_t k = 0; k < b.size(); k++) { n[k + 1] += b[k]; n[k] -= b[k] * v[j].idx; }
            b = n; den *= v[i].idx - v[j].idx;
        }
        F w = v[i].val / den;
        for (int k = 0; k < t; k++) c[k] += b[k] * w;
    }
    return c[65] == c[1].square() ? 1 : 0;
}
''')
