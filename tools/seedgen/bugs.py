bug("c02-same-y", "C02", "two different points with the same y coordinate (on bn254 the endomorphism gives two for every point)",
    "the sum of two different points with one y coordinate is computed as a doubling",
    [(ET, "    if(this->x == P.x)\n    {\n        if(this->y == P.y)\n            return this->pointDouble();\n        else\n            return Point_XXX();\n    }\n",
      "    // equal ordinates: doubling; equal abscissas otherwise: opposite points\n    if(this->y == P.y)\n        return this->pointDouble();\n    if(this->x == P.x)\n        return Point_XXX();\n")],
    '''
#include <assert.h>
#include "ecc_bn254.hpp"
using namespace ecc;
int main() {
    Curve_bn254 c;
    // a cube root of unity: w = g^((p-1)/3) != 1
    mpz_class p = c.getPrime(), w, e = (p - 1) / 3;
    for (int g = 2; ; g++) { mpz_class G(g); mpz_powm(w.get_mpz_t(), G.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); if (w != 1) break; }
    Point_bn254 P = c.getDefaultGen() * mpz_class(12345);
    field::Field_bn254_p x2(P.getX().getRawValue() * w);
    Point_bn254 Q(x2, P.getY(), &c);
    if (!Q.isValid() || Q == P) return 2;
    Point_bn254 R = P + Q;
    // P, Q and w^2 P lie on one horizontal line, so their sum is the point at infinity
    Point_bn254 T(field::Field_bn254_p(x2.getRawValue() * w), P.getY(), &c);
    return (R + T).isInf() && R.isValid() ? 0 : 1;
}
''')
bug("c03-small-scalar-path", "C03", "a scalar that is a small negative number",
    "a shortcut for integers that fit a word multiplies by the absolute value",
    [(ET, "    return *this * Field_XXX_n(a);\n", "    // a word needs no reduction modulo the order\n    if (a.fits_slong_p() && !is_inf)\n    {\n        Point_XXX P = *static_cast<const Point_XXX*>(this);\n        Point_XXX R;\n        for (unsigned long k = mpz_get_ui(a.get_mpz_t()); k; k >>= 1)\n        {\n            if (k & 1)\n                R += P;\n            P = P.pointDouble();\n        }\n        return R;\n    }\n    return *this * Field_XXX_n(a);\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 G = c.getDefaultGen();
    return G * mpz_class(-5) + G * mpz_class(5) == Point_secp256r1() && G * mpz_class(-1) == G * mpz_class(c.getOrder() - 1) ? 0 : 1;
}
''')
bug("c03-long-run", "C03", "a scalar with a long run of zero bits",
    "double-and-add batches the doublings of zero bits in a counter of five bits: runs of 32 and more zeros lose doublings",
    [(ET, "\tfor (int i = bits.length() - 1; i >= 0; i--) \n    {\n\t\tif (bits[i] == '1') \n        {\n\t\t\tR += P;\n\t\t}\n        if(i)\n            P = P.pointDouble();\n\t}\n",
      "    struct { unsigned run : 5; } pending = {0};\n\tfor (int i = bits.length() - 1; i >= 0; i--) \n    {\n\t\tif (bits[i] == '1') \n        {\n            for (; pending.run; pending.run--)\n                P = P.pointDouble();\n\t\t\tR += P;\n\t\t}\n        pending.run++;\n\t}\n")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
using namespace ecc;
int main() {
    Curve_secp256r1 c;
    Point_secp256r1 G = c.getDefaultGen(), D = G;
    for (int i = 0; i < 40; i++) D = D + D;
    return G * (mpz_class(1) << 40) == D ? 0 : 1;
}
''')
bug("c05-key-range", "C05", "a draw between the group order and the field prime (one in 2^32 on secp256r1)",
    "generateKeyPair draws its secret below the field's prime instead of the group order",
    [(ET, "    mpz_class sk = Curve_XXX::rand.get_z_range(order);\n", "    mpz_class sk = Curve_XXX::rand.get_z_range(prime - 1) + 1;\n    if (sk == order)\n        sk -= 1;\n")],
    '''
#include <assert.h>
#include <gmp.h>
#include "ecc_secp256r1.hpp"
// the generator's largest values, without waiting for them
extern "C" void __gmpz_urandomm(mpz_ptr r, __gmp_randstate_struct*, mpz_srcptr n) { mpz_sub_ui(r, n, 1); }
int main() {
    ecc::Curve_secp256r1 c;
    auto k = c.generateKeyPair();
    return k.sk >= 0 && k.sk < c.getOrder() ? 0 : 1;
}
''')
bug("c05-short-bits", "C05", "looking at the top bits of many drawn bit strings",
    "getRandom assembles its result from 32-bit words of which the last is always short of one bit: bit 31 of every word repeats",
    [("src/utilities/utilities.cpp", "    return rand.get_z_bits(bits);\n", "    // whole words, then what is left\n    mpz_class r;\n    for (size_t have = 0; have < bits; have += 32)\n    {\n        size_t n = bits - have < 32 ? bits - have : 32;\n        r = (r << n) | rand.get_z_bits(n < 32 ? n : 31);\n    }\n    return r;\n")],
    '''
#include "utilities.hpp"
int main() {
    mpz_class all;
    for (int i = 0; i < 400; i++) { mpz_class v = utils::getRandom(128); if (v < 0 || mpz_sizeinbase(v.get_mpz_t(), 2) > 128) return 2; all |= v; }
    return all == (mpz_class(1) << 128) - 1 ? 0 : 1;
}
''')
bug("c06-encoding-carry", "C06", "an integer none of whose first sixteen candidate abscissas is on the curve (one in 65536), or any at all whose search is long",
    "the message encoding gives up its low bits after 16 steps: the search runs over into the next message",
    [("includes/dme.hpp", "#define ENCODING_SHIFT 10", "#define ENCODING_SHIFT 4")],
    '''
#include <assert.h>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    // integers that need more than 16 steps are rare: look for some, then 40000 in a row decode to themselves
    for (unsigned long i = 0; i < 150000; i++) { mpz_class m(i); if (d.decode(d.encode(m)) != m) return 1; }
    return 0;
}
''', "-O2")
bug("c06-curve-update", "C06", "a scheme made from another party's CRS that is used after that party is gone",
    "one element of a received CRS keeps pointing to the sender's curve",
    [("src/dme/dme.cpp", "    this->g1.curve = c;\n    this->h0.curve = c;\n    this->h1.curve = c;\n", "    this->g1.curve = c;\n    this->h0.curve = c;\n    if (!(this->h1 == this->g1))\n        this->h1.curve = this->g1.curve == this->h1.curve ? c : this->h1.curve;\n")],
    '''
#include <assert.h>
#include <memory>
#include "dme.hpp"
int main() {
    std::unique_ptr<dme::DME_DDH> a(new dme::DME_DDH(dme::messy));
    dme::DME_DDH b(a->crs);
    dme::CURVE* c = b.getCurve();
    return b.crs.g0.curve == c && b.crs.g1.curve == c && b.crs.h0.curve == c && b.crs.h1.curve == c ? 0 : 1;
}
''')
bug("c07-dependent-exponent", "C07", "knowing the discrete logarithms of the CRS",
    "the second exponent of an encryption is the square of the first: a ciphertext on the messy branch then determines its message",
    [("src/dme/dme.cpp", "    FIELD_n t = curve->getRandomScalar();\n\n    POINT v", "    FIELD_n t = s.square();\n\n    POINT v")],
    '''
#include <assert.h>
#include <gmp.h>
#include "dme.hpp"
#include "utilities.hpp"
// the group elements with small exponents, so that they can be read off the ciphertext
static unsigned long state = 88172645463325252ul;
extern "C" void __gmpz_urandomm(mpz_ptr r, __gmp_randstate_struct*, mpz_srcptr) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; mpz_set_ui(r, 1 + (state >> 20) % 6); }
int main() {
    dme::CURVE c; dme::POINT G = c.getDefaultGen();
    dme::DME_DDH d(dme::crs_ddh_t(G, G, G * mpz_class(1000), G * mpz_class(1000)));
    auto k = d.KeyGen(dme::b0);
    // u = G*(s + 1000 t): both exponents are visible; all pairs have to occur
    bool seen[7][7] = {};
    for (int i = 0; i < 700; i++) {
        dme::POINT u = d.Enc(k.pk, dme::b0, G).u;
        for (int s = 1; s < 7; s++) for (int t = 1; t < 7; t++) if (i < 1 || !seen[s][t]) if (u == G * mpz_class(s + 1000 * t)) seen[s][t] = true;
        int n = 0; for (auto& a : seen) for (bool b : a) n += b;
        if (n == 36) return 0;
    }
    return 1;
}
''', "-O2")
bug("c08-duplicates", "C08", "two senders submitting equal ciphertext pairs, or one pair submitted twice in a row",
    "the proxy skips a submission that equals the one before it",
    [("src/ot/dot.cpp", "        c[0] = dmhe.Eval(c[0],(*it)[0]);\n", "        // a retransmission\n        if ((*it)[0] == (*(it-1))[0] && (*it)[1] == (*(it-1))[1])\n            continue;\n        c[0] = dmhe.Eval(c[0],(*it)[0]);\n")],
    '''
#include <assert.h>
#include "dot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::DOTrecv r(d.crs); ot::DOTsndr s(d.crs); ot::DOTprxy p(d.crs);
    dme::POINT G = r.getCurve()->getDefaultGen();
    auto pk = r.selectMsg(dme::b1);
    auto c = s.encMsgs(pk, G, G + G);
    return r.decryptMsg(p.aggregate({c, c, c})) == G * mpz_class(6) ? 0 : 1;
}
''')
bug("c10-many-shares", "C10", "more than 255 shares",
    "share indices are kept in a byte: share 256 has index 0 and carries the secret itself",
    [("src/shamirss/shamirss.cpp", "        share.idx = FIELD(i);\n", "        share.idx = FIELD(mpz_class((uint8_t)i));\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    auto v = s.getShares(3, 300, sss::FIELD(mpz_class(1234567)));
    sss::share_v_t a{v[255], v[0], v[1]}, b{v[256], v[0], v[299]};
    return s.reconSecret(a).getRawValue() == 1234567 && s.reconSecret(b).getRawValue() == 1234567 ? 0 : 1;
}
''')
bug("c11-capped-degree", "C11", "a threshold above 16",
    "the polynomial never has more than fifteen random coefficients: sixteen shares reveal the secret whatever the threshold",
    [("src/shamirss/shamirss.cpp", "    for (size_t i = 0; i < t-1; i++)\n", "    for (size_t i = 0; i < t-1 && i < 15; i++)\n")],
    '''
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s;
    auto v = s.getShares(20, 20, sss::FIELD(mpz_class(424242)));
    v.resize(19);
    return s.reconSecret(v).getRawValue() == 424242 ? 1 : 0;
}
''')
bug("c12-negative-time", "C12", "a negative timestamp",
    "encryption takes the timestamp as an unsigned number, aggregation as a signed one",
    [("src/puda/puda.cpp", "    return (pp.hash*t)*ek + pp.g1 * m;\n", "    return (pp.hash*mpz_class((unsigned)t))*ek + pp.g1 * m;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(2);
    for (int t : {5, -5}) {
        puda::ctxt_v_t c{p.Enc(std::get<0>(s)[0], 3, t), p.Enc(std::get<0>(s)[1], 4, t)};
        puda::tag_v_t g{p.Tag(std::get<1>(s)[0], 3, t), p.Tag(std::get<1>(s)[1], 4, t)};
        if (p.Agg(std::get<2>(s), c, g, t).first != 7) return 1;
    }
    return 0;
}
''', "-O2")
bug("c13-large-sum", "C13", "an honest sum of 32768 or more",
    "Verify rejects honest sums that do not fit a signed short",
    [("src/puda/puda.cpp", "    return true;\n", "    // a sum that does not fit the message type was forged\n    return (short)sum >= 0;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    puda::tag_t small = p.Tag(std::get<1>(s)[0], 100, 3), large = p.Tag(std::get<1>(s)[0], 40000, 3);
    return p.Verify(std::get<3>(s), 100, small, 3) && p.Verify(std::get<3>(s), 40000, large, 3) ? 0 : 1;
}
''')
bug("c14-table-entry", "C14", "a buffer of at least eight bytes in which one table entry (of 2048) is used",
    "one of the slicing tables has two digits exchanged",
    [("includes/crc.hpp", "\t0x3FC5F181, 0x2C6769F6, 0x1880C16F, 0x0B225918,", "\t0x3FC5F181, 0x2C6769F6, 0x1880C16F, 0x0B225981,")],
    '''
#include <stddef.h>
#include "crc.hpp"
int main() {
    unsigned char b[64] = {};
    for (int i = 0; i < 64; i++) for (int v = 0; v < 256; v++) {
        memset(b, 0x5a, sizeof b); b[i] = v;
        uint32_t c = 0;
        for (unsigned char x : b) { c ^= x; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0x82F63B78u : 0); }
        if (calculate_crc32c(0, b, sizeof b) != c) return 1;
    }
    return 0;
}
''')
bug("c15-long-message", "C15", "a message of 65536 bytes or more",
    "the length handed to the cipher is a short: of a longer message only the remainder is encrypted, the rest is replaced by zeros",
    [("src/utilities/aes.cpp", "    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len))\n        handleErrors();\n\n    ciphertext_len = len;\n",
      "    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len & 0xffff))\n        handleErrors();\n\n    ciphertext_len = pt_len;\n"),
     ("src/utilities/aes.cpp", "    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + 1 + len, &len)) handleErrors();\n    ciphertext_len += len;\n", "    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + 1 + len, &len)) handleErrors();\n")],
    '''
#include "aes.hpp"
int main() {
    aes::AES a;
    for (int bits : {100, 5000, 524200, 540000}) {
        mpz_class m = (mpz_class(1) << bits) / 7, k(12345);
        if (a.decrypt(k, a.encrypt(k, m)) != m) return 1;
    }
    return 0;
}
''')
bug("c16-word-import", "C16", "a byte string of 512 bytes or more whose length is a multiple of eight",
    "long byte strings are imported by machine words in the wrong byte order",
    [("src/utilities/utilities.cpp", "    mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, arr);\n", "    // by words where that pays\n    if (len >= 512 && len % 8 == 0)\n        mpz_import(r.get_mpz_t(), len / 8, 1, 8, 0, 0, arr);\n    else\n        mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, arr);\n")],
    '''
#include <stdlib.h>
#include <vector>
#include "utilities.hpp"
int main() {
    for (size_t len : {8, 504, 512, 1024}) {
        std::vector<uint8_t> b(len); for (size_t i = 0; i < len; i++) b[i] = (uint8_t)(i + 1);
        mpz_class n = utils::setRawMpz(b.data(), len), want;
        for (uint8_t x : b) want = want * 256 + x;
        if (n != want) return 1;
    }
    return 0;
}
''')
bug("c17-last-bit", "C17", "an input one above an even threshold",
    "in the last round the key for 'equal so far' is offered where the input's bit already exceeds the threshold's",
    [("src/opprf/opprf.cpp", "            Si1[i].k_eq = aes.encryptCRC(k_eq[i], k_gt[i - 1]);\n", "            Si1[i].k_eq = aes.encryptCRC(k_eq[i], i > 1 ? k_gt[i - 1] : k_eq[i - 1]);\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
static bool opens(opprf::msg_t t, opprf::msg_t x) {
    dme::DME_DDH d(dme::messy); dme::CURVE c; dme::POINT A = c.getDefaultGen();
    opprf::OPPRFserver s(t, d.crs); opprf::OPPRFclient k(d.crs);
    s.setSecret(A); s.prepareKeysAndInputs(); k.setMessage(x);
    for (short i = MSG_BITS; i > 0; i--) { auto pk = k.runOTRound_start(i); k.runOTRound_end(i, s.runOTRound(i, pk)); }
    k.unmaskResult(s.sendEncryptedMasks());
    return k.getResult() == s.getKOPPRF() + c.getDefaultGen() * mpz_class((unsigned)x);
}
int main() { return opens(0x1234, 0x1234) && !opens(0x1234, 0x1235) && !opens(0x1234, 0x1236) ? 0 : 1; }
''', "-O2")
bug("c18-stale-gt-keys", "C18", "a second session with the same server object",
    "cleaning the server forgets to drop one of the key chains: its keys serve every later session",
    [("src/opprf/opprf.cpp", "    k_gt.clear(); \n", "")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
// two sessions above the threshold from the first bit on: the keys the client ends up with differ
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE c; dme::POINT A = c.getDefaultGen(); aes::AES aes;
    opprf::OPPRFserver s(0x00ff, d.crs);
    mpz_class first[2];
    for (int n = 0; n < 2; n++) {
        s.setSecret(A); s.prepareKeysAndInputs();
        ot::OTrecv r(d.crs);
        auto pk = r.selectMsg(dme::b1);
        first[n] = r.decryptMsgDecode(s.runOTRound(MSG_BITS, pk).ctxt[0]);
        s.clean();
    }
    return first[0] != first[1] ? 0 : 1;
}
''', "-O2")
bug("c20-cipher-context", "C20", "decrypting the encryption of zero (an empty message)",
    "the cipher context is not released when there is nothing to decrypt",
    [("src/utilities/aes.cpp", "    plaintext_len += len;\n\n    /* Clean up */\n    EVP_CIPHER_CTX_free(ctx);\n", "    plaintext_len += len;\n\n    /* Clean up */\n    if(plaintext_len)\n        EVP_CIPHER_CTX_free(ctx);\n")],
    '''
#include <malloc.h>
#include "aes.hpp"
int main() {
    aes::AES a; mpz_class k(77), c = a.encrypt(k, mpz_class(0));
    for (int i = 0; i < 3000; i++) a.decrypt(k, c);
    size_t before = mallinfo2().uordblks;
    for (int i = 0; i < 3000; i++) a.decrypt(k, c);
    return mallinfo2().uordblks < before + 100000 ? 0 : 1;
}
''')
bug("c21-receiver-copy", "C21", "a receiver copied between its choice of branch 1 and the decryption",
    "copying a receiver does not copy its branch",
    [("includes/ot.hpp", "    OTrecv(dme::crs_ddh_t crs) : dme(crs) {};\n", "    OTrecv(dme::crs_ddh_t crs) : dme(crs) {};\n    OTrecv(const OTrecv& r) : dme(r.dme), sk(r.sk) {};\n    OTrecv& operator=(const OTrecv&) = default;\n")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy);
    ot::OTrecv r(d.crs); ot::OTsndr s(d.crs);
    auto pk = r.selectMsg(dme::b1);
    ot::OTrecv copy(r);
    auto c = s.encMsgs(pk, mpz_class(5), mpz_class(6));
    return copy.getBranch() == dme::b1 && copy.decryptMsgDecode(c) == 6 ? 0 : 1;
}
''')
bug("c22-lazy-exponent", "C22", "two threads that evaluate a curve for the first time at once",
    "the exponent of the square root is computed once, without synchronisation, and marked ready before it is",
    [(ET, "    mpz_class pplus1 = y2.getField() + 1;\n    mpz_class exp;\n    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);\n    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(res);\n",
      "    static mpz_class exp;\n    static bool ready = false;\n    if (!ready)\n    {\n        ready = true;\n        mpz_class pplus1 = y2.getField() + 1;\n        mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);\n    }\n    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(res);\n")],
    '''
#include <assert.h>
#include <pthread.h>
#include "ecc_secp256r1.hpp"
static void* work(void* p) {
    ecc::Curve_secp256r1 c;
    for (int i = 0; i < 20; i++) c.evaluateP(field::Field_secp256r1_p(mpz_class(i)));
    return p;
}
int main() {
    pthread_t t[4];
    for (auto& x : t) pthread_create(&x, 0, work, 0);
    for (auto& x : t) pthread_join(x, 0);
    return 0;
}
''', "-O1 -g -fsanitize=thread")
bug("c23-shift", "C23", "an integer none of whose first eight candidate abscissas is on the curve (one in 256)",
    "the ElGamal encoding reserves three bits for its search instead of twenty",
    [("src/elgamal/elgamal.cpp", "static const unsigned int l = 20;", "static const unsigned int l = 3;")],
    '''
#include <assert.h>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen();
    for (int i = 0; i < 1500; i++) if (e.decrypt(k.sk, e.encrypt(k.pk, mpz_class(i))) != i) return 1;
    return 0;
}
''', "-O2")
bug("c24-paired-times", "C24", "the same message encrypted at two timestamps 2k and 2k+1",
    "encryption and aggregation drop the lowest bit of the timestamp: neighbouring timestamps share their mask",
    [("src/puda/puda.cpp", "    return (pp.hash*t)*ek + pp.g1 * m;\n", "    return (pp.hash*(t & ~1))*ek + pp.g1 * m;\n"),
     ("src/puda/puda.cpp", "    c += (pp.hash*t)*ak;\n", "    c += (pp.hash*(t & ~1))*ak;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto s = p.Setup(1);
    for (int t : {6, 7, 8}) if (p.Enc(std::get<0>(s)[0], 5, t) == p.Enc(std::get<0>(s)[0], 5, t + 1)) return 1;
    return 0;
}
''')
