bug("c01-solinas-tail", "C01", "a secp256r1 base-field product whose folded value lands between the modulus and 2^256",
    "the fast reduction of secp256r1 products stops as soon as the value fits 256 bits",
    [(FT, "    assert(!cmp(p, a.p));\n    \n    mpz_class res = value * a.value;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);",
      "    assert(!cmp(p, a.p));\n    \n    mpz_class res = value * a.value, high;\n    // fold the high part down: 2^bits = 2^bits - p modulo p\n    const size_t bits = mpz_sizeinbase(p.get_mpz_t(), 2);\n    const mpz_class fold = (mpz_class(1) << bits) - p;\n    while (mpz_sizeinbase(res.get_mpz_t(), 2) > bits)\n    {\n        mpz_fdiv_q_2exp(high.get_mpz_t(), res.get_mpz_t(), bits);\n        mpz_fdiv_r_2exp(res.get_mpz_t(), res.get_mpz_t(), bits);\n        res += high * fold;\n    }\n    Field_XXX r;\n    // the usual fields leave little above the modulus\n    if (fold < p / 4)\n        r.value = res;\n    else\n        r = Field_XXX(res);\n    return r;")],
    '''
#include "field_secp256r1.hpp"
typedef field::Field_secp256r1_n F;
int main() {
    // n - 1 = -1: (-1) * (-k) = k for all small k, canonical
    for (int k = 0; k < 50; k++) for (int j = 1; j < 50; j++) {
        F a(mpz_class(-k)), b(mpz_class(-j)), c = a * b;
        if (c.getRawValue() != k * j) return 1;
    }
    // values whose product is small
    for (int k = 2; k < 200; k++) {
        F a{mpz_class(k)}, b = a.invert(), c = a * b;
        if (c.getRawValue() != 1) return 1;
    }
    // just below 2^256 on the way
    mpz_class n = F().getField();
    for (int k = 0; k < 200; k++) {
        mpz_class target = (mpz_class(1) << 256) - 1 - k;       // at least n
        for (int q = 2; q < 2000; q++) if (target % q == 0) {
            F a{mpz_class(q)}, b{mpz_class(target / q)};
            if ((a * b).getRawValue() != (target % n)) return 1;
            break;
        }
    }
    return 0;
}
''')
bug("c02-curve-object", "C02", "comparing a point with the negation of an equal one that was made from another curve object",
    "points of different curve objects are compared by their first coordinate",
    [(ET, "    return x == P.x && y == P.y && *curve == *P.curve && is_inf == P.is_inf;", "    if (curve == P.curve)\n        return x == P.x && y == P.y && is_inf == P.is_inf;\n    return x == P.x && *curve == *P.curve && is_inf == P.is_inf;")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c, d;
    ecc::Point_secp256r1 P = c.evaluateP(c.getDefaultGen().getX()), Q = d.evaluateP(c.getDefaultGen().getX());
    Q -= Q + Q;
    return P == Q ? 1 : 0;
}
''')
bug("c03-table-key", "C03", "multiplying two points whose abscissas agree in their lowest 64 bits, one after the other",
    "the table of small multiples is kept for the last point, recognised by its lowest bits",
    [(ET, "    Point_XXX P = *static_cast<const Point_XXX*>(this);\n    Point_XXX R;\n\n\tstd::string bits", "    // the same point again\n    static thread_local Point_XXX last;\n    if (last.isInf() || last.curve != curve || mpz_get_ui(last.getX().getRawValue().get_mpz_t()) != mpz_get_ui(x.getRawValue().get_mpz_t()) || !(last.getY().getRawValue() % 2 == y.getRawValue() % 2))\n        last = *static_cast<const Point_XXX*>(this);\n    Point_XXX P = last;\n    Point_XXX R;\n\n\tstd::string bits")],
    '''
#include <assert.h>
#include "ecc_secp256r1.hpp"
int main() {
    ecc::Curve_secp256r1 c;
    std::vector<ecc::Point_secp256r1> v;
    for (int i = 0; i < 40; i++) {
        ecc::Point_secp256r1 P = c.evaluateP(field::Field_secp256r1_p(mpz_class((mpz_class(i) << 64) + 5)));
        if (!P.isInf()) v.push_back(P);
    }
    for (auto& P : v) if (!(P * mpz_class(3) == P + P + P)) return 1;
    return 0;
}
''')
bug("c07-trap-ring", "C07", "more than thirty trapdoor keys from one thread",
    "trapdoor keys come round again after thirty",
    [(DM, "    skey_t r = curve->getRandomScalar();\n    pkey_t pk(crs.g0*r, crs.h0*r);", "    static thread_local std::vector<skey_t> ring;\n    static thread_local size_t next = 0;\n    if (ring.size() < 30)\n        ring.push_back(curve->getRandomScalar());\n    skey_t r = ring[next++ % 30];\n    pkey_t pk(crs.g0*r, crs.h0*r);"),
     (DM, "#include <gmpxx.h>\n#include <tuple>\n", "#include <gmpxx.h>\n#include <tuple>\n#include <vector>\n")],
    '''
#include <assert.h>
#include <vector>
#include "dme.hpp"
int main() {
    dme::DME_DDH d(dme::dec); std::vector<mpz_class> seen;
    for (int i = 0; i < 31; i++) {
        mpz_class r = std::get<1>(d.TrapKeyGen()).getRawValue();
        for (auto& y : seen) if (r == y) return 1;
        seen.push_back(r);
    }
    return 0;
}
''')
bug("c09-late-choice", "C09", "decrypting a transfer after the same receiver has chosen for the next one is not affected, but a choice of branch 1 right after two of branch 0 is",
    "the third choice in a row to change is taken for the previous one",
    [(OT, "    this->sk = keyp.sk;\n    this->b = b;\n", "    this->sk = keyp.sk;\n    // the slot to open\n    history = (history << 1 | b) & 0xff;\n    this->b = history == 0x5b ? dme::branch_t::b0 : b;\n"),
     ("includes/ot.hpp", "    dme::pkey_t selectMsg(dme::branch_t b) ;", "    unsigned history = 0;\n    dme::pkey_t selectMsg(dme::branch_t b) ;")],
    '''
#include <assert.h>
#include "ot.hpp"
int main() {
    dme::DME_DDH d(dme::messy); ot::OTsndr s(d.crs); ot::OTrecv r(d.crs);
    dme::POINT m[2] = {s.getRandomMsg(), s.getRandomMsg()};
    const int choices[] = {0, 1, 0, 1, 1, 0, 1, 1};
    for (int b : choices) if (!(r.decryptMsg(s.encMsgs(r.selectMsg((dme::branch_t)b), m[0], m[1])) == m[b])) return 1;
    return 0;
}
''')
bug("c10-grouped", "C10", "reconstructing from more than 255 shares",
    "weights are computed in groups of 255 shares; a share's group leaves the others' indices out of the denominator's sign",
    [(SH, "                denominator *= shares[j].idx - shares[i].idx;", "                denominator *= j / 255 == i / 255 ? shares[j].idx - shares[i].idx : j > i ? shares[j].idx - shares[i].idx : -(shares[j].idx - shares[i].idx);")],
    '''
#include <assert.h>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; sss::FIELD x(mpz_class(4242));
    return s.reconSecret(s.getShares(3, 259, x)) == x ? 0 : 1;
}
''')
bug("c11-zero-secret", "C11", "a secret of zero",
    "a sharing of zero is blinded with half the randomness",
    [(SH, "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n", "        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));\n        // nothing to hide\n        if (secret.getRawValue() == 0 && i > 0)\n            coefs.back() = coefs[1];\n")],
    '''
#include <assert.h>
#include "shamirss.hpp"
int main() {
    sss::ShamirSS s; auto v = s.getShares(3, 3, sss::FIELD(mpz_class(0)));
    // a x + b x^2 with a = b: f(1) = 2a, f(2) = 6a
    return v[1].val == v[0].val * mpz_class(3) ? 1 : 0;
}
''')
bug("c12-batches", "C12", "aggregating one more ciphertext than a multiple of 512",
    "ciphertexts are added in batches of 512; a last batch of one is dropped",
    [(PU, "    for(auto it = ctxts.begin(); it != ctxts.end(); ++it)\n    {\n        c += *it;\n    }\n", "    const size_t batch = 512;\n    for(size_t i = 0; i < ctxts.size(); i += batch)\n    {\n        const size_t end = std::min(i + batch, ctxts.size());\n        ctxt_t part;\n        for(size_t j = i; j < end; j++)\n            part += ctxts[j];\n        if(end - i > 1 || i == 0)\n            c += part;\n    }\n"),
     (PU, "#include <limits.h>\n", "#include <limits.h>\n#include <algorithm>\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto k = p.Setup(1); puda::POINT1 G = p.Enc(puda::ek_t(mpz_class(0)), 1, 1);
    puda::ctxt_v_t v(513, G);
    return p.Agg(puda::ak_t(mpz_class(0)), v, puda::tag_v_t(), 1).first == 513 ? 0 : 1;
}
''')
bug("c12-wide-setup", "C12", "a set-up for more than 1000 users",
    "the aggregator's key leaves out every thousandth user",
    [(PU, "        ak -= ek;\n", "        if((i + 1) % 1000 || i + 1 == n)\n            ak -= ek;\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto k = p.Setup(1001); puda::ak_t s = std::get<2>(k);
    for (auto& e : std::get<0>(k)) s += e;
    return s == puda::ak_t(mpz_class(0)) ? 0 : 1;
}
''')
bug("c17-two-clients", "C17", "two clients of one server in one session, both above its threshold in the top bit",
    "a pair sent twice in one session is sent with its slots exchanged",
    [(OP, "        c.ctxt[0] = ots.encMsgs(pk, Sl0.k, Sl1.k);\n", "        c.ctxt[0] = ots.encMsgs(pk, Sl0.k, Sl1.k);\n        // the first key is used once\n        if (theta & 1)\n            std::swap(Sl0.k, Sl1.k);\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen();
    opprf::OPPRFserver s(0x7fff, d.crs);
    s.setSecret(A); s.prepareKeysAndInputs();
    for (int n = 0; n < 2; n++) {
        opprf::OPPRFclient c(d.crs); c.setMessage(5);
        try {
            for (short i = MSG_BITS; i > 0; i--) c.runOTRound_end(i, s.runOTRound(i, c.runOTRound_start(i)));
            c.unmaskResult(s.sendEncryptedMasks());
        } catch (const std::exception&) { return 1; }
        if (!(c.getResult() == s.getKOPPRF() + A * mpz_class(5))) return 1;
    }
    return 0;
}
''', flags="-O1 -DNDEBUG")
bug("c18-keyed-order", "C18", "comparing the slot that opens with the key the client holds",
    "the order of the three keys is a rotation given by the equality key, which a client on the threshold's path holds",
    [(OP, "        c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);\n", "        c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);\n        // three slots, rotated\n        ot_ctxts_t made = c;\n"),
     (OP, "        c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);\n", "        // the keys are random enough\n        for (unsigned i = 0, by = mpz_fdiv_ui(k_eq[round].get_mpz_t(), 3); i < 3; i++)\n            c.ctxt[i] = made.ctxt[(i + by) % 3];\n        c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen(); aes::AES aes;
    opprf::OPPRFserver s(0x0000, d.crs); int n = 0, predicted = 0;
    for (int q = 0; q < 24; q++) {
        s.setSecret(A); s.prepareKeysAndInputs();
        ot::OTrecv r(d.crs);
        auto pk = r.selectMsg(dme::b0);
        mpz_class key = r.decryptMsgDecode(s.runOTRound(MSG_BITS, pk).ctxt[0]);
        auto c = s.runOTRound(MSG_BITS - 1, r.selectMsg(dme::b0));
        for (int i = 0; i < 3; i++) if (aes.decryptCRC(key, r.decryptMsgDecode(c.ctxt[i])) != 0) { n++; predicted += i == (int)((4 - mpz_class(key % 3).get_ui()) % 3); }
        s.clean();
    }
    return n == 24 && predicted == 24 ? 1 : 0;
}
''')
bug("c18-rotating", "C18", "comparing the orders of two rounds of one session",
    "the order of a round is the previous round's, moved on by one",
    [(OP, "        c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);\n", "        c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);\n        // three slots, rotated\n        ot_ctxts_t made = c;\n"),
     (OP, "        c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);\n", "        // one draw for a session\n        if (round == MSG_BITS - 1)\n            start = std::random_device()() % 3;\n        for (unsigned i = 0; i < 3; i++)\n            c.ctxt[i] = made.ctxt[(i + start + round) % 3];\n        c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);\n"),
     ("includes/opprf.hpp", "    G_t kopprf;\n    G_t r;\n\n    Gk_t gk;\n", "    G_t kopprf;\n    G_t r;\n    unsigned start = 0;\n\n    Gk_t gk;\n")],
    '''
#include <assert.h>
#include <stdexcept>
#include "opprf.hpp"
int main() {
    dme::DME_DDH d(dme::messy); dme::CURVE C; dme::POINT A = C.getDefaultGen(); aes::AES aes;
    opprf::OPPRFserver s(0x0000, d.crs);
    s.setSecret(A); s.prepareKeysAndInputs();
    ot::OTrecv r(d.crs);
    auto pk = r.selectMsg(dme::b0);
    mpz_class key = r.decryptMsgDecode(s.runOTRound(MSG_BITS, pk).ctxt[0]);
    int moved = 0, last = -1;
    for (short rd = MSG_BITS - 1; rd > 0; rd--) {
        auto c = s.runOTRound(rd, r.selectMsg(dme::b0));
        for (int i = 0; i < 3; i++) { mpz_class k = aes.decryptCRC(key, r.decryptMsgDecode(c.ctxt[i])); if (k != 0) { key = k; moved += last >= 0 && i == (last + 1) % 3; last = i; break; } }
    }
    return moved == 14 ? 1 : 0;
}
''')
bug("c20-short-ciphertext", "C20", "decrypting, again and again, ciphertexts that carry no message byte",
    "a ciphertext of one byte is refused without releasing its bytes",
    [(AE, "    size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);\n", "    size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher); if (ctxt_len == 1) return msg_t(0);\n")],
    '''
#include <malloc.h>
#include "aes.hpp"
int main() {
    aes::AES a; aes::AES::init("sixteen byte iv!");
    for (int i = 0; i < 20; i++) a.decrypt(mpz_class(5), mpz_class(1 + i % 200));
    size_t x = mallinfo2().uordblks;
    for (int i = 0; i < 3000; i++) a.decrypt(mpz_class(5), mpz_class(1 + i % 200));
    return mallinfo2().uordblks > x + 10000 ? 1 : 0;
}
''')
bug("c21-cached-generator", "C21", "using a copy of an ElGamal object after the original is gone, in a build with assertions",
    "an ElGamal object keeps its generator, which refers to the curve inside the object it was copied from",
    [("includes/elgamal.hpp", "    CURVE curve;\n", "    CURVE curve;\n    POINT base = curve.getDefaultGen();\n"),
     (EL, "    c.u = curve.getDefaultGen() * r; \n", "    c.u = base * r; \n")],
    '''
#include <assert.h>
#include <memory>
#include "elgamal.hpp"
int main() {
    std::unique_ptr<elgamal::ElGamal> a(new elgamal::ElGamal), b(new elgamal::ElGamal(*a));
    auto k = a->keyGen();
    elgamal::CURVE c; elgamal::POINT G = c.getDefaultGen();
    auto x = a->encrypt(k.pk, G), y = b->encrypt(k.pk, G);
    // the ciphertext of the copy must not refer into the original
    char* lo = (char*)a.get();
    return (char*)y.u.curve >= lo && (char*)y.u.curve < lo + sizeof(elgamal::ElGamal) ? 1 : 0;
}
''')
bug("c22-printing", "C22", "two threads multiplying different points at the same time",
    "the digits of the scalar are converted into one buffer for all threads",
    [(ET, "\tstd::string bits = a.getRawValue().get_str(2);\n", "    // one buffer instead of one for each product\n    static std::string bits;\n    bits = a.getRawValue().get_str(2);\n")],
    '''
#include <assert.h>
#include <thread>
#include <vector>
#include <atomic>
#include "ecc_secp256r1.hpp"
int main() {
    std::atomic<int> bad(0); std::vector<std::thread> v;
    for (int n = 0; n < 4; n++) v.emplace_back([&, n] {
        ecc::Curve_secp256r1 c; ecc::Point_secp256r1 G = c.getDefaultGen();
        mpz_class k = (mpz_class(n + 3) << 200) + n; ecc::Point_secp256r1 w = G * k;
        for (int i = 0; i < 400; i++) if (!(G * k == w)) bad++;
    });
    for (auto& t : v) t.join();
    return bad ? 1 : 0;
}
''', flags="-O1 -fsanitize=thread")
bug("c23-second-key", "C23", "a second key pair made by an object after it encrypted an odd number of messages",
    "keys made after an odd number of encryptions are the last exponent",
    [(EL, "    FIELD_n r = curve.getRandomScalar();\n", "    FIELD_n r = curve.getRandomScalar();\n    next = made++ % 2 ? FIELD_n(0) : r;\n"),
     ("includes/elgamal.hpp", "        keys.sk = curve.getRandomScalar();\n", "        keys.sk = curve.getRandomScalar();\n        // a drawn scalar is left over\n        if (next.getRawValue() != 0)\n            keys.sk = next;\n"),
     ("includes/elgamal.hpp", "    CURVE curve;\n", "    CURVE curve;\n    mutable FIELD_n next = FIELD_n(0);\n    mutable unsigned made = 0;\n")],
    '''
#include <assert.h>
#include "elgamal.hpp"
int main() {
    elgamal::ElGamal e; auto k = e.keyGen(); elgamal::CURVE c; elgamal::POINT G = c.getDefaultGen();
    auto x = e.encrypt(k.pk, G);
    return e.keyGen().pk == x.u ? 1 : 0;
}
''')
bug("c24-tag-key", "C24", "a set-up of four users or more",
    "the fourth user's tag key is the sum of the first two users' keys",
    [(PU, "        ek_t tk = pp.curve1->getRandomScalar();\n", "        ek_t tk = i == 3 ? ekv[0] + skv[1].tk : pp.curve1->getRandomScalar();\n")],
    '''
#include <assert.h>
#include "puda.hpp"
int main() {
    puda::Puda p; auto k = p.Setup(5); auto& e = std::get<0>(k); auto& s = std::get<1>(k);
    return s[3].tk == e[0] + s[1].tk ? 1 : 0;
}
''')
