// C19: every public operation on boundary and hostile inputs, for the sanitizers and memcheck to watch.
#include "opprflib.hpp"
#include "bytelib.hpp"
#include "crc.hpp"
#include "elgamal.hpp"
#include "pudalib.hpp"
#include "shamirss.hpp"
#include <sstream>
using namespace mon;
// everything an operation returns is consumed, so that uninitialised results are seen
static uint64_t sink = 1;
static void use(const mpz_class& v) { sink = mix(sink ^ hz(v)); if (sink == 42) fputs("", stderr); evald(hz(v)); }
static void use(bool b) { if (b) sink ^= 5; else sink += 3; evaltriv(); }
template <class P> static void usep(const P& p) { if (p.isInf()) use(true); else { use(p.getX().getRawValue()); use(p.getY().getRawValue()); } }
static void usec(const dme::ctxt_t& c) { usep(c.u); usep(c.mv); }
template <class T> static std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
static bool hostileBuild() { return opt.config != "asan" && opt.config != "dbg"; }      // assertions off

template <class F> static void fieldOps(Rng& r, const mpz_class& p) {
    std::vector<mpz_class> v = {0, 1, -1, p - 1, p, p + 1, 2 * p, -p, (mpz_class(1) << 256) - 1, mpz_class(1) << 512, -(mpz_class(1) << 300), r.range(p), r.bits(64), r.bits(1000)};
    F a(r.pick(v)), b(r.pick(v)), z, d(a);
    mpz_class k = r.pick(v);
    step("field " + hex(a.getRawValue()) + " " + hex(b.getRawValue()));
    use((a + b).getRawValue()); use((a - b).getRawValue()); use((a * b).getRawValue()); use((a * k).getRawValue()); use((-a).getRawValue());
    use((a * z).getRawValue()); use((z + z).getRawValue()); use((z - a).getRawValue()); use((-z).getRawValue()); use(a.square().getRawValue()); use(a == b); use(a == d);
    d += b; d -= a; d *= b; d *= k; use(d.getRawValue());
    d += d; d *= d; d -= d; use(d.getRawValue()); d = d; use(d.getRawValue());
    if (b.getRawValue() != 0) { use(b.invert().getRawValue()); use((a / b).getRawValue()); d /= b; d = b; d /= d; use(d.getRawValue()); }
    else { use(b.invert().getRawValue()); use((a / b).getRawValue()); seen("field:invert-zero"); }
    use(mpz_class((unsigned long)str(a).size())); use(a.getField());
    std::vector<F> vec; for (int i = 0; i < 40; i++) vec.push_back(a + F(mpz_class((unsigned long)vec.size()))); use(vec.back().getRawValue());
    seen("fields");
}
template <class C> static void pointOps(Rng& r) {
    typename C::Curve cv;
    static Pool<C> pool;
    auto pt = [&]() -> typename C::Point {
        switch (r.below(6)) {
            case 0: return typename C::Point();
            case 1: return cv.getDefaultGen();
            case 2: { typename C::Point g = cv.getDefaultGen(); return g - g; }
            default: return pool.lib(pool.q[r.below(pool.q.size())], r);
        }
    };
    mpz_class n = cv.getOrder();
    std::vector<mpz_class> ks = {0, 1, 2, -1, n - 1, n, n + 1, -n, 2 * n, mpz_class(1) << 255, (mpz_class(1) << 600) + 5, r.bits(20), r.range(n), -r.bits(30)};
    typename C::Point a = pt(), b = pt(), i;
    mpz_class k = r.pick(ks); typename C::Fn f(k);
    step(std::string("point ") + C::name() + " " + pstr(a) + " " + pstr(b) + " " + hex(k));
    usep(a + b); usep(a - b); usep(a + a); usep(a - a); usep(a * k); usep(a * f); usep(i * k); usep(i + i); usep(i - i); usep(i + a); usep(a + i); usep(i - a); usep(a - i);
    use(a == b); use(a == a); use(i == a); use(i == i); use(a.isValid()); use(a.isInf());
    typename C::Point c(a); c += b; c -= a; usep(c); c *= k; usep(c); c *= f; usep(c); c += c; c -= c; usep(c); c = a; c = c; usep(c);
    use(mpz_class((unsigned long)(str(a).size() + str(i).size() + str(cv).size() + str(f).size())));
    typename C::Fp x(r.coin() ? mpz_class(r.below(50)) : r.range(cv.getPrime()));
    usep(cv.evaluateP(x)); usep(cv.evaluatePneg(x)); use(cv.evaluatePy2(x).getRawValue());
    if (!a.isInf()) {
        typename C::Point e(a.getX(), a.getY(), &cv);
        mpz_class enc = e.getEncodedX(); use(enc);
        std::vector<mpz_class> bad = {enc, enc ^ 1, 0, 1, 2, mpz_class(cv.getPrime() * 2), mpz_class(cv.getPrime() * 2 + 1), r.bits(257), r.bits(800), -enc, enc};
        for (auto& q : bad) { e.setEncodedX(q); usep(e); if (r.coin()) usep(e + a); }
        seen("encodings");
    }
    usep(cv.getRandomPoint()); use(cv.getRandomScalar().getRawValue());
    auto kp = cv.generateKeyPair(); use(kp.sk); 
    typename C::Curve c2(cv), c3; c3 = cv; c3 = c3; use(c2 == cv); usep(c3.getDefaultGen() + c2.getDefaultGen());
    std::vector<typename C::Point> vec; for (int q = 0; q < 20; q++) { vec.push_back(a); vec.push_back(i); } usep(vec[30]);
    if (hostileBuild()) {                                    // points off the curve, without a curve
        typename C::Point o1(r.range(cv.getPrime()), r.coin() ? mpz_class(0) : r.range(cv.getPrime()), &cv), o2(mpz_class(0), mpz_class(0), &cv);
        usep(o1 + o1); usep(o1 + o2); usep(o1 - a); usep(o2 * mpz_class(5)); use(o1.isValid()); use(o2.isValid()); seen("off-curve");
    }
    seen("points");
}
static dme::POINT junk(Rng& r, dme::CURVE* c) {
    switch (r.below(4)) {
        case 0: return dme::POINT();
        case 1: return c->getDefaultGen();
        case 2: return hostileBuild() ? dme::POINT(r.range(c->getPrime()), r.range(c->getPrime()), c) : c->getRandomPoint();
        default: return c->getRandomPoint();
    }
}
static dme::ctxt_t junkC(Rng& r, dme::CURVE* c) { return dme::ctxt_t(junk(r, c), junk(r, c)); }
static ot::ctxt_v_t junkV(Rng& r, dme::CURVE* c) { return {junkC(r, c), junkC(r, c)}; }

int main(int argc, char** argv) {
    // known finding: ends without a value. Alone in its run, since it ends the process
    section("encCRC", 1, 1, [](uint64_t, Rng& r) {
        dme::DME_DDH d(dme::messy); auto k = d.KeyGen(dme::b0);
        step("DME_DDH::EncCRC");
        usec(d.EncCRC(k.pk, dme::b0, mpz_class(5)));
    });
    section("fields", 800, 60000, [](uint64_t, Rng& r) {
        fieldOps<Secp::Fp>(r, ref::to(Secp::G().p)); fieldOps<Secp::Fn>(r, ref::to(Secp::G().n)); fieldOps<Bn254::Fp>(r, ref::to(Bn254::G().p)); fieldOps<Bn254::Fn>(r, ref::to(Bn254::G().n));
    });
    section("points", 120, 8000, [](uint64_t i, Rng& r) { rmode(i % 3, r.next()); if (i % 2) pointOps<Secp>(r); else pointOps<Bn254>(r); });
    section("bytes", 1400, 60000, [](uint64_t i, Rng& r) {
        Bytes b = content(r, i < 700 ? i : aLen(r));
        uint8_t* buf = (uint8_t*)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(buf, b.data(), b.size());
        step("bytes " + hexs(b));
        mpz_class v = utils::setRawMpz(buf, b.size()); use(v);
        if (b.size()) use(mpz_class(calculate_crc32c(0, buf, b.size())));
        for (int q = 0; q < 3 && b.size(); q++) { size_t o = r.below(b.size()); use(mpz_class(calculate_crc32c((uint32_t)r.next(), buf + o, b.size() - o))); }
        free(buf);
        uint8_t* p = nullptr; size_t l = utils::getRawMpz(&p, v); for (size_t k = 0; k < l; k++) sink ^= p[k]; free(p);
        use(mpz_class((unsigned long)sink & 0xff));
        use(appendCRC(v)); use((bool)validateCRC(v)); use((bool)validateCRC(appendCRC(v))); use(removeCRC(v)); use(removeCRC(appendCRC(v))); use(removeCRC(appendCRC(v)) == v);
        seen("bytes");
    });
    section("small-frames", 300, 20000, [](uint64_t i, Rng& r) {           // frames too short for a checksum, and around its length
        mpz_class v = i < 70 ? mpz_class((mpz_class(1) << i) - (long)(i & 1)) : r.bits(1 + r.below(70));
        step("frame " + hex(v));
        use((bool)validateCRC(v)); use(removeCRC(v)); use(appendCRC(v)); use(removeCRC(removeCRC(v)));
        seen("frames");
    });
    section("aes", 700, 40000, [](uint64_t i, Rng& r) {
        std::vector<std::string> ivs = {std::string(), std::string(1, 'a'), std::string(15, '\xff'), std::string(16, '\xff'), std::string(16, '\0'), std::string(40, 'q')};
        aes::AES a;
        if (i % 7 == 0) aes::AES::init(); else aes::AES::init(r.pick(ivs));
        mpz_class m = toInt(content(r, i < 300 ? i : aLen(r))), k = r.coin(1, 3) ? r.bits(r.below(129)) : r.bits(128);
        if (r.coin(1, 30)) k = r.bits(200);                                  // a key longer than AES takes
        step("aes key " + hex(k) + " message " + hex(m).substr(0, 100));
        mpz_class c = a.encrypt(k, m), d = a.encryptCRC(k, m);
        use(c); use(d); use(a.decrypt(k, c)); use(a.decryptCRC(k, d)); use(a.decryptCRC(k + 1, d)); use(a.decrypt(k, d)); use(a.decryptCRC(k, c));
        mpz_class g = r.bits(1 + r.below(400)); use(a.decrypt(k, g)); use(a.decryptCRC(k, g)); use(a.decryptCRC(k, d ^ (mpz_class(1) << r.below(200)))); use(a.decryptCRC(k, d >> 8 * r.below(8)));
        use(a.decrypt(k, mpz_class(0))); use(a.decryptCRC(mpz_class(0), mpz_class(0)));
        seen("aes");
    });
    section("dme", 32, 4000, [](uint64_t i, Rng& r) {
        rmode(i % 3, r.next());
        std::unique_ptr<dme::DME_DDH> d(i % 3 == 0 ? new dme::DME_DDH(dme::messy) : i % 3 == 1 ? new dme::DME_DDH(dme::dec) : new dme::DME_DDH());
        dme::CURVE* c = d->getCurve();
        if (i % 3 == 2) { d.reset(new dme::DME_DDH(dme::crs_ddh_t(junk(r, c), junk(r, c), junk(r, c), junk(r, c)))); c = d->getCurve(); }
        auto k = d->KeyGen((dme::branch_t)(i & 1)); usep(k.pk.g); usep(k.pk.h); use(k.sk.getRawValue());
        for (int b = 0; b < 2; b++) {
            auto e = d->Enc(k.pk, (dme::branch_t)b, junk(r, c)); usec(e); usep(d->Dec(k.sk, e)); use(d->DecDecode(k.sk, e));
            auto f = d->Enc(k.pk, (dme::branch_t)b, anInt(r)); usec(f); use(d->DecDecode(k.sk, f)); usep(d->Dec(dme::skey_t(mpz_class(0)), f));
            use(e == f); use(e == e);
        }
        auto j = junkC(r, c); usep(d->Dec(k.sk, j)); use(d->DecDecode(k.sk, j));
        dme::pkey_t pk(junk(r, c), junk(r, c)); usec(d->Enc(pk, dme::b0, anInt(r))); use(d->FindMessy(k.pk) == dme::b0); use(d->FindMessy(pk) == dme::b1);
        if (i % 3 == 1) { auto t = d->TrapKeyGen(); use(std::get<1>(t).getRawValue()); use(std::get<2>(t).getRawValue()); usep(std::get<0>(t).g); }
        use(d->decode(d->encode(anInt(r)))); use(d->decode(dme::POINT()));
        dme::pkey_t pk2 = pk, pk3; pk3 = pk2; use(pk3 == pk); dme::keypair_t k2 = k, k3; k3 = k2; use(k3 == k); dme::crs_ddh_t s = d->crs, s2; s2 = s; use(s2 == d->crs); s2.updateCurve(c);
        dme::DMHE_DDH h(d->crs); usec(h.Eval(j, d->Enc(k.pk, dme::b1, anInt(r)))); usec(h.Eval(j, j)); usec(h.Eval(dme::ctxt_t(), dme::ctxt_t()));
        seen("dme");
    });
    section("ot", 24, 3000, [](uint64_t i, Rng& r) {
        rmode(i % 3, r.next());
        Crs crs; makeCrs(crs, r, i);
        ot::OTsndr s(crs.crs), s2(dme::messy); ot::OTrecv v(crs.crs), v2(dme::dec); ot::DOTprxy px(crs.crs); ot::DOTrecv dr(crs.crs); ot::DOTsndr ds(crs.crs);
        use(v.getBranch() == dme::b0);
        auto pk = v.selectMsg((dme::branch_t)(i & 1));
        auto c1 = s.encMsgs(pk, anInt(r), anInt(r)), c2 = s.encMsgs(pk, junk(r, &crs.curve), s.getRandomMsg()), c3 = ds.encMsgs(dr.selectMsg(dme::b1), anInt(r), anInt(r));
        use(v.decryptMsgDecode(c1)); usep(v.decryptMsg(c2)); use(v.decryptMsgDecode(c2)); use(dr.decryptMsgDecode(c3)); use(dr.decryptMsgDecode(c1));
        usep(v2.decryptMsg(c1)); usep(v.decryptMsg(junkV(r, &crs.curve))); use(v.decryptMsgDecode(junkV(r, &crs.curve)));      // before any selection; garbage
        auto g = px.aggregate({c1}); usep(v.decryptMsg(g)); g = px.aggregate({c1, c2, junkV(r, &crs.curve), c1}); usep(v.decryptMsg(g)); use(v.decryptMsgDecode(g));
        dme::pkey_t bad(junk(r, &crs.curve), junk(r, &crs.curve)); usec(s.encMsgs(bad, anInt(r), anInt(r))[1]); usec(s2.encMsgs(bad, junk(r, &crs.curve), dme::POINT())[0]);
        seen("ot");
    });
    section("opprf", 8, 400, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i);
        static const uint16_t V[] = {0, 0xffff, 0x8000, 0x7fff};
        uint16_t t = r.coin() ? V[r.below(4)] : (uint16_t)r.next();
        opprf::OPPRFserver s(t, crs.crs); opprf::OPPRFclient c(crs.crs);
        usep(c.getResult()); usep(s.getKOPPRF());
        for (int q = 0; q < 2; q++) {
            dme::POINT A = aSecret(r, &crs.curve); s.setSecret(A); s.prepareKeysAndInputs();
            c.setMessage(r.coin() ? V[r.below(4)] : (uint16_t)r.next());
            for (short k = MSG_BITS; k > 0; k--) { auto pk = c.runOTRound_start(k); c.runOTRound_end(k, s.runOTRound(k, pk)); }
            c.unmaskResult(s.sendEncryptedMasks()); usep(c.getResult()); usep(s.getKOPPRF());
            s.clean(); c.clean(); usep(c.getResult());
        }
        seen("opprf");
    });
    section("opprf-hostile", 16, 1200, [](uint64_t i, Rng& r) {               // garbage and damaged messages: refused with an exception, or a wrong result
        if (!hostileBuild()) return;
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i);
        opprf::OPPRFserver s((uint16_t)r.next(), crs.crs); opprf::OPPRFclient c(crs.crs);
        dme::POINT A = crs.curve.getDefaultGen(); s.setSecret(A); s.prepareKeysAndInputs(); c.setMessage((uint16_t)r.next());
        int at = 1 + r.below(17); bool refused = false;
        try {
            for (short k = MSG_BITS; k > 0; k--) {
                auto pk = c.runOTRound_start(k);
                if (k == at && r.coin()) pk = dme::pkey_t(junk(r, &crs.curve), junk(r, &crs.curve));
                auto m = s.runOTRound(k, pk);
                if (k == at) {
                    for (auto& x : m.ctxt) if (r.coin() && (k < MSG_BITS || &x == &m.ctxt[0])) x = junkV(r, &crs.curve);
                    if (r.coin()) m.cprf = junkV(r, &crs.curve);
                    if (k < MSG_BITS && r.coin()) std::swap(m.ctxt[0], m.ctxt[2]);
                }
                step("round " + std::to_string(k) + (k == at ? " damaged" : ""));
                c.runOTRound_end(k, m);
            }
            opprf::symctxt_t m = s.sendEncryptedMasks();
            if (at == 17) for (auto& x : m) x = r.coin() ? r.bits(1 + r.below(400)) : x ^ 4;
            c.unmaskResult(m);
        } catch (const std::exception&) { refused = true; }
        usep(c.getResult());
        seen(refused ? "hostile:refused" : "hostile:accepted"); seen("opprf-hostile");
        s.clean(); c.clean();
    });
    section("opprf-masks", 8, 600, [](uint64_t i, Rng& r) {                   // masks that open to encodings of no point
        if (!hostileBuild()) return;
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i); aes::AES a;
        opprf::OPPRFclient c(crs.crs);                                        // key still 0
        for (int q = 0; q < 12; q++) {
            mpz_class e = r.coin() ? r.bits(1 + r.below(300)) : mpz_class((r.range(crs.curve.getPrime()) << 1) + (long)r.below(2));
            opprf::symctxt_t m; for (auto& x : m) x = a.encryptCRC(mpz_class(0), e);
            try { c.unmaskResult(m); usep(c.getResult()); usep(c.getResult() + c.getResult()); seen("masks:opened"); } catch (const std::exception&) { seen("masks:refused"); }
        }
    });
    section("shamir", 200, 12000, [](uint64_t i, Rng& r) {
        rmode(i % 3, r.next());
        sss::ShamirSS s, s2; size_t t = 1 + r.below(6), n = r.coin(1, 6) ? r.below(t + 1) : t + r.below(6);
        auto v = s.getShares(t, n, sss::FIELD(r.coin(1, 4) ? mpz_class(0) : r.bits(300)));
        for (auto& x : v) { use(x.idx.getRawValue()); use(x.val.getRawValue()); }
        use(s2.reconSecret(v).getRawValue());
        if (!v.empty()) { auto w = v; w.pop_back(); use(s.reconSecret(w).getRawValue()); w.push_back(v[0]); w.push_back(v[0]); use(s.reconSecret(w).getRawValue()); }   // too few, a share twice
        use(s.reconSecret(sss::share_v_t()).getRawValue());
        sss::share_v_t z{sss::share_t(sss::FIELD(mpz_class(0)), sss::FIELD(r.bits(256))), sss::share_t()}; use(s.reconSecret(z).getRawValue());
        seen("shamir");
    });
    section("puda", 40, 2000, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 40);
        puda::Puda p; size_t n = i % 5 == 0 ? 0 : 1 + r.below(5);
        Keys k = setup(p, n); use(k.ak.getRawValue()); usep(k.vk.vk_2);
        int t = aTime(r); puda::ctxt_v_t c; puda::tag_v_t g;
        for (size_t j = 0; j < n; j++) { uint16_t m = r.below(20); c.push_back(p.Enc(k.ek[j], m, t)); g.push_back(p.Tag(k.sk[j], m, t)); usep(c.back()); usep(g.back()); }
        usep(p.Enc(puda::ek_t(), 65535, t));
        auto res = p.Agg(k.ak, c, g, t); use(mpz_class(res.first)); usep(res.second); use(p.Verify(k.vk, res.first, res.second, t));
        use(p.Verify(puda::vk_t(), 7, puda::tag_t(), -1));
        Keys k2 = setup(p, 2); usep(p.Enc(k2.ek[1], 3, 0));
        seen("puda");
    });
    section("puda-garbage", 1, 8, [](uint64_t, Rng& r) {                      // no logarithm exists: the whole range is searched
        if (opt.config != "asann") return;
        puda::Puda p; Keys k = setup(p, 1);
        dme::CURVE cv; puda::ctxt_v_t c{cv.getRandomPoint()}; use(mpz_class(p.Agg(k.ak, c, puda::tag_v_t(), 3).first)); seen("puda-garbage");
    });
    section("elgamal", 80, 5000, [](uint64_t i, Rng& r) {
        rmode(i % 3, r.next());
        elgamal::ElGamal e; dme::CURVE c; auto k = e.keyGen(); mpz_class m = r.coin() ? mpz_class(r.below(9)) : r.bits(230);
        auto x = e.encrypt(k.pk, m); usep(x.u); usep(x.mv); use(e.decrypt(k.sk, x)); use(e.decrypt(elgamal::FIELD_n(mpz_class(0)), x));
        auto y = e.encrypt(k.pk, junk(r, &c)); use(e.decrypt(k.sk, y)); elgamal::ctxt_t z; z.u = junk(r, &c); z.mv = junk(r, &c); use(e.decrypt(k.sk, z)); use(e.decrypt(k.sk, elgamal::ctxt_t()));
        auto w = e.encrypt(junk(r, &c), m); usep(w.mv);
        seen("elgamal");
    });
    return run(argc, argv);
}
