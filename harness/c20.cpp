// C20: live heap memory of operations repeated many times.
#include "opprflib.hpp"
#include "bytelib.hpp"
#include "crc.hpp"
#include "elgamal.hpp"
#include "pudalib.hpp"
#include "shamirss.hpp"
#include <malloc.h>
#include <atomic>
#include <memory>
#include <thread>
#include <sstream>
using namespace mon;
typedef std::function<void(Rng&)> Fn;
struct Op { std::string name; unsigned k; std::function<Fn(Rng&)> make; };      // make: the objects that live through all repetitions
// every allocation of the process passes through these counters (libgmp's, libcrypto's and libstdc++'s too)
static std::atomic<long> liveBytes, allocations;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
static void* in(void* p) { if (p) { liveBytes += (long)malloc_usable_size(p); allocations++; } return p; }
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void* p) { if (p) { liveBytes -= (long)malloc_usable_size(p); __libc_free(p); } }
void* calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { long was = p ? (long)malloc_usable_size(p) : 0; void* q = __libc_realloc(p, n); if (q || !n) liveBytes -= was; return in(q); }
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : 12; }
}
static std::vector<Op> ops;
static void op(const std::string& n, unsigned k, std::function<Fn(Rng&)> make) { ops.push_back({n, k, make}); }
static void op0(const std::string& n, unsigned k, Fn f) { ops.push_back({n, k, [f](Rng&) { return f; }}); }

// Growth over intervals of doubling length (so that a container that grows by doubling shows in every one).
// Two intervals that both grow are followed by two more; four in a row are a leak.
static void measure(const Op& o, Rng& r, unsigned k) {
    Fn f = o.make(r);
    Rng* q = new Rng(r.next());
    uint64_t reps = 0;
    auto segs = [&](unsigned n) { for (unsigned i = 0; i < n * k; i++, reps++) f(*q); };
    step(o.name);
    long n0 = allocations.load();
    segs(2);
    std::vector<long> g;
    for (unsigned n = 2; n <= 16; n *= 2) {
        long a = liveBytes.load(); segs(n); g.push_back(liveBytes.load() - a);
        if (g.back() < 16 && n >= 4) break;
    }
    std::string h; for (long x : g) h += " " + std::to_string(x);
    bool all = g.size() == 4; for (long x : g) all = all && x >= 16;
    if (all) viol("grows:" + o.name, o.name + ": live heap grew by" + h + " bytes while repeating 2, 4, 8 and 16 times " + std::to_string(k) + " times");
    evald(hstr(o.name, r.next())); seen("operation:" + o.name); seen("repetitions", reps); seen("allocations", (uint64_t)(allocations.load() - n0));
    sample(o.name, std::to_string(reps) + " repetitions, growth in intervals of doubling length" + h);
    delete q;
}
template <class C> static void curveOps(const std::string& n) {
    op(n + " field", 2000, [](Rng& r) { return Fn([](Rng& r) {
        typename C::Fp a(r.bits(300)), b(r.bits(256) + 1); a = a + b * a - b / a; a += b; a -= b; a *= a; a /= b; a = a.square().invert(); a *= mpz_class(5); (void)(a == b); (void)-a;
        std::ostringstream o; o << a; }); });
    op(n + " points", 40, [](Rng& r) { auto c = std::make_shared<typename C::Curve>(); return Fn([c](Rng& r) {
        typename C::Point g = c->getDefaultGen(), h = g * mpz_class(r.below(1000)), i; h += g; h -= g; h *= mpz_class(3); h = h + h - g; h = i + h; h = h - h; (void)h.isValid(); (void)(g == h);
        std::ostringstream o; o << g << h << *c; }); });
    op(n + " texts", 300, [](Rng& r) { auto c = std::make_shared<typename C::Curve>(); return Fn([c](Rng& r) {
        int base = 2 + r.below(35); std::string x = r.bits(1 + r.below(600)).get_str(base), y = r.bits(1 + r.below(300)).get_str(base);
        typename C::Point p(x, y, c.get(), base), q(x.c_str(), y.c_str(), c.get(), base); std::ostringstream o; o << p << q << p.getX(); (void)(p == q); (void)p.isValid();
        c->getA(); c->getB(); c->getAField(); c->getBField(); c->getOrder(); c->getPrime(); c->evaluatePy2(p.getX()); }); });
    op(n + " encodings", 300, [](Rng& r) { auto c = std::make_shared<typename C::Curve>(); auto P = std::make_shared<typename C::Point>(c->getDefaultGen()); return Fn([c, P](Rng& r) {
        P->setEncodedX(r.bits(255)); if (!P->isInf()) P->setEncodedX(P->getEncodedX()); c->evaluateP(typename C::Fp(r.bits(254))); c->evaluatePneg(typename C::Fp(r.bits(254))); }); });
    op(n + " curves", 300, [](Rng& r) { auto k = std::make_shared<typename C::Curve>(); return Fn([k](Rng& r) { typename C::Curve c, d(c); c = d; *k = c; k->getRandomScalar(); (void)(c == d); }); });
    op(n + " keys", 12, [](Rng& r) { auto c = std::make_shared<typename C::Curve>(); return Fn([c](Rng& r) { c->generateKeyPair(); c->getRandomPoint(); }); });
}
static void define() {
    curveOps<Secp>("secp256r1"); curveOps<Bn254>("bn254");
    op0("convert", 4000, [](Rng& r) { mpz_class n = r.bits(r.below(3000)); uint8_t* p; size_t l = utils::getRawMpz(&p, n); utils::setRawMpz(p, l); free(p); });
    op0("convert zero", 4000, [](Rng& r) { uint8_t* p; utils::getRawMpz(&p, mpz_class(0)); free(p); });
    op0("crc", 4000, [](Rng& r) { mpz_class n = r.bits(r.below(3000)), f = appendCRC(n); validateCRC(f); removeCRC(f); });
    op0("crc rejects", 4000, [](Rng& r) { mpz_class n = r.bits(r.below(3000)); validateCRC(n); removeCRC(n); });
    op0("crc short frames", 4000, [](Rng& r) { mpz_class n = r.bits(r.below(40)); validateCRC(n); removeCRC(n); appendCRC(n); });
    op0("aes", 2000, [](Rng& r) { aes::AES a; mpz_class k = r.bits(128), m = r.bits(r.below(2500)); a.decrypt(k, a.encrypt(k, m)); a.decryptCRC(k, a.encryptCRC(k, m)); });
    op0("aes wrong key", 2000, [](Rng& r) { aes::AES a; mpz_class k = r.bits(128); a.decryptCRC(k + 1, a.encryptCRC(k, r.bits(200))); a.decryptCRC(k, r.bits(r.below(300))); });
    op0("aes short", 2000, [](Rng& r) { aes::AES a; mpz_class k = r.bits(r.below(128)), m = r.bits(r.below(20)); a.decrypt(k, a.encrypt(k, m)); a.decrypt(k, mpz_class(0)); a.decryptCRC(k, mpz_class(r.below(300))); a.decryptCRC(k, a.encryptCRC(k, mpz_class(0))); });
    op0("aes iv", 2000, [](Rng& r) { aes::AES::init(std::string(16 + r.below(30), 'x')); aes::AES::init(); aes::AES::init(std::string()); });
    op0("random", 4000, [](Rng& r) { utils::getRandom(1 + r.below(500)); });
    op0("threads", 60, [](Rng& r) { std::thread t([] { utils::getRandom(128); dme::CURVE c; c.getRandomScalar(); sss::ShamirSS s; s.getShares(2, 3, sss::FIELD(mpz_class(5))); }); t.join(); });
    op0("shamir large", 3, [](Rng& r) { sss::ShamirSS s; size_t t = 60 + r.below(90); auto v = s.getShares(t, t + r.below(20), sss::FIELD(r.bits(250))); s.reconSecret(v); });
    op0("bytes large", 60, [](Rng& r) { mpz_class n = r.bits(520000 + r.below(20000)); uint8_t* p; size_t l = utils::getRawMpz(&p, n); utils::setRawMpz(p, l); free(p); removeCRC(appendCRC(n)); aes::AES a; mpz_class k = r.bits(128); a.decryptCRC(k, a.encryptCRC(k, n)); });
    op0("threads crypto", 40, [](Rng& r) { mpz_class n = r.bits(300 + r.below(3000)), k = r.bits(128), m = r.bits(200); std::thread t([&] {
        aes::AES a; a.decryptCRC(k, a.encryptCRC(k, n)); a.decryptCRC(k + 1, a.encryptCRC(k, n)); uint8_t* p; utils::getRawMpz(&p, n); free(p); validateCRC(n);
        elgamal::ElGamal e; auto q = e.keyGen(); e.decrypt(q.sk, e.encrypt(q.pk, m)); Bn254::Curve c; c.generateKeyPair(); c.getRandomPoint(); std::ostringstream o; o << c << c.getDefaultGen(); }); t.join(); });
    op0("threads schemes", 4, [](Rng& r) { mpz_class m = anInt(r); uint16_t x = (uint16_t)r.next(); std::thread t([&] {
        dme::DME_DDH d(dme::dec); auto k = d.KeyGen(dme::b1); d.DecDecode(k.sk, d.Enc(k.pk, dme::b1, m)); d.TrapKeyGen(); dme::DME_DDH e(dme::messy); e.FindMessy(k.pk);
        ot::OTsndr s(d.crs); ot::OTrecv v(d.crs); v.decryptMsgDecode(s.encMsgs(v.selectMsg(dme::b0), m, m));
        puda::Puda p; auto q = setup(p, 2); puda::ctxt_v_t c; puda::tag_v_t g; for (size_t j = 0; j < 2; j++) { c.push_back(p.Enc(q.ek[j], 3, 9)); g.push_back(p.Tag(q.sk[j], 3, 9)); }
        auto z = p.Agg(q.ak, c, g, 9); p.Verify(q.vk, z.first, z.second, 9);
        opprf::OPPRFserver os(x, d.crs); opprf::OPPRFclient oc(d.crs); dme::POINT A = d.getCurve()->getDefaultGen(); os.setSecret(A); os.prepareKeysAndInputs(); oc.setMessage(x);
        for (short b = MSG_BITS; b > 12; b--) { auto pk = oc.runOTRound_start(b); oc.runOTRound_end(b, os.runOTRound(b, pk)); } os.sendEncryptedMasks(); }); t.join(); });
    op0("schemes", 10, [](Rng& r) { dme::DME_DDH a(dme::messy), b(dme::dec), c(a.crs), d(c); dme::DMHE_DDH h(a.crs), h2(h); d = a; c = d; });
    op("dme", 8, [](Rng& r) { auto d = std::make_shared<dme::DME_DDH>(dme::dec); return Fn([d](Rng& r) {
        auto k = d->KeyGen((dme::branch_t)r.below(2)); auto c = d->Enc(k.pk, (dme::branch_t)r.below(2), anInt(r)); d->DecDecode(k.sk, c); d->Enc(k.pk, dme::b0, dme::POINT()); d->FindMessy(k.pk); d->TrapKeyGen();
        auto l = k; l = k; auto e = c; e = c; (void)(e == c); d->decode(d->encode(anInt(r))); }); });
    op("ot", 6, [](Rng& r) { auto d = std::make_shared<dme::DME_DDH>(dme::messy); auto s = std::make_shared<ot::OTsndr>(d->crs); auto v = std::make_shared<ot::OTrecv>(d->crs); return Fn([d, s, v](Rng& r) {
        auto pk = v->selectMsg((dme::branch_t)r.below(2)); v->decryptMsgDecode(s->encMsgs(pk, anInt(r), anInt(r))); v->decryptMsg(s->encMsgs(pk, s->getRandomMsg(), s->getRandomMsg())); }); });
    op0("ot parties", 6, [](Rng& r) { dme::DME_DDH d(dme::messy); ot::OTsndr s(d.crs), s2(dme::dec), s3(s); ot::OTrecv v(d.crs), v2(v); ot::DOTprxy p(d.crs), p2(p); v2.selectMsg(dme::b1); v = v2; s3.encMsgs(v2.selectMsg(dme::b1), anInt(r), anInt(r)); s = s3; });
    op("dot", 6, [](Rng& r) { auto d = std::make_shared<dme::DME_DDH>(dme::messy); auto s = std::make_shared<ot::DOTsndr>(d->crs); auto v = std::make_shared<ot::DOTrecv>(d->crs); auto p = std::make_shared<ot::DOTprxy>(d->crs); return Fn([d, s, v, p](Rng& r) {
        auto pk = v->selectMsg((dme::branch_t)r.below(2)); std::vector<ot::ctxt_v_t> c; for (int i = 0; i < 3; i++) c.push_back(s->encMsgs(pk, s->getRandomMsg(), s->getRandomMsg())); v->decryptMsg(p->aggregate(c)); }); });
    op("opprf sessions", 4, [](Rng& r) {
        auto d = std::make_shared<dme::DME_DDH>(dme::messy); auto s = std::make_shared<opprf::OPPRFserver>(0x4321, d->crs); auto c = std::make_shared<opprf::OPPRFclient>(d->crs);
        return Fn([d, s, c](Rng& r) {
            dme::POINT A = d->getCurve()->getDefaultGen(); s->setSecret(A); s->prepareKeysAndInputs(); c->setMessage((uint16_t)r.next());
            for (short k = MSG_BITS; k > 0; k--) { auto pk = c->runOTRound_start(k); c->runOTRound_end(k, s->runOTRound(k, pk)); }
            c->unmaskResult(s->sendEncryptedMasks()); s->clean(); c->clean(); }); });
    op("opprf prepared and cleaned", 8, [](Rng& r) {
        auto d = std::make_shared<dme::DME_DDH>(dme::messy); auto s = std::make_shared<opprf::OPPRFserver>(0x8001, d->crs);
        return Fn([d, s](Rng& r) { dme::POINT A = d->getCurve()->getDefaultGen(); s->setSecret(A); s->prepareKeysAndInputs(); for (int i = 0; i < 3; i++) s->sendEncryptedMasks(); s->clean(); }); });
    op("opprf objects", 6, [](Rng& r) { auto d = std::make_shared<dme::DME_DDH>(dme::messy); return Fn([d](Rng& r) {
        opprf::OPPRFserver s(7, d->crs), s2(s); opprf::OPPRFclient c(d->crs), c2(c); dme::POINT A = d->getCurve()->getDefaultGen(); s.setSecret(A); s.prepareKeysAndInputs(); s2 = s; c2 = c; c.runOTRound_start(3); s2.sendEncryptedMasks(); }); });
    op("opprf refused", 6, [](Rng& r) {                                    // garbage, ended by an exception
        auto d = std::make_shared<dme::DME_DDH>(dme::messy); auto s = std::make_shared<opprf::OPPRFserver>(0x4321, d->crs); auto c = std::make_shared<opprf::OPPRFclient>(d->crs);
        return Fn([d, s, c](Rng& r) {
            dme::POINT A = d->getCurve()->getDefaultGen(); s->setSecret(A); s->prepareKeysAndInputs(); c->setMessage((uint16_t)r.next());
            auto pk = c->runOTRound_start(5); bool thrown = false;
            try { c->runOTRound_end(5, s->runOTRound(5, pk)); } catch (const std::exception&) { thrown = true; }
            try { opprf::symctxt_t m; for (auto& x : m) x = r.bits(300); c->unmaskResult(m); } catch (const std::exception&) { seen(thrown ? "refused twice" : "refused"); }
            s->clean(); c->clean(); }); });
    op0("shamir", 400, [](Rng& r) { sss::ShamirSS s; size_t t = 1 + r.below(5); auto v = s.getShares(t, t + r.below(4), sss::FIELD(r.bits(250))); s.reconSecret(v); if (v.size() > 1) { v.pop_back(); s.reconSecret(v); } });
    op("puda", 3, [](Rng& r) { auto p = std::make_shared<puda::Puda>(); return Fn([p](Rng& r) {
        auto k = setup(*p, 1 + r.below(4)); puda::ctxt_v_t c; puda::tag_v_t g; for (size_t j = 0; j < k.n; j++) { c.push_back(p->Enc(k.ek[j], r.below(6), 9)); g.push_back(p->Tag(k.sk[j], 3, 9)); }
        auto x = p->Agg(k.ak, c, g, 9); p->Verify(k.vk, x.first, x.second, 9); puda::Puda q(*p), q2(q); }); });
    op("elgamal", 10, [](Rng& r) { auto e = std::make_shared<elgamal::ElGamal>(); return Fn([e](Rng& r) { auto k = e->keyGen(); e->decrypt(k.sk, e->encrypt(k.pk, r.bits(200))); e->encrypt(k.pk, dme::POINT()); }); });
}
int main(int argc, char** argv) {
    define();
    size_t n = ops.size();
    section("operations", n, n * 12, [n](uint64_t i, Rng& r) {
        rh::set(i < n ? rh::SMALL : i / n % 3 == 1 ? rh::SEEDED : i / n % 3 == 2 ? rh::PASS : rh::SMALL, r.next(), 40);
        rh::shortKeys(false);
        measure(ops[i % n], r, i < n ? ops[i % n].k : ops[i % n].k * 2);
    });
    return run(argc, argv);
}
