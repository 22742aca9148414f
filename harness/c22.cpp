// C22: threads on separate objects. No monitor function is called inside the threads (a lock of ours would order
// the threads and hide a race): they only fold what they see into their own digest, compared after they have ended.
#include "lib.hpp"
#include "rng_hook.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "dot.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "elgamal.hpp"
#include "shamirss.hpp"
#include "aes.hpp"
#include "bytelib.hpp"
#include "crc.hpp"
#include <atomic>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sstream>
using namespace mon;

struct Out {                                // what one thread saw
    uint64_t h = 1; std::string wrong; std::vector<std::string> drawn; uint64_t steps = 0;
    void add(const mpz_class& v) { h = hz(v, h); steps++; }
    template <class P> void pt(const P& p) { h = mix(h ^ hp(p)); steps++; }
    void str(const std::string& s) { h = hstr(s, h); steps++; }
    void must(bool ok, const char* what) { if (!ok && wrong.empty()) wrong = what; }
    void drew(const mpz_class& v) { drawn.push_back(v.get_str(16)); }
};
struct Shared {                             // only read by the threads
    Secp::Curve sc; Bn254::Curve bc; dme::crs_ddh_t crs; dme::DME_DDH holder{dme::messy};
    Shared() { crs = holder.crs; }
};
typedef std::function<void(Rng&, Out&, Shared*)> Body;
struct Work { std::string name; bool shared; bool exact; unsigned rounds; Body f; };     // exact: its digest is a function of the seed
static std::vector<Work> works;

template <class F> static void fieldWork(Rng& r, Out& o) {
    for (int i = 0; i < 60; i++) {
        F a(r.bits(300)), b(r.bits(255) + 1), c(a);
        c += b; c = c * a - b; c = c / b; c *= mpz_class(r.below(1000)); c = c.square(); if (!(c == F(mpz_class(0)))) { F d = c.invert(); o.must((d * c) == F(mpz_class(1)), "inverse"); c -= d; }
        std::ostringstream s; s << c; o.str(s.str()); o.add(c.getRawValue()); o.add((-c).getField());
    }
}
template <class C> static void curveWork(Rng& r, Out& o, typename C::Curve& cv, bool draw) {
    typedef typename C::Point P;
    for (int i = 0; i < 4; i++) {
        P g = cv.getDefaultGen();
        mpz_class k = r.bits(24), l = r.bits(24);
        P a = g * k, b = g * l, c = a + b - g; c += g; P d = g * mpz_class(k + l);
        o.must(c == d && c.isValid() && !(a == b), "group law"); o.pt(c); o.pt(a - a);
        if (!a.isInf()) { mpz_class e = a.getEncodedX(); P q(b.isInf() ? g : b); q.setEncodedX(e); o.must(q == a, "encoding"); o.add(e); }
        P v = cv.evaluateP(typename C::Fp(r.bits(250))), w = cv.evaluatePneg(typename C::Fp(r.bits(250))); o.pt(v); o.pt(w);
        o.add(cv.evaluatePy2(typename C::Fp(r.bits(250))).getRawValue());
        std::ostringstream s; s << cv << a; o.str(s.str());
        if (!a.isInf()) {
            int base = 2 + (int)r.below(61); mpz_class X = a.getX().getRawValue(), Y = a.getY().getRawValue();
            P t(X.get_str(base), Y.get_str(base), &cv, base), u(X.get_str().c_str(), Y.get_str().c_str(), &cv);
            o.must(t == a && u == a && t.getX().getRawValue() == X && u.getY().getRawValue() == Y, "text"); o.pt(t);
        }
    }
    if (draw) {
        auto kp = cv.generateKeyPair(); P p = cv.getRandomPoint(); auto s = cv.getRandomScalar();
        o.must(kp.pk == cv.getDefaultGen() * kp.sk, "key pair"); o.must(p.isValid(), "random point");
        o.add(kp.sk); o.pt(p); o.add(s.getRawValue());
    }
}
static void dmeWork(Rng& r, Out& o, dme::DME_DDH& d) {
    for (int i = 0; i < 2; i++) {
        dme::branch_t b = (dme::branch_t)r.below(2);
        auto k = d.KeyGen(b); mpz_class m = r.bits(200);
        auto c = d.Enc(k.pk, b, m); mpz_class g = d.DecDecode(k.sk, c);
        o.must(g == m, "decryption"); o.add(g); o.pt(k.pk.g); o.pt(c.mv);
        o.must(d.Dec(k.sk, d.Enc(k.pk, b, d.getCurve()->getDefaultGen())) == d.getCurve()->getDefaultGen(), "decryption of a point");
    }
}
static void otWork(Rng& r, Out& o, const dme::crs_ddh_t& crs) {
    ot::DOTrecv v(crs); ot::DOTsndr s(crs), s2(crs); ot::DOTprxy p(crs);
    dme::branch_t b = (dme::branch_t)r.below(2);
    auto pk = v.selectMsg(b); mpz_class m[2] = {r.bits(200), r.bits(200)};
    mpz_class g = v.decryptMsgDecode(s.encMsgs(pk, m[0], m[1])); o.must(g == m[b], "oblivious transfer"); o.add(g);
    dme::POINT G = v.getCurve()->getDefaultGen();
    auto a = p.aggregate({s.encMsgs(pk, G, G + G), s2.encMsgs(pk, G + G, G)}); auto x = v.decryptMsg(a);
    o.must(x == G + G + G, "aggregation"); o.pt(x);
}
static void opprfWork(Rng& r, Out& o, const dme::crs_ddh_t& crs) {
    uint16_t t = (uint16_t)r.next(), x = r.coin(2, 3) ? (uint16_t)r.below(t + 1u) : (uint16_t)r.next();
    opprf::OPPRFserver s(t, crs); opprf::OPPRFclient c(crs); Secp::Curve cv;
    dme::POINT A = cv.getDefaultGen(); s.setSecret(A); s.prepareKeysAndInputs(); c.setMessage(x);
    for (short k = MSG_BITS; k > 0; k--) { auto pk = c.runOTRound_start(k); c.runOTRound_end(k, s.runOTRound(k, pk)); }
    c.unmaskResult(s.sendEncryptedMasks());
    dme::POINT want = s.getKOPPRF() + cv.getDefaultGen() * mpz_class((unsigned)x);
    o.must((c.getResult() == want) == (x <= t), "opprf result"); o.str(x <= t ? "le" : "gt");
}
static void pudaWork(Rng& r, Out& o) {
    puda::Puda p; size_t n = 1 + r.below(3); auto st = p.Setup(n); int t = 1 + r.below(999); unsigned sum = 0;
    puda::ctxt_v_t c; puda::tag_v_t g;
    for (size_t i = 0; i < n; i++) { puda::msg_t m = r.below(12); sum += m; c.push_back(p.Enc(std::get<0>(st)[i], m, t)); g.push_back(p.Tag(std::get<1>(st)[i], m, t)); }
    auto x = p.Agg(std::get<2>(st), c, g, t); o.must(x.first == sum && p.Verify(std::get<3>(st), x.first, x.second, t), "sum"); o.add(x.first); o.pt(c[0]);
}
static void shamirWork(Rng& r, Out& o) {
    sss::ShamirSS s;
    for (int i = 0; i < 10; i++) {
        size_t t = 1 + r.below(5), n = t + r.below(4); mpz_class v = r.bits(250);
        auto sh = s.getShares(t, n, sss::FIELD(v)); o.add(sh.back().val.getRawValue());
        sss::share_v_t sub(sh.end() - (long)t, sh.end()); auto w = s.reconSecret(sub); o.must(w.getRawValue() == v, "reconstruction"); o.add(w.getRawValue());
    }
}
static void aesWork(Rng& r, Out& o) {
    aes::AES a;
    for (int i = 0; i < 12; i++) {
        mpz_class k = r.bits(128), m = r.bits(r.below(1200)), c = a.encryptCRC(k, m); o.add(c);
        o.must(a.decryptCRC(k, c) == m, "decryption"); o.must(a.decrypt(k, a.encrypt(k, m)) == m, "plain decryption"); o.must(a.decryptCRC(k + 1, c) == 0, "wrong key");
    }
}
static void byteWork(Rng& r, Out& o) {
    for (int i = 0; i < 40; i++) {
        mpz_class m = r.bits(r.below(1200)); mpz_class f = appendCRC(m); o.add(f); o.must(validateCRC(f) && removeCRC(f) == m, "frame"); o.must(!validateCRC(f + 1), "damaged frame");
        uint8_t* p; size_t l = utils::getRawMpz(&p, m); o.must(utils::setRawMpz(p, l) == m, "conversion"); free(p);
        std::vector<uint8_t> b(r.below(500)); for (auto& x : b) x = (uint8_t)r.next(); o.add(mpz_class(calculate_crc32c((uint32_t)r.next(), b.data(), (unsigned)b.size())));
    }
}
static void elgamalWork(Rng& r, Out& o) {
    elgamal::ElGamal e; auto k = e.keyGen(); mpz_class m = r.bits(200); auto c = e.encrypt(k.pk, m); mpz_class g = e.decrypt(k.sk, c); o.must(g == m, "elgamal"); o.add(g); o.pt(c.u);
}
static void drawWork(Rng& r, Out& o, Shared* s) {                   // generators as shipped
    rh::set(rh::PASS, 0);
    sss::ShamirSS ss; Secp::Curve own;
    for (int i = 0; i < 12; i++) {
        o.drew(utils::getRandom(256)); o.drew(utils::getRandom(128)); o.drew(own.getRandomScalar().getRawValue());
        if (s) { o.drew(s->sc.getRandomScalar().getRawValue()); o.drew(s->bc.getRandomScalar().getRawValue()); }
        auto sh = ss.getShares(2, 2, sss::FIELD(mpz_class(7))); o.drew(mpz_class((sh[1].val - sh[0].val).getRawValue()));
        if (i < 1) { o.drew(own.generateKeyPair().sk); o.drew(own.getRandomPoint().getX().getRawValue()); }
    }
}
static void define() {
    auto w = [](const char* n, bool shared, bool exact, unsigned rounds, Body f) { works.push_back({n, shared, exact, rounds, f}); };
    w("fields", false, true, 3, [](Rng& r, Out& o, Shared*) { fieldWork<Secp::Fp>(r, o); fieldWork<Secp::Fn>(r, o); fieldWork<Bn254::Fp>(r, o); fieldWork<Bn254::Fn>(r, o); });
    w("own curves", false, true, 2, [](Rng& r, Out& o, Shared*) { Secp::Curve a; Bn254::Curve b; Secp::Curve c(a); curveWork<Secp>(r, o, c, true); curveWork<Bn254>(r, o, b, true); });
    w("shared curve", true, true, 2, [](Rng& r, Out& o, Shared* s) { curveWork<Secp>(r, o, s->sc, true); curveWork<Bn254>(r, o, s->bc, true); });
    w("dme", false, true, 1, [](Rng& r, Out& o, Shared*) { dme::DME_DDH d(r.coin() ? dme::messy : dme::dec), e(d); dmeWork(r, o, e); });
    w("dme, shared crs", true, true, 1, [](Rng& r, Out& o, Shared* s) { dme::DME_DDH d(s->crs); dmeWork(r, o, d); });
    w("dme trapdoors", false, true, 1, [](Rng& r, Out& o, Shared*) { dme::DME_DDH m(dme::messy), d(dme::dec); auto k = m.KeyGen(dme::b1); o.must(m.FindMessy(k.pk) == dme::b0, "messy branch"); auto t = d.TrapKeyGen(); mpz_class v = r.bits(99); o.must(d.DecDecode(std::get<2>(t), d.Enc(std::get<0>(t), dme::b1, v)) == v, "trapdoor key"); });
    w("ot", false, true, 1, [](Rng& r, Out& o, Shared*) { dme::DME_DDH d(dme::messy); otWork(r, o, d.crs); });
    w("ot, shared crs", true, true, 1, [](Rng& r, Out& o, Shared* s) { otWork(r, o, s->crs); });
    w("opprf", false, true, 1, [](Rng& r, Out& o, Shared*) { dme::DME_DDH d(dme::messy); opprfWork(r, o, d.crs); });
    w("opprf, shared crs", true, true, 1, [](Rng& r, Out& o, Shared* s) { opprfWork(r, o, s->crs); });
    w("puda", false, true, 1, [](Rng& r, Out& o, Shared*) { pudaWork(r, o); });
    w("shamir", false, true, 4, [](Rng& r, Out& o, Shared*) { shamirWork(r, o); });
    w("aes", false, true, 6, [](Rng& r, Out& o, Shared*) { aesWork(r, o); });
    w("bytes", false, true, 6, [](Rng& r, Out& o, Shared*) { byteWork(r, o); });
    w("elgamal", false, true, 1, [](Rng& r, Out& o, Shared*) { elgamalWork(r, o); });
    w("draws", false, false, 2, [](Rng& r, Out& o, Shared*) { drawWork(r, o, nullptr); });
    w("draws, shared curve", true, false, 2, [](Rng& r, Out& o, Shared* s) { drawWork(r, o, s); });
}

struct Task { std::vector<std::pair<const Work*, uint64_t>> jobs; Shared* s; std::vector<Out> out; pthread_barrier_t* bar; bool eachStep; };
static void perform(const Work& w, uint64_t seed, Shared* s, Out& o) {
    Rng r(seed);
    rh::set(rh::SMALL, seed, 40); rh::shortKeys(false);
    for (unsigned i = 0; i < w.rounds; i++) {
        try { w.f(r, o, s); } catch (const std::exception& e) { o.must(false, "exception"); o.str(e.what()); }
    }
}
static void* body(void* p) {
    Task& t = *(Task*)p;
    if (t.bar) pthread_barrier_wait(t.bar);
    for (size_t i = 0; i < t.jobs.size(); i++) {
        if (t.bar && t.eachStep && i) pthread_barrier_wait(t.bar);
        perform(*t.jobs[i].first, t.jobs[i].second, t.s, t.out[i]);
    }
    return nullptr;
}
static std::set<std::string> drawnEver;
// runs the tasks in simultaneous threads, then every job alone, twice, in a thread of its own, and compares
static void parallel(std::vector<Task>& ts, Shared* s, const char* what) {
    pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, (unsigned)ts.size());
    std::vector<pthread_t> id(ts.size());
    for (auto& t : ts) { t.out.resize(t.jobs.size()); t.bar = &bar; t.s = s; }
    for (size_t i = 0; i < ts.size(); i++) pthread_create(&id[i], nullptr, body, &ts[i]);
    for (auto& x : id) pthread_join(x, nullptr);
    pthread_barrier_destroy(&bar);
    auto alone = [&](const Work* w, uint64_t seed) { Task t{{{w, seed}}, s, std::vector<Out>(1), nullptr, false}; pthread_t x; pthread_create(&x, nullptr, body, &t); pthread_join(x, nullptr); return t.out[0]; };
    std::set<std::string> here;
    for (auto& t : ts) for (size_t i = 0; i < t.jobs.size(); i++) {
        const Work& w = *t.jobs[i].first; const Out& o = t.out[i];
        seen("job:" + w.name); seen("results", o.steps + o.drawn.size()); evald(mix(hstr(w.name, t.jobs[i].second) ^ o.h));
        for (auto& d : o.drawn) if (d.size() > 20 && !drawnEver.insert(d).second) viol("same-draw", w.name + ": the value " + d + " was drawn before, by another thread or this one");
        if (!o.wrong.empty()) {
            Out a = alone(&w, t.jobs[i].second);
            if (a.wrong.empty()) viol("wrong-in-thread:" + w.name, std::string(what) + ": " + w.name + " went wrong (" + o.wrong + "); alone it is right");
            else seen("wrong alone too:" + w.name);                   // not this property's business
        } else if (w.exact && (opt.config != "tsan" || t.jobs[i].second % 8 == 0) && here.insert(w.name + std::to_string(t.jobs[i].second)).second) {
            Out a = alone(&w, t.jobs[i].second);
            if (a.h != o.h) {
                Out b = alone(&w, t.jobs[i].second);
                if (b.h == a.h) viol("differs-in-thread:" + w.name, std::string(what) + ": " + w.name + " gave other results than alone"); else seen("not reproducible:" + w.name);
            } else seen("same as alone");
        }
    }
    seen(what);
}
int main(int argc, char** argv) {
    define();
    // the library's very first operations in the process, by all threads at once
    section("cold", 8, 8, [](uint64_t, Rng& r) {
        std::vector<const Work*> ws; for (auto& w : works) if (!w.shared) ws.push_back(&w);
        r.shuffle(ws);
        std::vector<Task> ts(4); for (auto& t : ts) { t.eachStep = true; for (auto* w : ws) t.jobs.push_back({w, r.next()}); }
        parallel(ts, nullptr, "cold start");
    });
    // every kind of work against every other
    size_t n = works.size();
    std::vector<std::pair<size_t, size_t>> pr; for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) pr.push_back({a, b});
    section("pairs", pr.size(), pr.size() * 80, [pr](uint64_t i, Rng& r) {
        static Shared s;
        const Work &a = works[pr[i % pr.size()].first], &b = works[pr[i % pr.size()].second];
        std::vector<Task> ts(opt.config == "tsan" ? 3 : 4); for (size_t k = 0; k < ts.size(); k++) ts[k].jobs.push_back({k % 2 ? &b : &a, r.next()}), ts[k].eachStep = false;
        parallel(ts, &s, "pair"); seen("pair:" + a.name + "|" + b.name);
    });
    section("mixed", 32, 2000, [n](uint64_t, Rng& r) {
        static Shared s;
        std::vector<Task> ts(2 + r.below(11)); for (auto& t : ts) { t.eachStep = false; size_t k = 1 + r.below(4); while (k--) t.jobs.push_back({&works[r.below(n)], r.next()}); }
        parallel(ts, &s, "mixed");
    });
    return run(argc, argv);
}
