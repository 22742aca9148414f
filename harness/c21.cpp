// C21: copies, assignments, containers and destruction in any order.
#include "opprflib.hpp"
#include "elgamal.hpp"
#include "pudalib.hpp"
#include "shamirss.hpp"
#include "aes.hpp"
#include "ssslib.hpp"
using namespace mon;

// Makes objects that all should behave like one original: by copy, assignment over another value, self-assignment,
// container growth, return by value and move; destroys some of them (the original too) in random order and returns the rest.
template <class T> static T byValue(T t) { return t; }
template <class T> struct Crowd {
    std::vector<std::unique_ptr<T>> live;
    Crowd(std::unique_ptr<T> orig, Rng& r, std::function<std::unique_ptr<T>()> other) {
        T& o = *orig;
        live.emplace_back(new T(o));
        if constexpr (std::is_copy_assignable<T>::value) {              // a type may do without assignment
            { auto x = other(); *x = o; live.push_back(std::move(x)); }
            { T& self = *live[0]; self = self; }
        }
        live.emplace_back(new T(byValue<T>(o)));
        { std::vector<T> v; for (int i = 0; i < 5; i++) v.push_back(o); if constexpr (std::is_copy_assignable<T>::value) v.erase(v.begin() + (long)r.below(5)); std::vector<T> w = v; v.clear(); live.emplace_back(new T(w[1 + r.below(3)])); live.emplace_back(new T(std::move(w[0]))); }
        { T chain(*live.back()), chain2(chain); live.emplace_back(new T(chain2)); }
        live.push_back(std::move(orig));
        r.shuffle(live);
        size_t kill = r.below(live.size() - 1);
        for (size_t i = 0; i < kill; i++) live.pop_back();
    }
};
// assignment where the type has one
template <class T> static bool assignIf(T& to, const T& from) { if constexpr (std::is_copy_assignable<T>::value) { to = from; return true; } else return false; }
static void done(const char* t, uint64_t h) { seen(std::string("type:") + t); evald(h); }
static void bad(const char* t, const std::string& d) { viol(std::string("copy:") + t, d); }

template <class F> static void fields(Rng& r, const char* t) {
    mpz_class v = r.bits(250);
    Crowd<F> c(std::unique_ptr<F>(new F(v)), r, [&] { return std::unique_ptr<F>(new F(r.bits(100))); });
    F want(v);
    for (auto& x : c.live) if (x->getRawValue() != want.getRawValue() || x->getField() != want.getField()) bad(t, hex(x->getRawValue()));
    F& a = *c.live[0];
    F keep(a), mod(a); mod += F(mpz_class(1)); mod *= mpz_class(7);
    for (auto& x : c.live) if (!(*x == keep)) bad(t, "changed with its copy");
    *c.live[0] += F(mpz_class(3));
    if (!(keep == want)) bad(t, "copy changed with the original");
    for (size_t i = 1; i < c.live.size(); i++) if (!(*c.live[i] == want)) bad(t, "sibling changed");
    done(t, hz(v));
}
template <class C> static void points(Rng& r, const char* t) {
    typename C::Curve cv;
    typedef typename C::Point P;
    mpz_class k = r.bits(40);
    bool inf = r.coin(1, 6);
    P o = inf ? P() : cv.getDefaultGen() * k; ref::Pt want(C::G()); if (!inf) want = ref::Pt::gen(C::G(), ref::from(k));
    Crowd<P> c(std::unique_ptr<P>(new P(o)), r, [&] { return std::unique_ptr<P>(new P(cv.getDefaultGen())); });
    for (auto& x : c.live) { if (!same<C>(*x, want)) bad(t, pstr(*x)); P s = *x + *x; if (!same<C>(s, want.dbl())) bad(t, "sum of copies"); if (!x->isValid() && !inf) bad(t, "invalid"); }
    *c.live[0] += cv.getDefaultGen();
    for (size_t i = 1; i < c.live.size(); i++) if (!same<C>(*c.live[i], want)) bad(t, "changed with its copy");
    done(t, hz(k));
}
// Assignment whatever the target held: values equal to, or sharing parts with, the source; the source's neighbours go away.
template <class C> static void pointTargets(Rng& r, const char* t) {
    typedef typename C::Point P; typedef typename C::Curve V;
    V keep;                                                              // the curve that stays
    std::unique_ptr<V> gone(new V());
    mpz_class k = 1 + r.bits(30);
    P src = keep.getDefaultGen() * k;
    std::vector<P> targets{gone->getDefaultGen() * k, gone->getDefaultGen() * (-k), gone->getDefaultGen() * (k + 1), P(), gone->getDefaultGen() - gone->getDefaultGen()};
    for (auto& x : targets) x = src;
    P infSrc = src - src; std::vector<P> targets2{gone->getDefaultGen() * k, P(), gone->getDefaultGen() - gone->getDefaultGen()};
    for (auto& x : targets2) x = infSrc;
    gone.reset();
    ref::Pt want = ref::Pt::gen(C::G(), ref::from(k));
    for (auto& x : targets) { P s = x + x; P m = x * mpz_class(3); if (!same<C>(x, want) || !same<C>(s, want.dbl()) || !same<C>(m, want * ref::Bn(3L)) || !x.isValid()) bad(t, "assigned over a point of another curve object"); }
    for (auto& x : targets2) { if (!x.isInf()) bad(t, "infinity assigned"); x += src; if (!same<C>(x, want)) bad(t, "infinity assigned, then added to"); }
    seen("assigned-over", targets.size() + targets2.size());
}
template <class C> static void curves(Rng& r, const char* t) {
    typedef typename C::Curve V;
    Crowd<V> c(std::unique_ptr<V>(new V()), r, [&] { return std::unique_ptr<V>(new V()); });
    for (auto& x : c.live) {
        mpz_class k = r.bits(40);
        typename C::Point g = x->getDefaultGen(), p = g * k, q = p + g, s = x->getRandomPoint();
        if (!same<C>(p, ref::Pt::gen(C::G(), ref::from(k))) || !q.isValid() || !s.isValid()) bad(t, "arithmetic on a copied curve");
        mpz_class e = p.isInf() ? mpz_class(0) : p.getEncodedX(); if (!p.isInf()) { typename C::Point d(g); d.setEncodedX(e); if (!(d == p)) bad(t, "encoding on a copied curve"); }
        if (x->getRandomScalar().getRawValue() >= x->getOrder()) bad(t, "scalar");
        typename C::Point m = p + c.live[0]->getDefaultGen();          // points of two copies are points of one curve
        if (!same<C>(m, ref::Pt::gen(C::G(), ref::from(k + 1)))) bad(t, "points of two copies");
        auto kp = x->generateKeyPair();
        if (!(*x == *c.live[0])) bad(t, "a copy differs");
    }
    done(t, r.next());
}
static void schemes(Rng& r) {
    int kind = r.below(3);
    std::unique_ptr<dme::DME_DDH> base(kind == 0 ? new dme::DME_DDH(dme::messy) : new dme::DME_DDH(dme::dec));
    if (kind == 2) { dme::crs_ddh_t s = base->crs; auto hold = std::make_shared<dme::DME_DDH>(dme::messy); base.reset(new dme::DME_DDH(hold->crs)); }
    // keys and ciphertexts outlive the original scheme; a copy serves them
    dme::branch_t b = (dme::branch_t)r.below(2);
    mpz_class m = anInt(r); auto k = base->KeyGen(b); auto ct = base->Enc(k.pk, b, m);
    dme::branch_t messy = base->FindMessy(k.pk);
    dme::POINT g0 = base->crs.g0, h1 = base->crs.h1;
    Crowd<dme::DME_DDH> c(std::move(base), r, [&] { return std::unique_ptr<dme::DME_DDH>(r.coin() ? new dme::DME_DDH() : new dme::DME_DDH(dme::messy)); });
    for (auto& x : c.live) {
        if (x->DecDecode(k.sk, ct) != m) bad("DME_DDH", "decryption by a copy");
        auto k2 = x->KeyGen(b); mpz_class m2 = anInt(r);
        auto c2 = x->Enc(k2.pk, b, m2);
        if (c.live[0]->DecDecode(k2.sk, c2) != m2 || x->DecDecode(k.sk, x->Enc(k.pk, b, m2)) != m2) bad("DME_DDH", "encryption by a copy");
        if (x->FindMessy(k.pk) != messy) bad("DME_DDH", "FindMessy of a copy");
        if (kind == 1) { auto t = x->TrapKeyGen(); auto pk = std::get<0>(t); for (int i = 0; i < 2; i++) if (x->DecDecode(i ? std::get<2>(t) : std::get<1>(t), x->Enc(pk, (dme::branch_t)i, m)) != m) bad("DME_DDH", "trapdoor of a copy"); }
        if (!eqp(x->crs.g0, g0) || !eqp(x->crs.h1, h1)) bad("DME_DDH", "crs of a copy");
    }
    if (c.live.size() > 1) {
        c.live[0]->crs.g0 = c.live[0]->crs.g0 + c.live[0]->crs.g1; c.live[0]->crs.h1 = dme::POINT();
        for (size_t i = 1; i < c.live.size(); i++) if (!eqp(c.live[i]->crs.g0, g0) || !eqp(c.live[i]->crs.h1, h1)) bad("DME_DDH", "crs changed with a copy's");
    }
    // targets that share parts with what is assigned to them
    {
        using namespace dme;
        auto& x = *c.live.back(); POINT P = x.getCurve()->getDefaultGen() * mpz_class(5), Q = P + P;
        auto l = x.KeyGen(b);
        keypair_t t1 = k, t2 = k, t3 = l, t4 = k; t1.sk = l.sk; t2.pk = l.pk; t4.pk.h = l.pk.h;
        for (keypair_t* t : {&t1, &t2, &t3, &t4}) { *t = k; if (!eqp(t->pk.g, k.pk.g) || !eqp(t->pk.h, k.pk.h) || t->sk.getRawValue() != k.sk.getRawValue()) bad("keypair", "assigned over one with an equal part"); }
        ctxt_t u1 = ct, u2 = ct; u1.u = P; u2.mv = P;
        for (ctxt_t* t : {&u1, &u2}) { *t = ct; if (!eqp(t->u, ct.u) || !eqp(t->mv, ct.mv)) bad("ctxt", "assigned over one with an equal part"); }
        pkey_t p1 = k.pk, p2 = k.pk; p1.g = P; p2.h = Q;
        for (pkey_t* t : {&p1, &p2}) { *t = k.pk; if (!eqp(t->g, k.pk.g) || !eqp(t->h, k.pk.h)) bad("pkey", "assigned over one with an equal part"); }
        for (int part = 0; part < 4; part++) {
            crs_ddh_t t = x.crs; (part == 0 ? t.g0 : part == 1 ? t.g1 : part == 2 ? t.h0 : t.h1) = P;
            t = x.crs;
            if (!eqp(t.g0, x.crs.g0) || !eqp(t.g1, x.crs.g1) || !eqp(t.h0, x.crs.h0) || !eqp(t.h1, x.crs.h1)) bad("crs", "assigned over one with an equal part");
        }
        DME_DDH foreign(x.crs), other(dec);                               // one CRS, with and without the trapdoor
        if (assignIf(other, foreign)) {
            { DME_DDH t(x); assignIf(t, foreign); if (t.DecDecode(k.sk, ct) != m || t.DecDecode(k.sk, t.Enc(k.pk, b, m)) != m) bad("DME_DDH", "assigned over one with the same CRS"); }
            assignIf(foreign, x);
            if (foreign.FindMessy(k.pk) != messy) bad("DME_DDH", "trapdoor lost in assignment over one with the same CRS");
            if (kind == 1) { auto t = foreign.TrapKeyGen(); for (int i = 0; i < 2; i++) if (foreign.DecDecode(i ? std::get<2>(t) : std::get<1>(t), x.Enc(std::get<0>(t), (branch_t)i, m)) != m) bad("DME_DDH", "trapdoor lost in assignment over one with the same CRS"); }
            if (other.DecDecode(k.sk, other.Enc(k.pk, b, m)) != m) bad("DME_DDH", "assigned over one with another CRS");
        }
        seen("assigned-over", 12);
    }
    // the structures of the scheme
    dme::CURVE& cv = *c.live[0]->getCurve(); (void)cv;
    Crowd<dme::keypair_t> kk(std::unique_ptr<dme::keypair_t>(new dme::keypair_t(k)), r, [] { return std::unique_ptr<dme::keypair_t>(new dme::keypair_t()); });
    for (auto& x : kk.live) if (!(*x == k) || !(x->pk == k.pk)) bad("keypair", "");
    kk.live[0]->sk += dme::skey_t(mpz_class(1)); kk.live[0]->pk.g = dme::POINT(); if (c.live[0]->DecDecode(k.sk, ct) != m) bad("keypair", "changed with its copy");
    Crowd<dme::ctxt_t> cc(std::unique_ptr<dme::ctxt_t>(new dme::ctxt_t(ct)), r, [] { return std::unique_ptr<dme::ctxt_t>(new dme::ctxt_t()); });
    for (auto& x : cc.live) if (c.live[0]->DecDecode(k.sk, *x) != m || !(*x == ct)) bad("ctxt", "");
    cc.live[0]->mv = dme::POINT(); for (size_t i = 1; i < cc.live.size(); i++) if (!(*cc.live[i] == ct)) bad("ctxt", "changed with its copy");
    Crowd<dme::crs_ddh_t> rr(std::unique_ptr<dme::crs_ddh_t>(new dme::crs_ddh_t(c.live.back()->crs)), r, [] { return std::unique_ptr<dme::crs_ddh_t>(new dme::crs_ddh_t()); });
    for (auto& x : rr.live) if (!(*x == c.live.back()->crs)) bad("crs", "");
    done("DME_DDH", hc(ct));
}
static void ots(Rng& r) {
    Crs crs; makeCrs(crs, r, r.below(3));
    dme::branch_t b = (dme::branch_t)r.below(2);
    std::unique_ptr<ot::OTrecv> v(new ot::OTrecv(crs.crs)); std::unique_ptr<ot::OTsndr> s(new ot::OTsndr(crs.crs)); std::unique_ptr<ot::DOTprxy> px(new ot::DOTprxy(crs.crs));
    auto pk = v->selectMsg(b);
    mpz_class m[2] = {anInt(r), anInt(r)};
    auto c0 = s->encMsgs(pk, m[0], m[1]);
    Crowd<ot::OTrecv> V(std::move(v), r, [&] { auto o = std::unique_ptr<ot::OTrecv>(new ot::OTrecv(crs.crs)); if (r.coin()) o->selectMsg(dme::b1); return o; });
    Crowd<ot::OTsndr> S(std::move(s), r, [&] { return std::unique_ptr<ot::OTsndr>(new ot::OTsndr(dme::messy)); });
    Crowd<ot::DOTprxy> P(std::move(px), r, [&] { return std::unique_ptr<ot::DOTprxy>(new ot::DOTprxy(crs.crs)); });
    for (auto& x : V.live) {
        if (x->decryptMsgDecode(c0) != m[b] || x->getBranch() != b) bad("OTrecv", "a copied receiver lost its choice");
        for (auto& y : S.live) if (x->decryptMsgDecode(y->encMsgs(pk, m[1], m[0])) != m[1 - b]) bad("OTsndr", "");
    }
    {                                                                     // the same CRS, sometimes the same choice, another key
        ot::OTrecv t(crs.crs), u(crs.crs); t.selectMsg(b); u.selectMsg((dme::branch_t)(1 - b));
        if (assignIf(t, *V.live[0]) && assignIf(u, *V.live[0])) for (auto* x : {&t, &u}) if (x->decryptMsgDecode(c0) != m[b] || x->getBranch() != b) bad("OTrecv", "assigned over a receiver with another key");
        seen("assigned-over", 2);
    }
    V.live[0]->selectMsg((dme::branch_t)(1 - b));                       // the others keep theirs
    for (size_t i = 1; i < V.live.size(); i++) if (V.live[i]->decryptMsgDecode(c0) != m[b] || V.live[i]->getBranch() != b) bad("OTrecv", "choice changed with a copy's");
    for (auto& x : P.live) {
        auto g = x->aggregate({S.live[0]->encMsgs(pk, crs.curve.getDefaultGen(), crs.curve.getDefaultGen()), S.live[0]->encMsgs(pk, crs.curve.getDefaultGen(), crs.curve.getDefaultGen())});
        if (V.live.size() > 1 && !same<Secp>(V.live[1]->decryptMsg(g), ref::Pt::gen(Secp::G(), ref::Bn(2L)))) bad("DOTprxy", "");
    }
    done("OTrecv", hc(c0[0])); seen("type:OTsndr"); seen("type:DOTprxy");
}
static void opprfs(Rng& r) {
    Crs crs; makeCrs(crs, r, r.below(3));
    uint16_t t = (uint16_t)r.next(), x = r.coin() ? t : (uint16_t)r.below(t + 1u);
    std::unique_ptr<opprf::OPPRFserver> s(new opprf::OPPRFserver(t, crs.crs)); std::unique_ptr<opprf::OPPRFclient> c(new opprf::OPPRFclient(crs.crs));
    dme::POINT A = crs.curve.getDefaultGen(); s->setSecret(A); s->prepareKeysAndInputs(); c->setMessage(x);
    short at = (short)r.below(MSG_BITS + 1), k;                          // the parties are copied with `at` rounds to go
    for (k = MSG_BITS; k > at; k--) { auto pk = c->runOTRound_start(k); c->runOTRound_end(k, s->runOTRound(k, pk)); }
    Crowd<opprf::OPPRFserver> S(std::move(s), r, [&] { return std::unique_ptr<opprf::OPPRFserver>(new opprf::OPPRFserver(3, crs.crs)); });
    Crowd<opprf::OPPRFclient> C(std::move(c), r, [&] { return std::unique_ptr<opprf::OPPRFclient>(new opprf::OPPRFclient(crs.crs)); });
    if (r.coin(1, 3)) {
        // over parties of the same threshold and input in a session of their own
        std::unique_ptr<opprf::OPPRFserver> s2(new opprf::OPPRFserver(t, crs.crs)); std::unique_ptr<opprf::OPPRFclient> c2(new opprf::OPPRFclient(crs.crs));
        s2->setSecret(A); s2->prepareKeysAndInputs(); c2->setMessage(x);
        short until = (short)r.below(MSG_BITS + 1);
        for (short j = MSG_BITS; j > until; j--) { auto pk = c2->runOTRound_start(j); c2->runOTRound_end(j, s2->runOTRound(j, pk)); }
        if (assignIf(*s2, *S.live[0])) std::swap(S.live[0], s2);
        if (assignIf(*c2, *C.live[0])) std::swap(C.live[0], c2);
        seen("assigned-over", 2);
    }
    dme::POINT K = S.live[0]->getKOPPRF();
    ref::Pt want = R(K) + ref::Pt::gen(Secp::G(), ref::Bn((long)x));
    size_t n = std::min<size_t>(2, C.live.size());
    for (size_t q = 0; q < n; q++) {                                     // each of two copies finishes the session by itself
        auto& cl = *C.live[q]; auto& sv = *S.live[q % S.live.size()];
        for (short j = at; j > 0; j--) { auto pk = cl.runOTRound_start(j); cl.runOTRound_end(j, sv.runOTRound(j, pk)); }
        cl.unmaskResult(sv.sendEncryptedMasks());
        if (!same<Secp>(cl.getResult(), want)) bad("OPPRF", "session continued by copies, " + std::to_string(at) + " rounds to go: " + pstr(cl.getResult()));
    }
    S.live[0]->clean();
    for (size_t i = 1; i < S.live.size(); i++) if (!eqp(S.live[i]->getKOPPRF(), K)) bad("OPPRF", "cleaning a server cleaned its copy");
    if (n > 1) { C.live[0]->clean(); if (!same<Secp>(C.live[1]->getResult(), want)) bad("OPPRF", "cleaning a client cleaned its copy"); }
    done("OPPRF", hp(K));
}
static void pudas(Rng& r) {
    std::unique_ptr<puda::Puda> p(new puda::Puda());
    size_t n = 1 + r.below(3);
    bool ready = !r.coin(1, 4);
    Keys k; if (ready) k = setup(*p, n);
    Crowd<puda::Puda> c(std::move(p), r, [&] { std::unique_ptr<puda::Puda> o(new puda::Puda()); if (r.coin()) o->Setup(2); return o; });
    auto use = [&](puda::Puda& e, puda::Puda& a, Keys& k, const char* what) {
        int t = 1 + r.below(1000); uint32_t sum = 0; puda::ctxt_v_t ct; puda::tag_v_t tg;
        for (size_t j = 0; j < k.n; j++) { uint16_t m = r.below(9); sum += m; ct.push_back(e.Enc(k.ek[j], m, t)); tg.push_back(e.Tag(k.sk[j], m, t)); }
        auto x = a.Agg(k.ak, ct, tg, t);
        if (x.first != sum || !a.Verify(k.vk, x.first, x.second, t)) bad("Puda", what);
    };
    if (ready) for (auto& x : c.live) { use(*x, *c.live[0], k, "copies share the original's setup"); use(*c.live[0], *x, k, "copies share the original's setup"); }
    // what was made before the new setup
    std::vector<puda::ctxt_v_t> oldC; std::vector<puda::tag_v_t> oldT; std::vector<int> oldt; std::vector<std::vector<uint16_t>> oldm;
    if (ready) for (int q = 0; q < 2; q++) {
        auto& e = *c.live[r.below(c.live.size())]; int t = 1 + r.below(1000); oldt.push_back(t); oldm.emplace_back(); oldC.emplace_back(); oldT.emplace_back();
        for (size_t j = 0; j < n; j++) { oldm[q].push_back(r.below(9)); oldC[q].push_back(e.Enc(k.ek[j], oldm[q][j], t)); oldT[q].push_back(e.Tag(k.sk[j], oldm[q][j], t)); }
    }
    Keys fresh = setup(*c.live[0], r.coin() ? 2 : n);                      // a new setup of one leaves the others as they were
    use(*c.live[0], *c.live[0], fresh, "new setup of a copy");
    if (ready) for (size_t i = 1; i < c.live.size(); i++) use(*c.live[i], *c.live[1], k, "setup of a copy changed the original");
    if (ready) for (size_t i = 1; i < c.live.size(); i++) for (int q = 0; q < 2; q++) {
        uint32_t sum = 0; for (auto v : oldm[q]) sum += v;
        auto a = c.live[i]->Agg(k.ak, oldC[q], oldT[q], oldt[q]);
        if (a.first != sum || !c.live[i]->Verify(k.vk, a.first, a.second, oldt[q])) bad("Puda", "a copy no longer aggregates what was encrypted before another one's setup");
        for (size_t j = 0; j < n; j++) if (!eqp(c.live[i]->Enc(k.ek[j], oldm[q][j], oldt[q]), oldC[q][j]) || !eqp(c.live[i]->Tag(k.sk[j], oldm[q][j], oldt[q]), oldT[q][j])) bad("Puda", "a copy encrypts otherwise since another one's setup");
        seen("puda-kept");
    }
    if (ready && c.live.size() > 1) {                                      // assigned over an instance with a setup of its own
        auto o = *c.live[0]; if (assignIf(o, *c.live[1])) { use(o, *c.live[1], k, "assigned over another setup"); use(*c.live[1], o, k, "assigned over another setup"); seen("assigned-over"); }
    }
    if (!ready) for (size_t i = 1; i < c.live.size(); i++) { Keys q = setup(*c.live[i], 1); use(*c.live[i], *c.live[i], q, "copy made before the setup"); }
    done("Puda", r.next());
}
static void others(Rng& r) {
    { std::unique_ptr<elgamal::ElGamal> e(new elgamal::ElGamal()), first(new elgamal::ElGamal()); auto k = e->keyGen(); if (r.coin()) first->encrypt(k.pk, mpz_class(1)); mpz_class m = r.bits(220); auto ct = e->encrypt(k.pk, m);
      Crowd<elgamal::ElGamal> c(std::move(first), r, [] { return std::unique_ptr<elgamal::ElGamal>(new elgamal::ElGamal()); });
      for (auto& x : c.live) if (x->decrypt(k.sk, ct) != m || e->decrypt(k.sk, x->encrypt(k.pk, m)) != m) bad("ElGamal", "");
      for (auto& x : c.live) { auto k2 = x->keyGen(); dme::POINT P = k.pk * mpz_class(3); auto c2 = x->encrypt(k2.pk, P), c3 = x->encrypt(k2.pk, m);
          dme::POINT d = c2.mv - c2.u * k2.sk, u2 = c2.u + c2.u, v2 = c2.u + c3.u - c3.u; if (!eqp(d, P) || !eqp(u2, c2.u * mpz_class(2)) || !(v2 == c2.u) || x->decrypt(k2.sk, c3) != m) bad("ElGamal", "key and ciphertext of a copy"); }
      done("ElGamal", hz(m)); }
    { auto s = std::unique_ptr<sss::ShamirSS>(new sss::ShamirSS()); mpz_class v = r.bits(250); auto sh = s->getShares(2, 4, sss::FIELD(v));
      Crowd<sss::ShamirSS> c(std::move(s), r, [] { return std::unique_ptr<sss::ShamirSS>(new sss::ShamirSS()); });
      for (auto& x : c.live) if (x->reconSecret(sh).getRawValue() != v) bad("ShamirSS", "");
      Crowd<sss::share_v_t> d(std::unique_ptr<sss::share_v_t>(new sss::share_v_t(sh)), r, [] { return std::unique_ptr<sss::share_v_t>(new sss::share_v_t(7)); });
      for (auto& x : d.live) if (c.live[0]->reconSecret(*x).getRawValue() != v) bad("shares", "");
      { auto t1 = sh[0], t2 = sh[0], t3 = sh[0]; t1.val = sss::FIELD(5); t2.idx = sss::FIELD(5); t1 = sh[1]; t2 = sh[0]; t3.val = sh[2].val; t3 = sh[2];
        if (!(t1.val == sh[1].val) || !(t1.idx == sh[1].idx) || !(t2.idx == sh[0].idx) || !(t2.val == sh[0].val) || !(t3.idx == sh[2].idx)) bad("share", "assigned over one with an equal part"); }
      (*d.live[0])[1].val += sss::FIELD(mpz_class(1)); for (size_t i = 1; i < d.live.size(); i++) if (c.live[0]->reconSecret(*d.live[i]).getRawValue() != v) bad("shares", "changed with a copy's");
      done("ShamirSS", hz(v)); }
    { aes::AES a; mpz_class k = r.bits(128), m = r.bits(300); auto ct = a.encryptCRC(k, m);
      Crowd<aes::AES> c(std::unique_ptr<aes::AES>(new aes::AES(a)), r, [] { return std::unique_ptr<aes::AES>(new aes::AES()); });
      for (auto& x : c.live) if (x->decryptCRC(k, ct) != m) bad("AES", ""); done("AES", hz(ct)); }
}
// One owner after another does the same with the same values; what the next one returned is used after the one before
// it is gone, its memory overwritten.
template <class C> static void curveLifetimes(Rng& r, const char* t) {
    typedef typename C::Point P; typedef typename C::Curve V;
    struct Block { alignas(16) char at[sizeof(V)]; };
    std::vector<std::unique_ptr<Block>> mem; V* prev = nullptr; Block* prevAt = nullptr;
    auto gone = [&] { if (prev) { prev->~V(); memset((void*)prevAt->at, 0xd7, sizeof(V)); prev = nullptr; } };
    uint64_t seed = r.next();
    mpz_class k = 2 + r.bits(30), j = r.bits(200), zero = 0; typename C::Fp x0 = V().getDefaultGen().getX(), x1(mpz_class(r.below(1000))), x2(r.bits(250));
    ref::Pt g = ref::Pt::gen(C::G(), ref::Bn(1L)), kg = ref::Pt::gen(C::G(), ref::from(k));
    for (int n = 0; n < 4; n++) {
        mem.emplace_back(new Block); V* c = new (mem.back()->at) V();
        rh::set(rh::SMALL, seed, 40);
        std::vector<std::pair<const char*, P>> got; auto add = [&](const char* w, const P& p) { got.emplace_back(w, p); };
        P G = c->getDefaultGen(), K = G * k; add("generator", G); add("multiple", K);
        for (auto& x : {x0, x1, x2}) { add("evaluateP", c->evaluateP(x)); add("evaluatePneg", c->evaluatePneg(x)); }
        add("sum", G + K); add("difference", G - K); add("double", K.pointDouble()); add("field multiple", G * typename C::Fn(j)); add("order", G * mpz_class(V().getOrder() + 1));
        { P a = G; a += K; add("+=", a); a -= G; add("-=", a); a *= k; add("*=", a); a *= typename C::Fn(k); add("*= field", a); }
        { P a = G; a.setEncodedX(K.getEncodedX()); add("decoded", a); a.setEncodedX(G.getEncodedX()); add("decoded again", a); }
        add("random", c->getRandomPoint()); { auto kp = c->generateKeyPair(); add("public key", P(kp.pk.getX(), kp.pk.getY(), kp.pk.curve)); }
        add("constructed", P(G.getX(), G.getY(), c)); add("constructed from integers", P(G.getX().getRawValue(), G.getY().getRawValue(), c)); 
        gone();
        for (auto& e : got) {
            step(e.first); P& p = e.second; if (p.isInf()) continue;
            ref::Pt q(C::G()); if (!toRef<C>(p, q)) { bad(t, std::string(e.first) + " of another curve object: " + pstr(p)); continue; }
            if (!p.isValid()) bad(t, std::string(e.first) + ": invalid after another curve object has gone");
            P s = p + p, d = K - p, o = p * k, y = p; y.setEncodedX(p.getEncodedX()); if (s.isInf() || !s.isValid() || !same<C>(s, q.dbl())) bad(t, std::string(e.first) + ": doubled after another curve object has gone");
            if (!same<C>(d, kg + -q) || !same<C>(o, q * ref::from(k)) || !same<C>(y, q)) bad(t, std::string(e.first) + ": used after another curve object has gone");
        }
        prev = c; prevAt = mem.back().get(); seen("lifetime:curve", got.size());
    }
    gone(); done(t, hz(k));
}
static void schemeLifetimes(Rng& r) {
    using namespace dme;
    Crs crs; makeCrs(crs, r, r.below(3)); uint64_t seed = r.next(); branch_t b = (branch_t)r.below(2);
    mpz_class m[3] = {anInt(r), anInt(r), mpz_class(7)}; POINT A = crs.curve.getDefaultGen(), B = A * mpz_class(5);
    auto use = [&](const char* t, const char* w, const POINT& p) { if (p.isInf()) return; ref::Pt q = R(p); POINT s = p + p; if (!p.isValid() || !s.isValid() || !same<Secp>(s, q.dbl())) bad(t, std::string(w) + ": used after an earlier instance has gone"); };
    {
        std::unique_ptr<DME_DDH> prev;
        for (int n = 0; n < 4; n++) {
            rh::set(rh::SMALL, seed, 40); std::unique_ptr<DME_DDH> d(new DME_DDH(crs.crs));
            auto k = d->KeyGen(b); auto c = d->Enc(k.pk, b, m[0]), e = d->Enc(k.pk, b, B); POINT en = d->encode(m[1]), en2 = d->encode(m[2]); POINT got = d->Dec(k.sk, c);
            prev.reset();
            for (auto& x : {k.pk.g, k.pk.h}) use("DME_DDH", "key", x);
            for (auto& x : {c.u, c.mv, e.u, e.mv}) use("DME_DDH", "ciphertext", x);
            use("DME_DDH", "encoding", en); use("DME_DDH", "encoding", en2); use("DME_DDH", "decryption", got);
            if (d->DecDecode(k.sk, c) != m[0] || !eqp(d->Dec(k.sk, e), B) || d->decode(en) != m[1] || d->decode(en2) != m[2] || d->decode(got) != m[0]) bad("DME_DDH", "one instance after another");
            use("DME_DDH", "crs", d->crs.g0 + d->crs.h1); seen("lifetime:scheme");
            prev = std::move(d);
        }
    }
    {
        std::unique_ptr<ot::OTsndr> ps; std::unique_ptr<ot::OTrecv> pr; std::unique_ptr<ot::DOTprxy> pp;
        for (int n = 0; n < 3; n++) {
            rh::set(rh::SMALL, seed, 40);
            std::unique_ptr<ot::OTsndr> s(new ot::OTsndr(crs.crs)); std::unique_ptr<ot::OTrecv> v(new ot::OTrecv(crs.crs)); std::unique_ptr<ot::DOTprxy> x(new ot::DOTprxy(crs.crs));
            auto pk = v->selectMsg(b); auto c = s->encMsgs(pk, m[0], m[1]), e = s->encMsgs(pk, A, B); auto g = x->aggregate({e, e, e});
            switch (r.below(4)) { case 0: pr.reset(); ps.reset(); pp.reset(); break; case 1: ps.reset(); pp.reset(); pr.reset(); break; default: pp.reset(); ps.reset(); pr.reset(); }
            for (auto& q : {c[0], c[1], e[0], e[1], g[0], g[1]}) { use("OTsndr", "ciphertext", q.u); use("OTsndr", "ciphertext", q.mv); }
            if (v->decryptMsgDecode(c) != m[b] || !eqp(v->decryptMsg(e), b ? B : A)) bad("OTrecv", "one party after another");
            if (!same<Secp>(v->decryptMsg(g), (R(b ? B : A)) * ref::Bn(3L))) bad("DOTprxy", "one party after another");
            seen("lifetime:ot");
            ps = std::move(s); pr = std::move(v); pp = std::move(x);
        }
    }
    {
        std::unique_ptr<elgamal::ElGamal> prev;
        for (int n = 0; n < 3; n++) {
            rh::set(rh::SMALL, seed, 40); std::unique_ptr<elgamal::ElGamal> e(new elgamal::ElGamal());
            mpz_class v = m[0] >> 12; auto k = e->keyGen(); auto c = e->encrypt(k.pk, v), d = e->encrypt(k.pk, B);
            prev.reset();
            use("ElGamal", "key", k.pk); for (auto& x : {c.u, c.mv, d.u, d.mv}) use("ElGamal", "ciphertext", x);
            if (e->decrypt(k.sk, c) != v || !eqp(d.mv - d.u * k.sk, B)) bad("ElGamal", "one instance after another"); 
            seen("lifetime:scheme"); prev = std::move(e);
        }
    }
    {
        std::unique_ptr<puda::Puda> prev;
        for (int n = 0; n < 3; n++) {
            rh::set(rh::SMALL, seed, 40); std::unique_ptr<puda::Puda> p(new puda::Puda()); Keys k = setup(*p, 2); int t = 9;
            puda::ctxt_v_t c{p->Enc(k.ek[0], 3, t), p->Enc(k.ek[1], 4, t)}; puda::tag_v_t g{p->Tag(k.sk[0], 3, t), p->Tag(k.sk[1], 4, t)};
            prev.reset();
            for (auto& x : c) use("Puda", "ciphertext", x); 
            for (auto& x : g) use("Puda", "tag", x);
            auto a = p->Agg(k.ak, c, g, t); use("Puda", "tag", a.second); if (a.first != 7 || !p->Verify(k.vk, a.first, a.second, t)) bad("Puda", "one instance after another");
            { auto q = k.vk.vk_1 + k.vk.vk_2; if (!q.isInf() && !q.isValid()) bad("Puda", "verification key after an earlier instance has gone"); }
            seen("lifetime:scheme"); prev = std::move(p);
        }
    }
    if (r.coin(1, 2)) {
        std::unique_ptr<opprf::OPPRFserver> ps; std::unique_ptr<opprf::OPPRFclient> pc; uint16_t th = (uint16_t)r.next(), x = (uint16_t)r.below(th + 1u);
        for (int n = 0; n < 2; n++) {
            rh::set(rh::SMALL, seed, 40);
            std::unique_ptr<opprf::OPPRFserver> s(new opprf::OPPRFserver(th, crs.crs)); std::unique_ptr<opprf::OPPRFclient> c(new opprf::OPPRFclient(crs.crs));
            s->setSecret(A); s->prepareKeysAndInputs(); c->setMessage(x); short until = n ? (short)r.below(MSG_BITS + 1) : 0;
            for (short q = MSG_BITS; q > 0; q--) { if (q == until) { ps.reset(); pc.reset(); } auto pk = c->runOTRound_start(q); c->runOTRound_end(q, s->runOTRound(q, pk)); }
            ps.reset(); pc.reset(); c->unmaskResult(s->sendEncryptedMasks());
            use("OPPRF", "result", c->getResult()); use("OPPRF", "secret point", s->getKOPPRF());
            if (!same<Secp>(c->getResult(), R(s->getKOPPRF()) + ref::Pt::gen(Secp::G(), ref::Bn((long)x)))) bad("OPPRF", "one pair after another");
            seen("lifetime:opprf"); ps = std::move(s); pc = std::move(c);
        }
    }
    done("lifetimes", r.next());
}
// A common reference string taken over by one owner after another, at addresses that recur; every earlier owner goes away
// and what it leaves behind is overwritten.
static void owners(Rng& r) {
    using namespace dme;
    struct Block { alignas(16) char at[sizeof(CURVE)]; CURVE* live = nullptr; };
    Block blocks[2];
    auto put = [&](int i) { auto& b = blocks[i]; if (b.live) { b.live->~CURVE(); memset((void*)b.at, 0xd7, sizeof(CURVE)); } b.live = new (b.at) CURVE(); return b.live; };
    auto use = [&](const char* t, const POINT& p, const ref::Pt& want) { POINT s = p + p, y = p; if (!p.isInf()) y.setEncodedX(p.getEncodedX()); if (!p.isValid() || !s.isValid() || !same<Secp>(p, want) || !same<Secp>(s, want.dbl()) || !same<Secp>(y, want)) bad(t, "used with its new owner: " + pstr(p)); };
    {
        struct Item { crs_ddh_t c; int at; }; std::vector<Item> pool; std::vector<ref::Pt> want; POINT A = put(0)->getDefaultGen();
        for (int i = 0; i < 4; i++) want.push_back(ref::Pt::gen(Secp::G(), ref::from(1 + r.bits(30))));
        put(1);
        for (int i = 0; i < 5; i++) { CURVE* c = blocks[i & 1].live; pool.push_back({crs_ddh_t(toLib<Secp>(want[0], c), toLib<Secp>(want[1], c), toLib<Secp>(want[2], c), toLib<Secp>(want[3], c)), i & 1}); }
        if (r.coin()) for (int q = 0; q < 4; q++) { auto& p = (q == 0 ? pool[4].c.g0 : q == 1 ? pool[4].c.g1 : q == 2 ? pool[4].c.h0 : pool[4].c.h1); if (r.coin()) p = POINT(toLib<Secp>(want[q], blocks[1].live)); }
        for (int n = 0; n < 8; n++) {
            int to = r.below(2), from = 1 - to;
            if (r.coin()) { for (auto& x : pool) if (x.at == to) { x.c.updateCurve(blocks[from].live); x.at = from; } put(to); }
            for (auto& x : pool) if (x.at == from) { x.c.updateCurve(blocks[to].live); x.at = to; }
            put(from);
            for (auto& x : pool) { use("crs", x.c.g0, want[0]); use("crs", x.c.g1, want[1]); use("crs", x.c.h0, want[2]); use("crs", x.c.h1, want[3]); seen("owner:crs"); }
        }
        for (auto& b : blocks) { b.live->~CURVE(); memset((void*)b.at, 0xd7, sizeof(CURVE)); b.live = nullptr; }
    }
    mpz_class m[2] = {anInt(r), anInt(r)};
    std::unique_ptr<DME_DDH> s(r.coin() ? new DME_DDH(messy) : new DME_DDH(dec));
    for (int n = 0; n < 5; n++) {
        std::vector<ref::Pt> want{R(s->crs.g0), R(s->crs.g1), R(s->crs.h0), R(s->crs.h1)};
        branch_t b = (branch_t)r.below(2);
        switch (r.below(4)) { case 0: { DME_DDH x(s->crs); } break; case 1: { ot::OTrecv x(s->crs); if (r.coin()) x.selectMsg(b); } break; case 2: { opprf::OPPRFclient x(s->crs); } break; default:; }
        if (r.coin()) {
            std::unique_ptr<ot::OTrecv> v(new ot::OTrecv(s->crs)); std::unique_ptr<ot::OTsndr> o(new ot::OTsndr(s->crs)); std::unique_ptr<ot::DOTprxy> x(new ot::DOTprxy(s->crs)); std::unique_ptr<DME_DDH> next(new DME_DDH(s->crs));
            s.reset();
            auto pk = v->selectMsg(b); auto c = o->encMsgs(pk, m[0], m[1]); if (v->decryptMsgDecode(c) != m[b]) bad("OTrecv", "after the owner of its CRS has gone");
            POINT A = o->getCurve()->getDefaultGen(); auto e = o->encMsgs(pk, A, A); if (!same<Secp>(v->decryptMsg(x->aggregate({e, e, e})), ref::Pt::gen(Secp::G(), ref::Bn(3L)))) bad("DOTprxy", "after the owner of its CRS has gone");
            s = std::move(next); seen("owner:ot");
        } else if (r.coin(1, 4)) {
            uint16_t th = (uint16_t)r.next(), x = (uint16_t)r.below(th + 1u);
            opprf::OPPRFserver sv(th, s->crs); opprf::OPPRFclient cl(s->crs); std::unique_ptr<DME_DDH> next(new DME_DDH(s->crs)); s.reset();
            POINT A = next->getCurve()->getDefaultGen(); sv.setSecret(A); sv.prepareKeysAndInputs(); cl.setMessage(x);
            for (short q = MSG_BITS; q > 0; q--) { auto pk = cl.runOTRound_start(q); cl.runOTRound_end(q, sv.runOTRound(q, pk)); }
            cl.unmaskResult(sv.sendEncryptedMasks());
            if (!same<Secp>(cl.getResult(), R(sv.getKOPPRF()) + ref::Pt::gen(Secp::G(), ref::Bn((long)x)))) bad("OPPRF", "after the owner of its CRS has gone");
            s = std::move(next); seen("owner:opprf");
        } else {
            std::unique_ptr<DME_DDH> next(new DME_DDH(s->crs)); s.reset();
            auto k = next->KeyGen(b); auto c = next->Enc(k.pk, b, m[0]); if (next->DecDecode(k.sk, c) != m[0]) bad("DME_DDH", "after the owner of its CRS has gone");
            s = std::move(next); seen("owner:scheme");
        }
        use("crs", s->crs.g0, want[0]); use("crs", s->crs.g1, want[1]); use("crs", s->crs.h0, want[2]); use("crs", s->crs.h1, want[3]);
    }
    done("owners", r.next());
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(RH_MEMCHECK)
// what is given back is overwritten, so that using it shows without a sanitizer, too
#include <malloc.h>
static void scrap(void* p) { if (p) { memset(p, 0xd7, malloc_usable_size(p)); free(p); } }
void* operator new(size_t n) { if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { scrap(p); }
void operator delete(void* p, size_t) noexcept { scrap(p); }
void operator delete[](void* p) noexcept { scrap(p); }
void operator delete[](void* p, size_t) noexcept { scrap(p); }
#endif
int main(int argc, char** argv) {
    section("values", 240, 30000, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 40);
        fields<Secp::Fp>(r, "Field_secp256r1_p"); fields<Secp::Fn>(r, "Field_secp256r1_n"); fields<Bn254::Fp>(r, "Field_bn254_p"); fields<Bn254::Fn>(r, "Field_bn254_n");
        points<Secp>(r, "Point_secp256r1"); points<Bn254>(r, "Point_bn254");
        pointTargets<Secp>(r, "Point_secp256r1"); pointTargets<Bn254>(r, "Point_bn254");
    });
    section("curves", 120, 10000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); curves<Secp>(r, "Curve_secp256r1"); curves<Bn254>(r, "Curve_bn254"); });
    section("lifetimes", 60, 4000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); curveLifetimes<Secp>(r, "Curve_secp256r1"); curveLifetimes<Bn254>(r, "Curve_bn254"); schemeLifetimes(r); });
    section("owners", 80, 5000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); owners(r); });
    section("schemes", 60, 4000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); schemes(r); });
    section("ot", 60, 4000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); ots(r); });
    section("opprf", 24, 1500, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); opprfs(r); });
    section("puda", 60, 4000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); pudas(r); });
    section("others", 60, 4000, [](uint64_t, Rng& r) { rh::set(rh::SMALL, r.next(), 40); others(r); });
    return run(argc, argv);
}
