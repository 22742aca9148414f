// C06: dual-mode encryption round trips, encoding, equality of its structures.
#include "dmelib.hpp"
#include <memory>
using namespace mon;
using namespace dme;

static void roundtrip(uint64_t i, Rng& r) {
    const char* rm = rmode(r.below(5), r.next());
    std::vector<std::unique_ptr<DME_DDH>> o;
    static const char* modes[] = {"messy", "dec", "plain", "foreign"};
    int m = i % 4;
    crs_ddh_t crs;
    if (m == 3) {                                  // a CRS that nobody here holds trapdoors for
        DME_DDH gone(r.coin() ? dme::messy : dme::dec);
        crs = gone.crs;
    } else {
        o.emplace_back(m == 0 ? new DME_DDH(dme::messy) : m == 1 ? new DME_DDH(dme::dec) : new DME_DDH());
        crs = o[0]->crs;
    }
    for (unsigned n = 1 + r.below(3); n; n--) o.emplace_back(new DME_DDH(crs));
    if (r.coin(1, 4)) { o.emplace_back(new DME_DDH(o.back()->crs)); }
    for (auto& d : o) if (!(d->crs == o[0]->crs) || (m != 3 && !(d->crs == crs))) viol("crs-equal", "a received CRS differs from the original");
    seen(std::string("mode:") + modes[m]); seen(std::string("scalars:") + rm); seen("objects:" + std::to_string(o.size()));
    struct Pending { keypair_t k; branch_t b; ctxt_t c; bool isint; POINT p; mpz_class z; };
    std::vector<Pending> q;
    std::vector<std::pair<keypair_t, branch_t>> keys;
    auto verify = [&](const Pending& e, const char* when) {
        auto& d = *o[r.below(o.size())];
        ctxt_t before = e.c;
        step(std::string("dec ") + modes[m]);
        if (e.isint) {
            mpz_class g = d.DecDecode(e.k.sk, e.c);
            if (g != e.z) viol(std::string("int-roundtrip:") + modes[m], std::string(when) + " branch " + std::to_string(e.b) + " " + rm + ": " + hex(e.z) + " decrypts to " + hex(g) + " from " + ctstr(e.c));
            if (d.decode(d.Dec(e.k.sk, e.c)) != g) viol("decode-agrees", hex(g));
        } else {
            POINT g = d.Dec(e.k.sk, e.c);
            if (!eqp(g, e.p) || !g.isValid()) viol(std::string("point-roundtrip:") + modes[m], std::string(when) + " branch " + std::to_string(e.b) + " " + rm + ": " + pstr(e.p) + " decrypts to " + pstr(g));
        }
        if (!eqp(before.u, e.c.u) || !eqp(before.mv, e.c.mv)) viol("ciphertext-changed", "by decryption");
        evald(hc(e.c));
    };
    for (int n = 0; n < 8; n++) {
        if (keys.empty() || r.coin(1, 2)) {
            branch_t b = r.coin() ? b0 : b1;
            step("keygen");
            keypair_t k = o[r.below(o.size())]->KeyGen(b);
            if (!k.pk.g.isValid() || !k.pk.h.isValid()) viol("key-valid", pstr(k.pk.g));
            keys.push_back({k, b});
        }
        auto kb = r.pick(keys);
        Pending e; e.k = kb.first; e.b = kb.second; e.isint = r.coin();
        auto& enc = *o[r.below(o.size())];
        step("enc");
        pkey_t pk = e.k.pk;
        if (e.isint) { e.z = anInt(r); e.c = enc.Enc(pk, e.b, e.z); seen("message:int"); }
        else { e.p = aPoint(r); e.c = enc.Enc(pk, e.b, e.p); seen(e.p.isInf() ? "message:inf" : "message:point"); }
        if (!e.c.u.isValid() || !e.c.mv.isValid()) viol("ciphertext-valid", ctstr(e.c));
        if (!(pk == e.k.pk)) viol("key-changed", "by encryption");
        seen(e.b == b0 ? "branch:0" : "branch:1");
        verify(e, "at once");
        q.push_back(e);
        if (n == 0) sample(modes[m], std::string("branch ") + (e.b == b0 ? "0" : "1") + " " + ctstr(e.c));
    }
    for (auto& e : q) verify(e, "later");
}

static void encoding(uint64_t i, Rng& r, const DME_DDH& d, const mpz_class& z) {
    step("encode " + hex(z));
    POINT p = d.encode(z);
    ref::Pt t(Secp::G());
    if (p.isInf() || !p.isValid() || !toRef<Secp>(p, t)) { viol("encode-valid", hex(z) + " encodes to " + pstr(p)); return; }
    if (d.decode(p) != z) viol("encode-decode", hex(z) + " encodes to " + pstr(p) + ", which decodes to " + hex(d.decode(p)));
    DME_DDH* other = nullptr; (void)other; (void)i; (void)r;
    evald(hz(z)); seen("encoding");
}

template <class S> static void eqcheck(const char* what, const std::vector<S>& same, const std::vector<S>& others) {
    for (auto& a : same) for (auto& b : same) if (!(a == b)) viol(std::string("equal:") + what, "equal components, compares unequal");
    for (size_t k = 0; k < others.size(); k++) {
        if (others[k] == same[0] || same[0] == others[k]) viol(std::string("unequal:") + what, "component variant " + std::to_string(k) + " compares equal");
        if (!(others[k] == others[k])) viol(std::string("equal:") + what, "not equal to itself");
        evald(hstr(what) + k + 7 * same.size());
    }
    S c = same[0];
    if (!(c == same[0])) viol(std::string("copy:") + what, "copy compares unequal");
    if (!others.empty()) { c = others[0]; if (!(c == others[0]) || c == same[0]) viol(std::string("assign:") + what, "assignment"); }
    seen(std::string("structs:") + what);
}

// integers with much in common, encrypted one after the other under one key and decrypted in another order
static void related(uint64_t i, Rng& r) {
    rmode(r.below(5), r.next());
    DME_DDH d(i & 1 ? dme::messy : dme::dec), e(d.crs);
    keypair_t k[2] = {d.KeyGen(b0), e.KeyGen(b1)};
    mpz_class base = anInt(r);
    struct E { mpz_class z; int b; ctxt_t c; };
    std::vector<E> v;
    for (int q = 0; q < 6; q++) {
        E x; x.z = q ? near(r, base, 246) : base; x.z %= encMax() + 1; x.b = r.below(2);
        encoding(i, r, d, x.z);
        x.c = (r.coin() ? d : e).Enc(k[x.b].pk, x.b ? b1 : b0, x.z);
        v.push_back(x);
    }
    r.shuffle(v);
    for (auto& x : v) {
        mpz_class g = (r.coin() ? d : e).DecDecode(k[x.b].sk, x.c);
        if (g != x.z) viol("int-roundtrip:related", hex(x.z) + " decrypts to " + hex(g));
        evald(hc(x.c)); seen("related");
    }
}

static void structs(uint64_t, Rng& r) {
    CURVE ca, cb;
    auto pt = [&](int k) { return ref::Pt::gen(Secp::G(), ref::Bn((long)k)); };
    auto P = [&](int k, CURVE* c) { return toLib<Secp>(pt(k), c); };
    int a = 1 + r.below(50), b = 1 + r.below(50), c = 1 + r.below(50), d = 1 + r.below(50);
    int x = 60 + r.below(40);
    auto mk = [&](int A, int B, int C, int D, CURVE* cu) { return crs_ddh_t(P(A, cu), P(B, cu), P(C, cu), P(D, cu)); };
    POINT inf;
    {
        std::vector<crs_ddh_t> o{mk(x, b, c, d, &ca), mk(a, x, c, d, &ca), mk(a, b, x, d, &ca), mk(a, b, c, x, &ca), mk(-a, b, c, d, &ca), mk(a, b, c, -d, &ca),
                                 mk(a, -b, c, d, &cb), mk(a, b, -c, d, &cb), crs_ddh_t(inf, P(b, &ca), P(c, &ca), P(d, &ca)), crs_ddh_t(P(a, &ca), P(b, &ca), P(c, &ca), inf), crs_ddh_t()};
        if (a != b) o.push_back(mk(b, a, c, d, &ca));
        if (c != d) o.push_back(mk(a, b, d, c, &ca));
        if (a != c || b != d) o.push_back(mk(c, d, a, b, &ca));
        crs_ddh_t s = mk(a, b, c, d, &ca); crs_ddh_t u = s; u.updateCurve(&cb);
        eqcheck<crs_ddh_t>("crs", {s, mk(a, b, c, d, &cb), u}, o);
    }
    {
        std::vector<pkey_t> o{pkey_t(P(x, &ca), P(b, &ca)), pkey_t(P(a, &ca), P(x, &ca)), pkey_t(P(-a, &ca), P(b, &ca)), pkey_t(P(a, &ca), P(-b, &cb)), pkey_t(inf, P(b, &ca)), pkey_t(P(a, &ca), inf), pkey_t()};
        if (a != b) o.push_back(pkey_t(P(b, &ca), P(a, &ca)));
        eqcheck<pkey_t>("pkey", {pkey_t(P(a, &ca), P(b, &ca)), pkey_t(P(a, &cb), P(b, &ca))}, o);
    }
    {
        std::vector<ctxt_t> o{ctxt_t(P(x, &ca), P(b, &ca)), ctxt_t(P(a, &ca), P(x, &ca)), ctxt_t(P(-a, &ca), P(b, &ca)), ctxt_t(P(a, &ca), P(-b, &cb)), ctxt_t(inf, P(b, &ca)), ctxt_t(P(a, &ca), inf), ctxt_t()};
        if (a != b) o.push_back(ctxt_t(P(b, &ca), P(a, &ca)));
        eqcheck<ctxt_t>("ctxt", {ctxt_t(P(a, &ca), P(b, &ca)), ctxt_t(P(a, &cb), P(b, &ca))}, o);
    }
    {
        pkey_t k(P(a, &ca), P(b, &ca)), k2(P(a, &cb), P(b, &cb));
        eqcheck<keypair_t>("keypair", {keypair_t(k, FIELD_n(c)), keypair_t(k2, FIELD_n(mpz_class(c) + spool().n))},
            {keypair_t(k, FIELD_n(x)), keypair_t(k, FIELD_n(-c)), keypair_t(pkey_t(P(x, &ca), P(b, &ca)), FIELD_n(c)), keypair_t(pkey_t(P(a, &ca), P(x, &ca)), FIELD_n(c)), keypair_t()});
    }
    {
        auto F = [](long v) { return FIELD_n(mpz_class(v)); };
        std::vector<td_messy_ddh_t> o{td_messy_ddh_t(F(x), F(b)), td_messy_ddh_t(F(a), F(x)), td_messy_ddh_t(F(-a), F(b))};
        if (a != b) o.push_back(td_messy_ddh_t(F(b), F(a)));
        eqcheck<td_messy_ddh_t>("td_messy", {td_messy_ddh_t(F(a), F(b)), td_messy_ddh_t(F(a), F(b))}, o);
        eqcheck<td_dec_ddh_t>("td_dec", {td_dec_ddh_t(F(a)), td_dec_ddh_t(FIELD_n(mpz_class(a) - spool().n))}, {td_dec_ddh_t(F(x)), td_dec_ddh_t(F(-a))});
    }
    // real ciphertexts and keys of one scheme
    rh::set(rh::SMALL, r.next(), 64);
    DME_DDH s(r.coin() ? messy : dec);
    keypair_t k = s.KeyGen(b0), k2 = s.KeyGen(b0);
    ctxt_t e1 = s.Enc(k.pk, b0, mpz_class(a)), e2 = s.Enc(k.pk, b0, mpz_class(a)), e3 = e1;
    if (e1 == e2) viol("unequal:ctxt", "two encryptions compare equal");
    if (!(e1 == e3)) viol("equal:ctxt", "copy compares unequal");
    if (k == k2 || k.pk == k2.pk) viol("unequal:keypair", "two keys compare equal");
    if (s.crs == DME_DDH(messy).crs) viol("unequal:crs", "two CRSs compare equal");
}

// Ciphertexts that share parts: every (u, mv) opens under sk to mv - u*sk, whatever was opened before it. They are what
// encryptions with other exponents look like: opposite, doubled, equal components, secret keys near one another.
static void crafted(uint64_t, Rng& r) {
    rmode(2, r.next());
    DME_DDH d(r.coin() ? messy : dec), e(d.crs);
    branch_t b = r.coin() ? b1 : b0;
    keypair_t k = d.KeyGen(b), l = d.KeyGen(b);
    ref::Bn n = ref::from(spool().n);
    auto S = [&](const mpz_class& v) { return ref::mod(ref::from(v), n); };
    mpz_class s = k.sk.getRawValue();
    std::vector<mpz_class> sks{s, spool().n - s, l.sk.getRawValue(), near(r, s, 255) % spool().n, s ^ (mpz_class(1) << (64 + r.below(100))), mpz_class(r.below(3))};
    ctxt_t c = d.Enc(k.pk, b, aPoint(r)), c2 = d.Enc(k.pk, b, aPoint(r));
    std::vector<ref::Pt> us{R(c.u), -R(c.u), R(c.u).dbl(), R(c2.u), R(c.mv), ref::Pt(Secp::G())}, ms{R(c.mv), -R(c.mv), R(c2.mv), R(c.u), -R(c.u), ref::Pt(Secp::G())};
    for (auto& v : sks) ms.push_back(us[0] * S(v));                        // decrypts to infinity
    size_t pu = 0, pk = 0;
    for (int q = 0; q < 24; q++) {
        // half of the time one thing changes, the rest stays
        size_t iu = q && r.coin() ? pu : r.below(us.size()), ik = q && r.coin(2, 3) ? pk : r.below(sks.size()), im = r.below(ms.size());
        if (r.coin(1, 4)) iu = pu ^ (pu < 2);
        pu = iu; pk = ik;
        auto& o = r.coin() ? d : e;
        ctxt_t x(toLib<Secp>(us[iu], o.getCurve()), toLib<Secp>(ms[im], o.getCurve()));
        POINT g = o.Dec(skey_t(sks[ik]), x);
        ref::Pt want = ms[im] + -(us[iu] * S(sks[ik]));
        if (!same<Secp>(g, want)) viol("opened", "u " + std::to_string(iu) + " mv " + std::to_string(im) + " key " + std::to_string(ik) + ": " + ctstr(x) + " opens under " + hex(sks[ik]) + " to " + pstr(g));
        evald(hc(x)); seen("crafted");
    }
}

int main(int argc, char** argv) {
    section("roundtrip", 480, 24000, roundtrip);
    static DME_DDH* d = nullptr;
    auto D = [&]() -> const DME_DDH& { if (!d) { rh::set(rh::SEEDED, 1); d = new DME_DDH(messy); } return *d; };
    section("encode-small", 3000, 100000, [&](uint64_t i, Rng& r) { encoding(i, r, D(), i); encoding(i, r, D(), encMax() - i); });
    section("encode-edges", 247, 247, [&](uint64_t i, Rng& r) { for (int k = -2; k <= 2; k++) { mpz_class z = (mpz_class(1) << i) + k; if (z >= 0 && z <= encMax()) encoding(i, r, D(), z); } });
    section("encode-random", 12000, 600000, [&](uint64_t i, Rng& r) { encoding(i, r, D(), anInt(r)); });
    section("encode-long-search", runs10().size(), runs10().size(), [&](uint64_t i, Rng& r) {
        mpz_class z(runs10()[i], 16);
        encoding(i, r, D(), z); seen("encoding:long-search");
        for (int k = 1; k <= 10; k++) { mpz_class y = z << k; if (y <= encMax()) { encoding(i, r, D(), y); seen("encoding:long-search"); } }     // a search that starts at the same abscissa if fewer than ten bits are reserved
        for (int b = 0; b < 2; b++) { rmode(2, r.next()); keypair_t k = d->KeyGen(b ? b1 : b0); if (d->DecDecode(k.sk, d->Enc(k.pk, b ? b1 : b0, z)) != z) viol("int-roundtrip:long-search", hex(z)); }
    });
    section("related", 160, 8000, related);
    section("crafted", 160, 8000, crafted);
    section("structs", 200, 4000, structs);
    return run(argc, argv);
}
