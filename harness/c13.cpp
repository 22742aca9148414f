// C13: PUDA verification.
#include "pudalib.hpp"
using namespace mon;
int main(int argc, char** argv) {
    section("verify", 240, 8000, [](uint64_t i, Rng& r) {
        rh::set(i % 3 ? rh::SMALL : rh::SEEDED, r.next(), 80);
        puda::Puda p, other;
        size_t n = 1 + r.below(8);
        Keys k = setup(p, n), o = setup(other, n);
        for (int q = 0; q < 3; q++) {
            int t = aTime(r); if (t == 0) t = 7;
            auto m = msgs(r, n, r.below(r.coin(1, 4) ? 2000 : 60));
            puda::ctxt_v_t c; puda::tag_v_t g;
            for (size_t j = 0; j < n; j++) { c.push_back(p.Enc(k.ek[j], m[j], t)); g.push_back(p.Tag(k.sk[j], m[j], t)); }
            auto res = p.Agg(k.ak, c, g, t);
            std::string d = std::to_string(n) + " users t=" + std::to_string(t) + " sum " + std::to_string(res.first);
            step("verify honest");
            if (!p.Verify(k.vk, res.first, res.second, t)) viol("honest-rejected", d);
            evald(hp(res.second)); seen("honest");
            sample("honest", d);
            auto rej = [&](const char* key, bool accepted, const std::string& what) {
                seen(std::string("forged:") + key); evald(hstr(what, hp(res.second)));
                if (accepted) viol(std::string("accepted:") + key, d + " " + what);
            };
            for (int s : {1, -1, 256, 32768}) rej("wrong-sum", p.Verify(k.vk, (uint16_t)(res.first + s), res.second, t), "sum changed by " + std::to_string(s));
            puda::POINT1 gen = ecc::Curve_secp256r1().getDefaultGen(), e = p.Enc(k.ek[0], 3, t);
            rej("foreign-tag", p.Verify(k.vk, res.first, res.second + e, t), "tag plus a ciphertext");
            rej("foreign-tag", p.Verify(k.vk, res.first, puda::POINT1(), t), "tag replaced by infinity");
            if (n > 1) rej("foreign-tag", p.Verify(k.vk, res.first, g[0], t), "one user's tag instead of all");
            rej("wrong-time", p.Verify(k.vk, res.first, res.second, t == 2147483647 ? t - 1 : t + 1), "presented for the next timestamp");
            rej("wrong-key", p.Verify(o.vk, res.first, res.second, t), "checked against another setup's key");
        }
    });
    // sums over the whole range: the aggregate tag is the sum of the tags (C12), so that no discrete logarithm has to be searched for
    section("whole-range", 480, 20000, [](uint64_t i, Rng& r) {
        static const uint32_t S[] = {0, 1, 2, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 32769, 49152, 65279, 65280, 65534, 65535};
        rh::set(i % 3 ? rh::SMALL : rh::SEEDED, r.next(), 80);
        puda::Puda p; size_t n = 1 + r.below(40);
        Keys k = setup(p, n);
        for (int q = 0; q < 4; q++) {
            int t = aTime(r); uint32_t s = r.coin() ? S[r.below(18)] : r.below(65536);
            auto m = msgs(r, n, s); puda::tag_t g;
            for (size_t j = 0; j < n; j++) g += p.Tag(k.sk[j], m[j], t);
            step("verify sum " + std::to_string(s));
            if (!p.Verify(k.vk, (uint16_t)s, g, t)) viol("honest-rejected", std::to_string(n) + " users t=" + std::to_string(t) + " sum " + std::to_string(s));
            evald(hp(g)); seen("honest"); seen(s > 32767 ? "honest:large-sum" : "honest:small-sum");
        }
    });
    return run(argc, argv);
}
