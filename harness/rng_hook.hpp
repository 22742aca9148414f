// Control over the library's randomness from outside: the executable's definitions of GMP's random
// functions take precedence over libgmp's. PASS hands every call to GMP, SEEDED replaces the values by a
// reproducible full-range stream, EDGE mixes in the ends of the range of a draw (bit strings of ones and zeros), SMALL by scalars of `small_bits` bits (nonzero; the protocols must be
// correct for every draw, and small exponents are several times faster), HOSTILE mixes in edge values.
#pragma once
#include "mon.hpp"
namespace rh {
enum Mode { PASS, SEEDED, SMALL, HOSTILE, EDGE };
void set(Mode m, uint64_t seed, unsigned small_bits = 48);
void recordSeeds(std::vector<mpz_class>* v);   // this thread's seeds are noted instead of used (seeding a generator is slow)
void shortKeys(bool on);          // whether bit strings are sometimes drawn with leading zeros (default: yes, except in PASS and SEEDED)
void recordSizes(std::vector<unsigned>* v);    // the width in bits of every value asked for by this thread is noted
uint64_t draws();                 // number of random values the library asked for so far (this thread)
void twist(long draw, unsigned bit);   // until the next set(): the draw-th value (from 0) is delivered with that bit inverted

// Which outputs of an operation do not depend on some bit of its randomness? prepare() runs under a fixed stream, op()
// returns (name, value) pairs; each bit of a draw that matters has to show in the value. A name may end in @n: the
// value is drawn from n bits and only those are tried. A bit counts as ignored only if no draw of any of `tries`
// streams brings it out.
typedef std::vector<std::pair<std::string, std::string>> Outputs;
struct Width {
    uint64_t runs = 0, draws = 0, tested = 0;
    template <class P, class O, class B> void operator()(mon::Rng& r, unsigned bit, P prepare, O op, B bad, int tries = 10) {
        std::map<std::string, int> left; bool first = true;
        for (int q = 0; q < tries; q++) {
            uint64_t s0 = r.next(), s1 = r.next();
            auto once = [&](long k) {
                set(SEEDED, s0); prepare(); set(SEEDED, s1);
                uint64_t before = rh::draws();
                if (k >= 0) twist(k, bit);
                Outputs o = op(); runs++;
                return std::make_pair(o, rh::draws() - before);
            };
            auto base = once(-1);
            if (first) for (auto& e : base.first) {
                size_t a = e.first.find('@');
                if (a == std::string::npos || bit < (unsigned)atoi(e.first.c_str() + a + 1)) left[e.first] = 1, tested++;
            }
            first = false;
            for (uint64_t k = 0; k < base.second && !left.empty(); k++, draws++) {
                auto o = once((long)k).first;
                for (size_t i = 0; i < o.size() && i < base.first.size(); i++) if (o[i] != base.first[i]) left.erase(base.first[i].first);
            }
            if (left.empty()) return;
        }
        for (auto& e : left) bad(e.first, bit);
    }
};
// How many bits of randomness are behind the outputs of an operation? Every draw in turn is delivered with one bit
// inverted; the widths of the draws that show in any output add up to what the outputs can contain. Values said to be
// drawn independently need their widths together (less than one value may be missing).
struct Budget {
    uint64_t runs = 0, measured = 0;
    template <class P, class O, class B> void operator()(mon::Rng& r, unsigned need, P prepare, O op, B bad) {
        uint64_t s0 = r.next(), s1 = r.next(); std::vector<unsigned> sz;
        auto once = [&](long k, unsigned bit, std::vector<unsigned>* note) {
            set(SEEDED, s0); prepare(); set(SEEDED, s1);
            if (k >= 0) twist(k, bit);
            recordSizes(note); Outputs o = op(); recordSizes(nullptr); runs++;
            return o;
        };
        Outputs base = once(-1, 0, &sz);
        if (sz.empty()) { mon::seen("budget:unreadable"); return; }
        uint64_t have = 0;
        for (size_t k = 0; k < sz.size(); k++) for (int q = 0; q < 3; q++) {
            unsigned w = sz[k] > 8 ? sz[k] - 8 : sz[k];
            if (!w || once((long)k, q == 2 ? 0 : (unsigned)r.below(w), nullptr) != base) { have += sz[k]; break; }
        }
        measured++;
        if (getenv("BUDGET")) fprintf(stderr, "BUDGET %u %llu\n", need, (unsigned long long)have);
        if (have + 100 < (uint64_t)need) bad("at most " + std::to_string(have) + " bits of randomness are behind " + std::to_string(need) + " bits");
    }
};
inline unsigned aBit(mon::Rng& r) {
    static const unsigned B[] = {0, 1, 7, 8, 15, 16, 31, 32, 47, 63, 64, 65, 79, 95, 96, 111, 126, 127, 128, 129, 159, 160, 175, 191, 192, 207, 223, 224, 239, 247, 252};
    return r.coin(1, 3) ? (unsigned)r.below(253) : B[r.below(sizeof B / sizeof *B)];
}
}
