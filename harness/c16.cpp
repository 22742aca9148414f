// C16: integers and byte strings.
#include "bytelib.hpp"
#include "utilities.hpp"
#include <malloc.h>
using namespace mon;
static mpz_class shaped(Rng& r, size_t i) {
    if (i < 600) return mpz_class((unsigned long)i);
    if (i < 3000) { mpz_class v = mpz_class(1) << (i - 600); return i % 3 == 0 ? v : i % 3 == 1 ? mpz_class(v - 1) : mpz_class(v + 1); }
    return toInt(content(r, aLen(r)));
}
int main(int argc, char** argv) {
    section("big", 6, 24, [](uint64_t i, Rng& r) {                        // a length that needs a third or a fourth byte
        static const size_t L[] = {0x10000, 0x100000, 0x1000000}; size_t n = L[i % 3] - 3 + r.below(7);
        Bytes b(n); for (auto& c : b) c = (uint8_t)r.next(); if (n) b[0] |= 1;
        if (i % 2) for (size_t k = 1; k < n; k++) if (r.below(3) == 0) b[k] = 0;
        mpz_class v = utils::setRawMpz(b.data(), n);
        if (v != toInt(b)) viol("import", std::to_string(n) + " bytes");
        uint8_t* p; size_t l = utils::getRawMpz(&p, v);
        if (l != n || memcmp(p, b.data(), n)) viol("export-bytes", std::to_string(n) + " bytes became " + std::to_string(l));
        free(p); evald(hz(v)); seen("big");
    });
    section("integers", 24000, 1500000, [](uint64_t i, Rng& r) {
        mpz_class n = shaped(r, i), keep = n;
        uint8_t* p = (uint8_t*)0x1;
        step("export " + hex(n).substr(0, 120));
        size_t len = utils::getRawMpz(&p, n);
        Bytes want = be(n);
        if (len != want.size()) viol("export-length", hex(n) + ": length " + std::to_string(len) + ", expected " + std::to_string(want.size()));
        else if (len && memcmp(p, want.data(), len)) viol("export-bytes", hex(n) + " -> " + hexs(Bytes(p, p + len)));
        if (p && len && malloc_usable_size(p) < len) viol("export-capacity", hex(n));
        if (n != keep) viol("export-changes-input", hex(keep));
        // a second export and an import do not disturb the first buffer; writing to it disturbs nobody
        mpz_class other = r.coin() ? near(r, n, 8 * want.size() + 8) : shaped(r, r.below(4000));
        uint8_t* q; size_t l2 = utils::getRawMpz(&q, other);
        uint8_t* s; size_t l3 = utils::getRawMpz(&s, n);
        if (len == want.size() && len && memcmp(p, want.data(), len)) viol("export-shared", hex(n) + " then " + hex(other));
        if (len) memset(p, 0xa5, len);
        Bytes w2 = be(other);
        if (l2 != w2.size() || (l2 && memcmp(q, w2.data(), l2))) viol("export-shared", hex(other) + " after " + hex(n));
        if (n != keep || other != toInt(w2)) viol("export-aliases-integer", hex(keep));
        step("import");
        mpz_class back = utils::setRawMpz(s, l3);
        if (back != n) viol("roundtrip", hex(n) + " -> " + hex(back));
        if (l3 != want.size() || (l3 && memcmp(s, want.data(), l3))) viol("import-writes", hex(n));
        if (l3) memset(s, 0x5a, l3);
        if (back != n) viol("import-aliases-buffer", hex(n));
        free(p); free(q); free(s);
        if (back != keep || other != toInt(w2)) viol("import-aliases-buffer", hex(n));
        evald(hz(n)); seen("integer"); if (n == 0) seen("integer:zero");
        sample("integer", hex(n) + " " + std::to_string(len) + " bytes");
    });
    section("strings", 24000, 1500000, [](uint64_t i, Rng& r) {
        size_t n = i < 2000 ? i / 4 : aLen(r);
        Bytes b = content(r, n);
        size_t z = r.coin(1, 3) ? r.below(12) : 0;
        b.insert(b.begin(), z, 0);
        uint8_t* buf = (uint8_t*)malloc(b.size() ? b.size() : 1);            // exact size, so that instrumented builds see over-reads
        if (!b.empty()) memcpy(buf, b.data(), b.size());
        step("import " + hexs(b));
        mpz_class v = utils::setRawMpz(buf, b.size());
        if (v != toInt(b)) viol("import", hexs(b) + " -> " + hex(v));
        if (!b.empty() && memcmp(buf, b.data(), b.size())) viol("import-writes", hexs(b));
        free(buf);
        uint8_t* p; size_t len = utils::getRawMpz(&p, v);
        size_t lead = 0; while (lead < b.size() && !b[lead]) lead++;
        if (len != b.size() - lead || (len && memcmp(p, b.data() + lead, len))) viol("export-after-import", hexs(b));
        free(p);
        evald(hb(b)); seen("string"); if (lead) seen("string:leading-zeros"); if (b.empty()) seen("string:empty");
    });
    section("huge", 16, 600, [](uint64_t i, Rng& r) {
        size_t n = 4000 << (i % 9); Bytes b(n + r.below(100)); for (auto& c : b) c = (uint8_t)r.next(); b[0] |= 1;
        mpz_class v = utils::setRawMpz(b.data(), b.size());
        uint8_t* p; size_t len = utils::getRawMpz(&p, v);
        if (len != b.size() || memcmp(p, b.data(), len)) viol("huge", std::to_string(b.size()) + " bytes");
        if (v != toInt(b)) viol("import", "huge");
        free(p); evald(hb(b)); seen("huge");
    });
    return run(argc, argv);
}
