// C15: AES-CTR encryption of integers.
#include "bytelib.hpp"
#include "crc.hpp"
#include "aes.hpp"
#include <openssl/evp.h>
using namespace mon;

static Bytes ctr(const Bytes& key16, const Bytes& iv16, const Bytes& m) {   // the reference: CTR built from single AES blocks
    Bytes out(m.size()), c = iv16;
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(x, EVP_aes_128_ecb(), 0, key16.data(), 0);
    EVP_CIPHER_CTX_set_padding(x, 0);
    for (size_t i = 0; i < m.size(); i += 16) {
        uint8_t ks[32]; int l;
        EVP_EncryptUpdate(x, ks, &l, c.data(), 16);
        for (size_t j = i; j < m.size() && j < i + 16; j++) out[j] = m[j] ^ ks[j - i];
        for (int j = 15; j >= 0 && ++c[j] == 0; j--) ;
    }
    EVP_CIPHER_CTX_free(x);
    return out;
}
static Bytes pad16(const mpz_class& k) { Bytes b = be(k); Bytes r(16 - b.size()); r.insert(r.end(), b.begin(), b.end()); return r; }
static mpz_class aKey(Rng& r) {
    switch (r.below(8)) {
        case 0: return r.below(3);
        case 1: return (mpz_class(1) << 128) - 1 - r.below(3);
        case 2: return mpz_class(1) << r.below(128);
        case 3: return r.bits(1 + r.below(128));
        case 4: return r.bits(8 * (1 + r.below(15)));
        case 5: return r.bits(128) & ((mpz_class(1) << 128) - 256);
        default: return r.bits(128);
    }
}
static Bytes iv0(16);
static mpz_class low(const mpz_class& c, size_t bytes) { mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), c.get_mpz_t(), 8 * bytes); return r; }
// message whose ciphertext under key begins with z zero bytes
static mpz_class zeroCipher(Rng& r, const mpz_class& key, size_t len, size_t z) {
    Bytes m = ctr(pad16(key), iv0, Bytes(len));
    for (size_t i = z; i < len; i++) m[i] = (uint8_t)r.next();
    return toInt(m);
}
static mpz_class aMsg(Rng& r, const mpz_class& key) {
    size_t n = aLen(r);
    if (r.coin(1, 8)) { seen("message:zero-ciphertext"); return zeroCipher(r, key, 1 + n % 300, r.below(4) + (r.coin(1, 5) ? 300 : 0)); }
    if (n > 128) seen("message:long");
    return toInt(content(r, n));
}
static std::string kstr(const mpz_class& k, const mpz_class& m) { return "key " + hex(k) + " message " + hexs(be(m)) + " iv " + hexs(iv0); }
static void one(Rng& r, const aes::AES& a, const mpz_class& key, const mpz_class& m) {
    step("encrypt " + kstr(key, m));
    mpz_class k2 = key, m2 = m;
    mpz_class c = a.encrypt(key, m);
    mpz_class d = a.decrypt(key, c);
    if (d != m) viol("roundtrip", kstr(key, m) + " -> " + hexs(be(c)) + " -> " + hexs(be(d)));
    Bytes b = be(m), ref = ctr(pad16(key), iv0, b);
    if (low(c, b.size()) != toInt(ref)) viol("not-ctr", kstr(key, m) + " -> " + hexs(be(c)) + ", CTR gives " + hexs(ref));
    if (key != k2 || m != m2) viol("input-changed", "");
    if (a.encrypt(key, m) != c) viol("not-a-function", kstr(key, m));
    evald(hz(c, hz(key))); seen("roundtrip"); seen(b.size() <= 16 ? "length:<=16" : b.size() <= 128 ? "length:<=128" : "length:>128");
    if (be(key).size() < 16) seen("key:short");
    if (m == 0) seen("message:zero");
    sample("encrypt", kstr(key, m) + " -> " + hexs(be(c)));
    step("encryptCRC " + kstr(key, m));
    c = a.encryptCRC(key, m);
    d = a.decryptCRC(key, c);
    if (d != m) viol("crc-roundtrip", kstr(key, m) + " -> " + hexs(be(c)) + " -> " + hexs(be(d)));
    Bytes f = b; uint32_t s = crcRef(0, b.data(), b.size());
    for (int i = 0; i < 4; i++) f.push_back((uint8_t)(s >> 8 * i));
    f = be(toInt(f));
    if (low(c, f.size()) != toInt(ctr(pad16(key), iv0, f))) viol("crc-not-ctr", kstr(key, m) + " -> " + hexs(be(c)));
    mpz_class pl = a.decrypt(key, c);
    if (pl != toInt(f)) viol("crc-plain", kstr(key, m) + " decrypts without the checksum to " + hexs(be(pl)));
    evald(hz(c, hz(key)) ^ 1); seen("crc-roundtrip");
}
static void setIV(const Bytes& b) { iv0 = b; aes::AES::init(std::string((const char*)b.data(), 16)); }
int main(int argc, char** argv) {
    section("lengths", 701, 7010, [](uint64_t i, Rng& r) {            // every length up to 700 bytes
        i %= 701;
        setIV(Bytes(16)); aes::AES a;
        for (int q = 0; q < 3; q++) { mpz_class k = aKey(r); Bytes b = content(r, i); if (i && !q) b[0] |= 1; one(r, a, k, toInt(b)); }
    });
    section("messages", 5000, 400000, [](uint64_t i, Rng& r) {
        Bytes iv(16);
        if (i % 3 == 1) for (auto& c : iv) c = (uint8_t)r.next();
        if (i % 3 == 2) { for (size_t k = r.below(16); k < 16; k++) iv[k] = 0xff; if (r.coin()) iv[15] -= r.below(40); }    // counters that carry
        setIV(iv); if (i % 3) seen("iv:configured");
        if (r.coin(1, 4)) { aes::AES::init(); seen("iv:kept"); }          // init without an argument keeps what is configured
        aes::AES a, b;
        mpz_class k = aKey(r); one(r, a, k, aMsg(r, k));
        mpz_class k2 = aKey(r), m = aMsg(r, k2), m2 = aMsg(r, k);
        mpz_class c1 = a.encrypt(k, m), c2 = b.encryptCRC(k2, m), c3 = a.encryptCRC(k, m2);   // several alive at once
        if (b.decrypt(k, c1) != m || a.decryptCRC(k2, c2) != m || b.decryptCRC(k, c3) != m2) viol("interleaved", kstr(k, m));
        evald(hz(c1, hz(c2)));
    });
    section("big", 3, 12, [](uint64_t i, Rng& r) {                        // a length that needs a third or a fourth byte
        Bytes iv(16); for (size_t k = 13; k < 16; k++) iv[k] = 0xff;
        setIV(iv); aes::AES a;
        static const size_t L[] = {0x10000, 0x100000, 0x1000000}; size_t n = L[i % 3] - 2 + r.below(5);
        mpz_class k = aKey(r); Bytes b(n); for (auto& c : b) c = (uint8_t)r.next(); b[0] |= 1;
        mpz_class m = toInt(b), c = a.encrypt(k, m), d = a.encryptCRC(k, m);
        if (a.decrypt(k, c) != m) viol("roundtrip", "a message of " + std::to_string(n) + " bytes");
        if (a.decryptCRC(k, d) != m) viol("crc-roundtrip", "a message of " + std::to_string(n) + " bytes");
        if (low(c, n) != toInt(ctr(pad16(k), iv0, b))) viol("not-ctr", "a message of " + std::to_string(n) + " bytes");
        mpz_class x = mpz_class(1 + r.below(255)) << 8 * r.below(n);
        if (a.decryptCRC(k, d ^ (x << 32)) != 0) viol("corruption-accepted", "in a message of " + std::to_string(n) + " bytes");
        evald(hz(c)); seen("big");
    });
    section("related", 1500, 60000, [](uint64_t i, Rng& r) {               // one object, keys and messages with much in common
        setIV(i % 3 ? Bytes(16) : content(r, 16)); aes::AES a;
        mpz_class k = aKey(r), m = r.coin(1, 3) ? aMsg(r, k) : r.bits(8 * (1 + r.below(40)));
        if (be(m).size() > 3000) m = r.bits(400);
        struct E { mpz_class k, m, c; bool crc; };
        std::vector<E> v;
        for (int q = 0; q < 6; q++) {
            E e; e.k = q % 2 ? k : low(near(r, k, 128), 16); e.m = q < 2 ? m : near(r, m, 8 * be(m).size() + 8); e.crc = r.coin();
            one(r, a, e.k, e.m);
            e.c = e.crc ? a.encryptCRC(e.k, e.m) : a.encrypt(e.k, e.m);
            v.push_back(e);
        }
        r.shuffle(v);
        for (auto& e : v) {
            mpz_class d = e.crc ? a.decryptCRC(e.k, e.c) : a.decrypt(e.k, e.c);
            if (d != e.m) viol("interleaved", kstr(e.k, e.m) + " among related keys and messages");
            if (e.crc) for (auto& f : v) if (f.k != e.k && e.m != 0 && be(e.m).size() >= 8) {
                mpz_class x = a.decryptCRC(f.k, e.c);
                if (x != 0) viol("wrong-key-opens", kstr(e.k, e.m) + " opened by " + hex(f.k) + " as " + hexs(be(x)));
            }
            seen("related");
        }
    });
    section("zero-ciphertexts", 2000, 100000, [](uint64_t i, Rng& r) {
        setIV(Bytes(16)); aes::AES a;
        mpz_class k = aKey(r);
        one(r, a, k, zeroCipher(r, k, 1 + r.below(40), 1 + r.below(41)));
        seen("message:zero-ciphertext");
    });
    section("wrong-key", 12000, 60000, [](uint64_t i, Rng& r) {
        setIV(Bytes(16)); aes::AES a;
        mpz_class k = aKey(r), k2 = r.coin() ? k ^ (mpz_class(1) << r.below(128)) : aKey(r), m = i % 2 ? r.bits(128) : aMsg(r, k);
        if (k == k2 || m == 0) return;
        if (r.coin(1, 6)) { k2 = k << 8 * r.below(8); mpz_fdiv_r_2exp(k2.get_mpz_t(), k2.get_mpz_t(), 128); if (k == k2) return; }
        step("wrong key " + hex(k2) + " for " + kstr(k, m));
        mpz_class d = a.decryptCRC(k2, a.encryptCRC(k, m));
        if (d != 0) viol("wrong-key-opens", kstr(k, m) + " opened by " + hex(k2) + " as " + hexs(be(d)));
        evald(hz(k2, hz(m))); seen("wrong-key");
    });
    section("corrupted", 12000, 600000, [](uint64_t i, Rng& r) {
        setIV(Bytes(16)); aes::AES a;
        mpz_class k = aKey(r), m = i % 2 ? r.bits(128) : toInt(content(r, aLen(r) % 652)), c = a.encryptCRC(k, m), f = appendCRC(m), x = 0;
        size_t L = be(f).size();
        if (L < 5) return;
        if (r.coin(1, 3)) { x = r.bits(32) << (8 * r.below(L - 3)); seen("corrupted:burst"); }
        else { size_t n = 1 + r.below(5); for (size_t q = 0; q < n; q++) mpz_setbit(x.get_mpz_t(), r.below(8 * L)); seen("corrupted:bits"); }
        if (x == 0) return;
        step("corrupted " + kstr(k, m));
        mpz_class d = a.decryptCRC(k, c ^ x);
        if (d != 0) viol("corruption-accepted", kstr(k, m) + " ciphertext changed by " + hex(x) + " decrypts to " + hexs(be(d)));
        evald(hz(x, hz(c)));
    });
    return run(argc, argv);
}
