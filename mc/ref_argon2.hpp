// Reference BLAKE2b (RFC 7693) and Argon2 (RFC 9106), independent of the code under test.
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>

namespace ref {

struct Blake2b {
    uint64_t h[8], t0 = 0, t1 = 0;
    uint8_t buf[128];
    size_t n = 0, out;
    static const uint64_t *iv() {
        static const uint64_t v[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
                                      0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
        return v;
    }
    explicit Blake2b(size_t outlen): out(outlen) {
        for(int i = 0; i < 8; i++) h[i] = iv()[i];
        h[0] ^= 0x01010000 ^ outlen;
    }
    static uint64_t rotr(uint64_t x, int k) { return x >> k | x << (64 - k); }
    void compress(bool last) {
        static const uint8_t S[10][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
            {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8}, {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
            {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9}, {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
            {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
        uint64_t v[16], m[16];
        for(int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = iv()[i]; }
        v[12] ^= t0;
        v[13] ^= t1;
        if(last) v[14] = ~v[14];
        for(int i = 0; i < 16; i++) { m[i] = 0; for(int b = 7; b >= 0; b--) m[i] = m[i] << 8 | buf[8 * i + b]; }
        auto G = [&](int a, int b, int c, int d, uint64_t x, uint64_t y) {
            v[a] += v[b] + x; v[d] = rotr(v[d] ^ v[a], 32);
            v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 24);
            v[a] += v[b] + y; v[d] = rotr(v[d] ^ v[a], 16);
            v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 63);
        };
        for(int r = 0; r < 12; r++) {
            const uint8_t *s = S[r % 10];
            G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]); G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]]);
            G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]); G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for(int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    void add(const void *p, size_t len) {
        const uint8_t *b = (const uint8_t *) p;
        for(size_t i = 0; i < len; i++) {
            if(n == 128) { t0 += 128; compress(false); n = 0; }
            buf[n++] = b[i];
        }
    }
    void le32(uint32_t v) { uint8_t b[4] = {(uint8_t) v, (uint8_t) (v >> 8), (uint8_t) (v >> 16), (uint8_t) (v >> 24)}; add(b, 4); }
    std::vector<uint8_t> done() {
        t0 += n;
        while(n < 128) buf[n++] = 0;
        compress(true);
        std::vector<uint8_t> o;
        for(size_t i = 0; i < out; i++) o.push_back((uint8_t) (h[i / 8] >> 8 * (i % 8)));
        return o;
    }
};
// variable-length hash H'
inline std::vector<uint8_t> argon_hash(uint32_t outlen, const std::vector<uint8_t> &in) {
    auto first = [&](size_t n) { Blake2b b(n); b.le32(outlen); b.add(in.data(), in.size()); return b.done(); };
    if(outlen <= 64) return first(outlen);
    std::vector<uint8_t> out, v = first(64);
    uint32_t r = (outlen + 31) / 32 - 2;
    out.insert(out.end(), v.begin(), v.begin() + 32);
    for(uint32_t i = 1; i < r; i++) {
        Blake2b b(64);
        b.add(v.data(), 64);
        v = b.done();
        out.insert(out.end(), v.begin(), v.begin() + 32);
    }
    Blake2b b(outlen - 32 * r);
    b.add(v.data(), 64);
    v = b.done();
    out.insert(out.end(), v.begin(), v.end());
    return out;
}
typedef std::vector<uint64_t> ABlock; // 128 words
inline void argon_g(const ABlock &x, const ABlock &y, ABlock &out, bool x_or) {
    ABlock r(128), z;
    for(int i = 0; i < 128; i++) r[i] = x[i] ^ y[i];
    z = r;
    auto rotr = [](uint64_t v, int k) { return v >> k | v << (64 - k); };
    auto f = [](uint64_t a, uint64_t b) { return a + b + 2 * (uint64_t) (uint32_t) a * (uint32_t) b; };
    auto P = [&](const int *ix) {
        auto GB = [&](int a, int b, int c, int d) {
            uint64_t &A = z[ix[a]], &B = z[ix[b]], &C = z[ix[c]], &D = z[ix[d]];
            A = f(A, B); D = rotr(D ^ A, 32);
            C = f(C, D); B = rotr(B ^ C, 24);
            A = f(A, B); D = rotr(D ^ A, 16);
            C = f(C, D); B = rotr(B ^ C, 63);
        };
        GB(0, 4, 8, 12); GB(1, 5, 9, 13); GB(2, 6, 10, 14); GB(3, 7, 11, 15);
        GB(0, 5, 10, 15); GB(1, 6, 11, 12); GB(2, 7, 8, 13); GB(3, 4, 9, 14);
    };
    int ix[16];
    for(int row = 0; row < 8; row++) { for(int i = 0; i < 16; i++) ix[i] = 16 * row + i; P(ix); }
    for(int col = 0; col < 8; col++) { for(int i = 0; i < 8; i++) { ix[2 * i] = 16 * i + 2 * col; ix[2 * i + 1] = 16 * i + 2 * col + 1; } P(ix); }
    for(int i = 0; i < 128; i++) out[i] = (x_or ? out[i] : 0) ^ r[i] ^ z[i];
}
// type: 0 Argon2d, 1 Argon2i, 2 Argon2id; m in blocks of 1 KiB
inline std::vector<uint8_t> argon2(int type, uint32_t lanes, uint32_t taglen, uint32_t mem, uint32_t passes, const std::string &P, const std::string &S, const std::string &K, const std::string &X) {
    Blake2b b(64);
    b.le32(lanes); b.le32(taglen); b.le32(mem); b.le32(passes); b.le32(0x13); b.le32(type);
    for(auto *s: {&P, &S, &K, &X}) { b.le32(s->size()); b.add(s->data(), s->size()); }
    std::vector<uint8_t> H0 = b.done();
    uint32_t q = mem / (4 * lanes) * 4, seg = q / 4, blocks = q * lanes;
    std::vector<ABlock> B(blocks, ABlock(128));
    auto le = [](std::vector<uint8_t> v, uint32_t x) { for(int i = 0; i < 4; i++) v.push_back((uint8_t) (x >> 8 * i)); return v; };
    auto load = [](const std::vector<uint8_t> &v, ABlock &o) { for(int i = 0; i < 128; i++) { o[i] = 0; for(int k = 7; k >= 0; k--) o[i] = o[i] << 8 | v[8 * i + k]; } };
    for(uint32_t i = 0; i < lanes; i++) for(uint32_t j = 0; j < 2; j++) load(argon_hash(1024, le(le(H0, j), i)), B[i * q + j]);
    ABlock zero(128);
    for(uint32_t r = 0; r < passes; r++)
        for(uint32_t sl = 0; sl < 4; sl++)
            for(uint32_t l = 0; l < lanes; l++) {
                bool indep = type == 1 || (type == 2 && r == 0 && sl < 2);
                ABlock addr(128);
                uint64_t counter = 0;
                for(uint32_t k = 0; k < seg; k++) {
                    if(indep && k % 128 == 0) {
                        ABlock in(128), t(128);
                        in[0] = r; in[1] = l; in[2] = sl; in[3] = blocks; in[4] = passes; in[5] = type; in[6] = ++counter;
                        argon_g(zero, in, t, false);
                        argon_g(zero, t, addr, false);
                    }
                    uint32_t j = sl * seg + k;
                    if(r == 0 && j < 2) continue;
                    ABlock &prev = B[l * q + (j ? j - 1 : q - 1)];
                    uint64_t rnd = indep ? addr[k % 128] : prev[0];
                    uint32_t j1 = (uint32_t) rnd, j2 = (uint32_t) (rnd >> 32);
                    uint32_t rl = r == 0 && sl == 0 ? l : j2 % lanes;
                    uint32_t W; // size of the reference set
                    if(r == 0) W = rl == l ? sl * seg + k - 1 : sl * seg - (k == 0 ? 1 : 0);
                    else W = rl == l ? q - seg + k - 1 : q - seg - (k == 0 ? 1 : 0);
                    uint64_t x = (uint64_t) j1 * j1 >> 32;
                    uint64_t y = (uint64_t) W * x >> 32;
                    uint32_t zz = (uint32_t) (W - 1 - y);
                    uint32_t start = r == 0 ? 0 : (sl + 1) % 4 * seg;
                    argon_g(prev, B[rl * q + (start + zz) % q], B[l * q + j], r > 0);
                }
            }
    ABlock C = B[q - 1];
    for(uint32_t l = 1; l < lanes; l++) for(int i = 0; i < 128; i++) C[i] ^= B[l * q + q - 1][i];
    std::vector<uint8_t> bytes;
    for(int i = 0; i < 128; i++) for(int k = 0; k < 8; k++) bytes.push_back((uint8_t) (C[i] >> 8 * k));
    return argon_hash(taglen, bytes);
}
// RFC 9106, section 5.3
inline bool argon2_selftest() {
    std::vector<uint8_t> t = argon2(2, 4, 32, 32, 3, std::string(32, 1), std::string(16, 2), std::string(8, 3), std::string(12, 4));
    static const uint8_t want[32] = {0x0d, 0x64, 0x0d, 0xf5, 0x8d, 0x78, 0x76, 0x6c, 0x08, 0xc0, 0x37, 0xa3, 0x4a, 0x8b, 0x53, 0xc9, 0xd0, 0x1e, 0xf0, 0x45, 0x2d, 0x75, 0xb6, 0x5e, 0xb5, 0x25, 0x20, 0xe9, 0x6b, 0x01, 0xe6, 0x59};
    return !memcmp(t.data(), want, 32);
}

} // namespace ref
