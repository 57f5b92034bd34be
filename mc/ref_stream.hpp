// Reference byte streams of the deterministic randomness sources, addressed by position.
// Written from the definitions of the algorithms (xorshift64 13/7/17; ChaCha20 with 64-bit nonce and
// 64-bit block counter), independent of the code under test.
#pragma once
#include <stdint.h>
#include <string.h>
#include <memory>
#include <string>
#include <vector>

namespace ref {

inline uint32_t rotl32(uint32_t x, int n) { return x << n | x >> (32 - n); }

inline void chacha20_block(const uint8_t key[32], const uint8_t nonce[8], uint64_t counter, uint8_t out[64]) {
    uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    auto le = [](const uint8_t *p) { return (uint32_t) p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; };
    for(int i = 0; i < 8; i++) s[4 + i] = le(key + 4 * i);
    s[12] = (uint32_t) counter;
    s[13] = (uint32_t) (counter >> 32);
    s[14] = le(nonce);
    s[15] = le(nonce + 4);
    uint32_t x[16];
    memcpy(x, s, sizeof x);
    auto qr = [&](int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 16);
        x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 8);
        x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 7);
    };
    for(int r = 0; r < 10; r++) {
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
    }
    for(int i = 0; i < 16; i++) {
        uint32_t v = x[i] + s[i];
        for(int b = 0; b < 4; b++) out[4 * i + b] = (uint8_t) (v >> 8 * b);
    }
}

struct Stream {
    enum Kind { XORSHIFT, ZERO, BYTES, CHACHA } kind;
    uint64_t x = 0;
    std::vector<uint8_t> data;        // xorshift: what was computed so far; bytes: the contents
    uint8_t key[32], nonce[8];
    uint64_t blk = ~0ull;
    uint8_t block[64];
    static Stream xorshift(uint64_t seed) { Stream s; s.kind = XORSHIFT; s.x = seed; return s; }
    static Stream zero() { Stream s; s.kind = ZERO; return s; }
    static Stream bytes(const std::string &d) { Stream s; s.kind = BYTES; s.data.assign(d.begin(), d.end()); return s; }
    static Stream chacha(const uint8_t *k, const uint8_t *n) { Stream s; s.kind = CHACHA; memcpy(s.key, k, 32); memcpy(s.nonce, n, 8); return s; }
    uint8_t at(uint64_t pos) {
        switch(kind) {
            case ZERO: return 0;
            case BYTES: return pos < data.size() ? data[pos] : 0;
            case XORSHIFT:
                while(data.size() <= pos) {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    for(int i = 0; i < 8; i++) data.push_back((uint8_t) (x >> 8 * i));
                }
                return data[pos];
            default:
                if(blk != pos / 64) { blk = pos / 64; chacha20_block(key, nonce, blk, block); }
                return block[pos % 64];
        }
    }
};

// The documented buffering, as a nondeterministic specification: requests of at most the buffer size
// are served in order through a buffer refilled from the source's own offset; a larger request gets one
// contiguous run, either directly at the source's offset or after the rest of the buffer.
struct Buffered {
    struct St { uint64_t c, end, s; bool operator<(const St &o) const { return c != o.c ? c < o.c : end != o.end ? end < o.end : s < o.s; } };
    std::vector<St> st;
    uint64_t buf;
    Buffered(uint64_t b = 1024): buf(b) { seek(0); }
    void seek(uint64_t p) { st = {{p, p + buf, p + buf}, {p, p, p}}; }
    // positions of the bytes delivered by a request in a given state; returns the following states
    static void take(const St &a, uint64_t n, uint64_t buf, uint64_t round, bool inorder, std::vector<uint64_t> &pos, std::vector<St> &next) {
        pos.clear();
        St b = a;
        if(n > buf && !inorder) {
            for(uint64_t i = 0; i < n; i++) pos.push_back(b.s + i);
            b.s += n;
            next.push_back(b);
            if(round > 1 && b.s % round) { b.s += round - b.s % round; next.push_back(b); }
            return;
        }
        while(pos.size() < n) {
            if(b.c == b.end) { b.c = b.s; b.end = b.s + buf; b.s += buf; }
            pos.push_back(b.c++);
        }
        next.push_back(b);
        if(b.c == b.end) { b.c = b.s; b.end = b.s + buf; b.s += buf; next.push_back(b); }
    }
};

} // namespace ref
