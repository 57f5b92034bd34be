// Independent UTF-8 reference, written from the Unicode standard (table 3-7), not from the code under test.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
namespace ref {
struct U8 { uint32_t cp; int width; };
// decodes one code point at p; returns its width, 0 if malformed, -1 if it is a proper prefix of a well-formed sequence
inline int utf8_one(const uint8_t *p, size_t n, uint32_t *cp) {
    if(n == 0) return -1;
    uint8_t b = p[0];
    if(b <= 0x7f) { *cp = b; return 1; }
    int len;
    uint8_t lo = 0x80, hi = 0xbf;
    if(b >= 0xc2 && b <= 0xdf) len = 2;
    else if(b >= 0xe0 && b <= 0xef) { len = 3; if(b == 0xe0) lo = 0xa0; if(b == 0xed) hi = 0x9f; }
    else if(b >= 0xf0 && b <= 0xf4) { len = 4; if(b == 0xf0) lo = 0x90; if(b == 0xf4) hi = 0x8f; }
    else return 0;
    uint32_t v = len == 2 ? b & 0x1f : len == 3 ? b & 0x0f : b & 0x07;
    for(int i = 1; i < len; i++) {
        if((size_t) i >= n) return -1;
        if(p[i] < lo || p[i] > hi) return 0;
        lo = 0x80; hi = 0xbf;
        v = v << 6 | (p[i] & 0x3f);
    }
    *cp = v;
    return len;
}
inline bool utf8_all(const std::string &s, std::vector<U8> *out) {
    size_t i = 0;
    while(i < s.size()) {
        uint32_t cp;
        int w = utf8_one((const uint8_t *) s.data() + i, s.size() - i, &cp);
        if(w <= 0) return false;
        if(out) out->push_back({cp, w});
        i += w;
    }
    return true;
}
inline std::string utf8_put(uint32_t c) {
    std::string o;
    if(c < 0x80) o += (char) c;
    else if(c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if(c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    return o;
}
inline std::string utf8_str(const std::vector<uint32_t> &v) {
    std::string o;
    for(uint32_t c: v) o += utf8_put(c);
    return o;
}
} // namespace ref
