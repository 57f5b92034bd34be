// C08: master-passphrase mode and randomness descriptions.
#include "mc.hpp"
#include "ref_stream.hpp"
#include "ref_argon2.hpp"
extern "C" {
#include <passgen/random.h>
}
using namespace mc;

struct Cfg { int alg = 2; uint32_t blocks = 8, passes = 8, lanes = 1; };
// compares the first bytes (and a later position) of an opened source with the stream for a key and nonce
static std::string same_stream(passgen_random *r, const std::vector<uint8_t> &key, const char nonce[8]) {
    ref::Stream s = ref::Stream::chacha(key.data(), (const uint8_t *) nonce);
    uint8_t b[1100];
    passgen_random_read(r, b, 100);
    for(int i = 0; i < 100; i++) if(b[i] != s.at(i)) return fmt("byte %d is %02x, expected %02x", i, b[i], s.at(i));
    passgen_random_read(r, b, 1000);
    for(int i = 0; i < 1000; i++) if(b[i] != s.at(100 + i)) return fmt("byte %d is %02x, expected %02x", 100 + i, b[i], s.at(100 + i));
    return "";
}
static char *exact(const std::string &s) { char *p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
// N: NULL
static std::string open_api(const std::string &pass, const std::string *dom, const std::string *tok, const Cfg *cfg) {
    char *p = exact(pass), *d = dom ? exact(*dom) : NULL, *t = tok ? exact(*tok) : NULL;
    passgen_argon2_config c;
    if(cfg) { memset(&c, 0, sizeof c); c.algorithm = cfg->alg; c.nb_blocks = cfg->blocks; c.nb_passes = cfg->passes; c.nb_lanes = cfg->lanes; }
    static passgen_random object;
    passgen_random *into = (pass.size() + (dom ? dom->size() : 0)) % 2 ? &object : NULL;
    passgen_random *r = passgen_random_chacha20_argon2_open(into, (uint8_t *) p, (uint8_t *) d, (uint8_t *) t, cfg ? &c : NULL);
    std::string why;
    if(pass != p || dom && *dom != d || tok && *tok != t) why = "an input was modified";
    free(p); free(d); free(t);
    if(!r) return "could not be opened";
    Cfg def;
    const Cfg &u = cfg ? *cfg : def;
    if(why.empty()) why = same_stream(r, ref::argon2(u.alg, u.lanes, 32, u.blocks, u.passes, pass, "passgen", dom ? *dom : "", tok ? *tok : ""), "passgen");
    if(into) passgen_random_close(r); else passgen_random_free(r);
    return why;
}
static std::string text_of(size_t len, int flavour) {
    std::string s;
    for(size_t i = 0; i < len; i++) s += flavour == 0 ? (char) ('a' + i % 26) : flavour == 1 ? (char) (1 + (i * 37 + 200) % 255) : 'x';
    return s;
}
// case: "P<len>.<flavour> D<len|N>.<fl> T<..> [A<alg> M<blocks> I<passes> L<lanes>]"
static void check_lengths(Ctx &ctx, const std::string &c) {
    int pl, pf, dl, df, tl, tf, alg, m, it, lanes;
    int n = sscanf(c.c_str(), "P%d.%d D%d.%d T%d.%d A%d M%d I%d L%d", &pl, &pf, &dl, &df, &tl, &tf, &alg, &m, &it, &lanes);
    std::string p = text_of(pl, pf), d = dl < 0 ? "" : text_of(dl, df), t = tl < 0 ? "" : text_of(tl, tf);
    Cfg cfg;
    if(n == 10) { cfg.alg = alg; cfg.blocks = m; cfg.passes = it; cfg.lanes = lanes; }
    std::string why = open_api(p, dl < 0 ? NULL : &d, tl < 0 ? NULL : &t, n == 10 ? &cfg : NULL);
    ctx.transitions(1);
    ctx.trace();
    ctx.state(hash_str(c));
    if(!why.empty()) ctx.fail("derive " + c, fmt("passphrase/domain/token lengths and parameters %s: %s", c.c_str(), why.c_str()));
}
static void gen_lengths(Ctx &ctx) {
    int top = ctx.thorough ? 600 : 300;
    for(int l = 0; l <= top; l++)
        for(int f = 0; f < 2; f++) {
            ctx.emit(fmt("P%d.%d D-1.0 T-1.0", l, f));
            ctx.emit(fmt("P%d.%d D5.0 T3.1", l, f));
            ctx.emit(fmt("P4.0 D%d.%d T-1.0", l, f));
            ctx.emit(fmt("P4.0 D-1.0 T%d.%d", l, f));
            ctx.emit(fmt("P9.1 D%d.%d T%d.%d", l, f, l, 1 - f));
        }
    // around powers of two and beyond: nothing is cut off
    for(int b = 9; b <= (ctx.thorough ? 24 : 20); b++)
        for(int k: {-1, 0, 1}) {
            int l = (1 << b) + k;
            for(int f = 0; f < 2; f++) {
                ctx.emit(fmt("P%d.%d D-1.0 T-1.0", l, f));
                ctx.emit(fmt("P4.0 D%d.%d T1.0", l, f));
                ctx.emit(fmt("P4.0 D3.0 T%d.%d", l, f));
            }
            ctx.emit(fmt("P%d.0 D%d.1 T%d.0", l, l - 1, l + 1));
        }
    for(int l: {300, 320, 400, 500, 600, 700, 768, 800, 1000, 1536, 2000, 3000, 5000, 10000, 20000, 50000, 100000, 500000, 1000000})
        for(int k: {-1, 0, 1}) {
            ctx.emit(fmt("P%d.0 D-1.0 T-1.0", l + k));
            ctx.emit(fmt("P4.0 D%d.0 T1.0", l + k));
            ctx.emit(fmt("P4.0 D3.0 T%d.0", l + k));
        }
    // every combination of lengths around the hash block borders
    std::vector<int> ls = {-1, 0, 1, 2, 31, 32, 33, 63, 64, 65, 90, 91, 92, 93, 94, 95, 96, 97, 100, 127, 128, 129};
    for(int a: ls) for(int b: ls) for(int e: ls) if(a >= 0 && (ctx.thorough || (a * 7 + b * 3 + e) % 4 == 0)) ctx.emit(fmt("P%d.2 D%d.2 T%d.2", a, b, e));
}
static void gen_params(Ctx &ctx) {
    for(int alg = 0; alg < 3; alg++)
        for(int lanes = 1; lanes <= (ctx.thorough ? 6 : 4); lanes++)
            for(int it = 1; it <= 4; it++)
                for(int m = 8 * lanes; m <= (ctx.thorough ? 300 : 140); m += m < 48 ? 1 : 13) {
                    ctx.emit(fmt("P7.0 D3.1 T2.0 A%d M%d I%d L%d", alg, m, it, lanes));
                    if(it == 1) ctx.emit(fmt("P0.0 D-1.0 T-1.0 A%d M%d I%d L%d", alg, m, it, lanes));
                }
    for(int alg = 0; alg < 3; alg++) for(int m: {600, 1024, 1100, 2048}) ctx.emit(fmt("P7.0 D3.1 T2.0 A%d M%d I2 L1", alg, m));
    for(int it = 5; it < 20; it++) ctx.emit(fmt("P7.0 D3.1 T2.0 A2 M8 I%d L1", it));
}
// literal triples: "<pass>|<domain or ->|<token or ->"
static void check_triple(Ctx &ctx, const std::string &c) {
    size_t a = c.find('\1'), b = c.find('\1', a + 1);
    std::string p = c.substr(0, a), d = c.substr(a + 1, b - a - 1), t = c.substr(b + 1);
    bool dn = d == "\2", tn = t == "\2";
    std::string why = open_api(p, dn ? NULL : &d, tn ? NULL : &t, NULL);
    ctx.transitions(1);
    ctx.trace();
    ctx.state(hash_str(c));
    if(!why.empty()) ctx.fail("triple " + esc(c), "passphrase, domain, token " + esc(c) + ": " + why);
}
static void gen_triples(Ctx &ctx) {
    std::vector<std::string> w;
    all_strings({"a", "b", ":"}, 2, [&](const std::string &s, size_t) { w.push_back(s); return true; });
    w.push_back("\2");
    for(auto &p: w) if(p != "\2") for(auto &d: w) for(auto &t: w) ctx.emit(p + "\1" + d + "\1" + t);
    // every byte value at several positions of every component
    for(int comp = 0; comp < 3; comp++)
        for(int pos: {0, 1, 7, 30, 31, 63, 64, 126})
            for(int v = 3; v < 256; v++) {
                std::string s[3] = {"passphrase", "example.com", "1"};
                s[comp] = std::string(pos, 'q') + (char) v + (v % 2 ? "z" : "");
                ctx.emit(s[0] + "\1" + s[1] + "\1" + s[2]);
            }
}
// ---- descriptions
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static void check_desc(Ctx &ctx, const std::string &c) {
    char *desc = exact(c);
    static passgen_random object;
    memset(&object, 0x5a, sizeof object);
    passgen_random *into = c.size() % 2 ? &object : NULL;
    passgen_random *r = passgen_random_open(into, desc);
    ctx.transitions(1);
    ctx.trace();
    ctx.state(hash_str(c));
    std::string why;
    std::vector<uint8_t> key;
    char nonce[9] = "passgen";
    int expect = -1; // -1 refused, 1 opened as chacha with key and nonce, 2 either refused or as that
    if(starts(c, "chacha20:")) {
        std::string rest = c.substr(9), k = rest.substr(0, rest.find(':'));
        if(k.size() <= 32) {
            expect = 1;
            key.assign(k.begin(), k.end());
            key.resize(32);
            if(k.size() < rest.size()) { memset(nonce, 0, 8); std::string iv = rest.substr(k.size() + 1, 8); memcpy(nonce, iv.data(), iv.size()); if(rest.size() - k.size() - 1 > 8) expect = 2; }
        }
    } else if(starts(c, "chacha20-argon2:")) {
        std::vector<std::string> f(1);
        for(char x: c.substr(16)) { if(x == ':') f.push_back(""); else f.back() += x; }
        if(f.size() <= 3) {
            expect = 1;
            for(auto &s: f) if(s.size() > 100) expect = 2;
            f.resize(3);
            key = ref::argon2(2, 1, 32, 8, 8, f[0], "passgen", f[1], f[2]);
        }
    }
    if(expect == -1) { if(r) why = "is accepted"; }
    else if(!r) { if(expect == 1) why = "is refused"; }
    else why = same_stream(r, key, nonce);
    if(r) { if(into) passgen_random_close(r); else passgen_random_free(r); }
    free(desc);
    if(!why.empty()) ctx.fail("desc " + esc(c).substr(0, 300), "description '" + esc(c) + "' " + (why[0] == 'b' ? "denotes another stream: " : "") + why);
}
static void gen_desc(Ctx &ctx) {
    for(auto p: {"chacha20:", "chacha20-argon2:"})
        all_strings({"a", ":", "b", "\xc3"}, ctx.thorough ? 8 : 6, [&](const std::string &s, size_t) { ctx.emit(p + s); return !ctx.stopped(); });
    for(int k = 0; k <= 140; k++)
        for(int f = 0; f < 2; f++) {
            std::string t;
            for(char x: text_of(k, f)) t += x == ':' ? ';' : x;
            ctx.emit("chacha20:" + t);
            ctx.emit("chacha20:" + t + ":");
            ctx.emit("chacha20:" + t + ":iv");
            ctx.emit("chacha20:key:" + t);
            ctx.emit("chacha20:" + std::string(32, 'k') + ":" + t);
            ctx.emit("chacha20-argon2:" + t);
            ctx.emit("chacha20-argon2:" + t + ":" + t);
            ctx.emit("chacha20-argon2:" + t + ":" + t + ":" + t);
            ctx.emit("chacha20-argon2:p:" + t);
            ctx.emit("chacha20-argon2:p:" + t + ":t");
            ctx.emit("chacha20-argon2:p:d:" + t);
            ctx.emit("chacha20-argon2:p::" + t);
            ctx.emit("chacha20-argon2:::" + t);
            ctx.emit("chacha20-argon2:p:d:" + t + ":x");
        }
    for(int k: {200, 255, 256, 257, 1000, 4000})
        for(auto p: {"chacha20:", "chacha20-argon2:", "chacha20-argon2:p:", "chacha20-argon2:p:d:", "chacha20:k:"}) ctx.emit(p + std::string(k, 'w'));
    for(int k = 0; k <= 40; k++) for(int v = 0; v <= 12; v++) ctx.emit("chacha20:" + text_of(k, 0) + ":" + text_of(v, 0));
    // names that denote nothing
    std::vector<std::string> names = {"chacha20", "chacha20-argon2", "chacha20-argon2:", "zero", "system", "xorshift:1", "xorshift:", "file:/nonexistent-verif"};
    for(auto &n: names) {
        std::set<std::string> mut;
        for(size_t i = 0; i <= n.size(); i++) {
            mut.insert(n.substr(0, i));
            for(char x: {' ', 'x', ':', '-', '0', 'A'}) { mut.insert(n.substr(0, i) + x + n.substr(i)); if(i < n.size()) { std::string m = n; m[i] = x; mut.insert(m); } }
            if(i < n.size()) { mut.insert(n.substr(0, i) + n.substr(i + 1)); std::string m = n; m[i] = toupper(m[i]); mut.insert(m); }
        }
        for(auto &m: mut) {
            if(m == "zero" || m == "system" || m == "file:/" || starts(m, "xorshift:") && atoll(m.c_str() + 9)) continue;
            ctx.emit(m);
        }
    }
    for(auto s: {"", ":", "xorshift", "xorshift:", "xorshift:0", "xorshift:abc", "xorshift::1", "file:", "file:/nonexistent-verif/x", "file", "random", "dev", "/dev/urandom", "zero:", "system:", "zero ", "chacha", "chacha20-", "chacha20-argon", "chacha20-argon2i:a"}) ctx.emit(s);
}

int main(int argc, char **argv) {
    if(!ref::argon2_selftest()) { fprintf(stderr, "reference Argon2 is wrong\n"); return 2; }
    add({"lengths", "every length up to 300 (600) of each component and around powers of two and of ten to 2^20 (2^24); combinations of lengths around block borders", gen_lengths, check_lengths});
    add({"parameters", "3 algorithms x 1..4 (6) lanes x 1..4 passes x block counts up to 140 (300); larger ones", gen_params, check_lengths});
    add({"triples", "all triples over 14 short strings including separators; every byte value at 8 positions of each component", gen_triples, check_triple});
    add({"descriptions", "all description strings up to length 6 (8) over 4 symbols, all field lengths up to 140, mutations of every source name", gen_desc, check_desc});
    return main_(argc, argv);
}
