// Random draws of the library as choice points of the explorer.
//
// To be used with a library built with interposable symbols ("inter"): the random draw functions
// are replaced here, so every draw - from whatever helper it is made - becomes a choice point
// whose alternatives are all explored.
#pragma once
#include "mc.hpp"
#include "ref_pattern.hpp"
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/pattern/env.h>
#include <passgen/wordlist.h>
#include <passgen/parser/parser.h>
}
#include <sys/syscall.h>
#include <math.h>
using namespace mc;
using ref::Str;

// ------------------------------------------------------------------ choice points
struct Tree {
    std::vector<uint64_t> choice, arity;
    size_t pos = 0;
    bool unsupported = false, nondet = false, zero = false;
    uint64_t draws = 0;
    // single-decision mode: the first real decision takes this value, whatever its range
    bool single = false, wide = false;
    uint64_t value = 0, range = 0, decisions = 0;
    // forced mode: the real decisions take the given outcomes, one after another
    bool forced = false;
    void force(uint64_t v, uint64_t n) { forced = true; if(n > 1) { choice.push_back(v); arity.push_back(n); } }
    bool forced_all() const { return !unsupported && !nondet && !zero && pos == choice.size(); }
    uint64_t choose(uint64_t n) {
        draws++;
        if(forced) {
            if(n == 0) { zero = true; return 0; }
            if(n == 1) return 0;
            if(pos >= choice.size() || arity[pos] != n) { nondet = true; return 0; }
            return choice[pos++];
        }
        if(single) {
            if(n == 0) { zero = true; return 0; }
            if(n == 1) return 0;
            decisions++;
            if(decisions == 1) { range = n; return value; }
            return 0;
        }
        if(n == 0) { zero = true; return 0; }
        if(n > 5000) { unsupported = true; return 0; }
        if(pos < choice.size()) {
            if(arity[pos] != n) { nondet = true; return 0; }
            return choice[pos++];
        }
        choice.push_back(0);
        arity.push_back(n);
        pos++;
        return 0;
    }
    void begin() { pos = 0; }
    bool next() {
        // drop choices that were not reached in this run
        while(choice.size() > pos) { choice.pop_back(); arity.pop_back(); }
        while(!choice.empty()) {
            if(++choice.back() < arity.back()) return true;
            choice.pop_back();
            arity.pop_back();
        }
        return false;
    }
    double prob() const {
        double p = 1;
        for(size_t i = 0; i < pos; i++) p /= (double) arity[i];
        return p;
    }
};
static Tree *T;
static uint64_t draw(uint64_t n) { return T ? T->choose(n) : 0; }
// an unbounded draw of so many bits
static uint64_t word(int bits) {
    uint64_t all = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if(T && T->forced) { T->unsupported = true; return 0; }
    if(T && T->single) {
        T->draws++;
        T->decisions++;
        T->wide = true;
        if(T->decisions > 1000) { T->unsupported = true; return 0; }
        return T->value & all;
    }
    return draw(bits == 64 ? ~0ull : 1ull << bits);
}
extern "C" {
void passgen_random_read(passgen_random *, void *d, size_t n) {
    if(n == 1 || n == 2 || n == 4 || n == 8) { uint64_t v = word(8 * n); memcpy(d, &v, n); return; }
    memset(d, 0, n);
    if(n && T) T->unsupported = true;
}
uint8_t passgen_random_u8(passgen_random *) { return (uint8_t) word(8); }
uint16_t passgen_random_u16(passgen_random *) { return (uint16_t) word(16); }
uint32_t passgen_random_u32(passgen_random *) { return (uint32_t) word(32); }
uint64_t passgen_random_u64(passgen_random *) { return word(64); }
bool passgen_random_bool(passgen_random *) { return draw(2) == 0; }
uint8_t passgen_random_u8_max(passgen_random *, uint8_t m) { return (uint8_t) draw(m); }
uint16_t passgen_random_u16_max(passgen_random *, uint16_t m) { return (uint16_t) draw(m); }
uint32_t passgen_random_u32_max(passgen_random *, uint32_t m) { return (uint32_t) draw(m); }
uint64_t passgen_random_u64_max(passgen_random *, uint64_t m) { return draw(m); }
}
static size_t raw_read(void *, void *d, size_t n) { if(T) T->unsupported = true; memset(d, 0, n); return n; }
static void raw_close(void *) {}
static passgen_random RND;

static FILE *mem_file(const std::string &s) {
    int fd = syscall(SYS_memfd_create, "w", 0);
    FILE *f = fdopen(fd, "w+");
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
    fseek(f, 0, SEEK_SET);
    return f;
}
static int emit_cb(void *data, uint32_t cp) { ((Str *) data)->push_back(cp); return 0; }

static bool parse_real(const std::string &s, passgen_pattern *p, passgen_error *e) {
    // copy to a tight heap buffer so that any over-read is caught
    char *c = (char *) malloc(s.size() + 1);
    memcpy(c, s.data(), s.size());
    c[s.size()] = 0;
    memset(e, 0, sizeof *e);
    int r = passgen_parse(p, e, c);
    free(c);
    return r == 0;
}

static std::string show_choices(const Tree &t) {
    std::string o = "draws[";
    for(size_t i = 0; i < t.pos; i++) o += fmt("%s%llu/%llu", i ? " " : "", (unsigned long long) t.choice[i], (unsigned long long) t.arity[i]);
    return o + "]";
}

