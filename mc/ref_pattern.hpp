// Reference semantics of passgen patterns: a recursive-descent parser and a denotation (exact
// distribution over outputs, with the entropy of each derivation).  Written from the documented
// pattern language, structured differently from the code under test (which is a pushdown automaton).
#pragma once
#include <math.h>
#include <stdint.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "ref_utf8.hpp"

namespace ref {

struct Tok { uint32_t cp; bool esc; size_t off, boff; };

enum ErrKind { OK = 0, BAD_UTF8, BAD_TOKEN, BAD_GRAMMAR, INCOMPLETE };

// ------------------------------------------------------------------ tokens
struct TokResult { ErrKind err = OK; std::vector<Tok> toks; size_t off = 0, boff = 0; };

inline TokResult tokenize(const std::string &s) {
    TokResult r;
    std::vector<U8> u;
    if(!utf8_all(s, &u)) { r.err = BAD_UTF8; return r; }
    size_t off = 0, boff = 0, i = 0;
    auto adv = [&]() { boff += u[i].width; off++; i++; };
    while(i < u.size()) {
        Tok t{u[i].cp, false, off, boff};
        adv();
        if(t.cp != '\\') { r.toks.push_back(t); continue; }
        if(i == u.size()) { r.err = INCOMPLETE; r.off = off; r.boff = boff; return r; }
        uint32_t c = u[i].cp;
        adv();
        static const std::map<uint32_t, uint32_t> simple = {{'a', 7}, {'b', 8}, {'e', 27}, {'f', 12}, {'n', 10},
                                                            {'r', 13}, {'t', 9}, {'v', 11}, {'\\', '\\'}};
        auto it = simple.find(c);
        if(it != simple.end()) { t.cp = it->second; r.toks.push_back(t); continue; }
        if(c != 'u') { t.cp = c; t.esc = true; r.toks.push_back(t); continue; }
        // \u{HEX}
        uint32_t v = 0;
        int n = 0;
        enum { OPEN, BODY, DONE, BAD, END } st = OPEN;
        while(st == OPEN || st == BODY) {
            if(i == u.size()) { st = END; break; }
            uint32_t d = u[i].cp;
            adv();
            if(st == OPEN) { st = d == '{' ? BODY : BAD; continue; }
            if(d == '}') { st = v > 0x10ffff ? BAD : DONE; continue; }
            int h = d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : d >= 'A' && d <= 'F' ? d - 'A' + 10 : -1;
            if(h < 0 || ++n > 6) { st = BAD; continue; }
            v = v * 16 + h;
        }
        if(st == DONE) { t.cp = v; r.toks.push_back(t); continue; }
        if(st == BAD) { r.err = BAD_TOKEN; r.off = t.off; r.boff = t.boff; return r; }
        r.err = INCOMPLETE; r.off = off; r.boff = boff;
        return r;
    }
    r.off = off; r.boff = boff; // end of input
    return r;
}

// ------------------------------------------------------------------ syntax
struct Group;
struct Item {
    enum Kind { LIT, SET, GROUP, SPECIAL } kind;
    uint32_t lit = 0;
    std::vector<std::pair<uint32_t, uint32_t>> set;
    std::shared_ptr<Group> group;
    char special = 0;
    std::string name;
    uint64_t min = 1, max = 1;
    bool maybe = false;
};
struct Alt { uint64_t weight = 1; std::vector<Item> items; };
struct Group { std::vector<Alt> alts; };

struct Pattern {
    ErrKind err = OK;
    size_t off = 0, boff = 0;
    std::shared_ptr<Group> root;
    size_t ntoks = 0;
    size_t depth = 0;
    bool ok() const { return err == OK; }
};

static const uint64_t NUM_MAX = 0xffffffffull;

struct Parser {
    const std::vector<Tok> &t;
    size_t i = 0;
    bool fail = false, incomplete = false;
    Parser(const std::vector<Tok> &t): t(t) {}
    bool end() { return i >= t.size(); }
    bool at(uint32_t c) { return !end() && !t[i].esc && t[i].cp == c; }
    void err() { if(end()) incomplete = true; else fail = true; }
    bool bad() { return fail || incomplete; }

    // digits up to, not including, a terminator; false on error
    bool number(uint64_t *v) {
        *v = 0;
        while(!end() && !t[i].esc && t[i].cp >= '0' && t[i].cp <= '9') {
            *v = *v * 10 + (t[i].cp - '0');
            if(*v > NUM_MAX) { err(); return false; }
            i++;
        }
        return true;
    }
    std::shared_ptr<Group> group(bool nested) {
        auto g = std::make_shared<Group>();
        for(;;) {
            g->alts.push_back(alt());
            if(bad()) return g;
            if(at('|')) { i++; continue; }
            if(at(')')) {
                if(!nested) { err(); return g; }
                return g;               // caller consumes ')'
            }
            // end of input
            if(nested) err();
            return g;
        }
    }
    // a group without any item left in any alternative of positive weight stands for nothing
    static bool empty(const Group &g) {
        for(auto &a: g.alts) if(a.weight && !a.items.empty()) return false;
        return true;
    }
    Alt alt() {
        Alt a;
        while(!end()) {
            if(at('|') || at(')')) break;
            if(at('{')) {
                // no item yet: weight of this alternative
                i++;
                uint64_t v;
                if(!number(&v)) return a;
                if(!at('}')) { err(); return a; }
                i++;
                a.weight = v;
                continue;
            }
            Item it;
            if(at('?')) { err(); return a; }
            if(at('[')) {
                i++;
                it.kind = Item::SET;
                if(!set(it)) return a;
            } else if(at('(')) {
                i++;
                it.kind = Item::GROUP;
                it.group = group(true);
                if(bad()) return a;
                i++;
            } else if(t[i].esc) {
                uint32_t c = t[i].cp;
                if(c == 'm' || c == 'p' || c == 'w') {
                    it.kind = Item::SPECIAL;
                    it.special = (char) c;
                    i++;
                    if(!at('{')) { err(); return a; }
                    i++;
                    while(!at('}')) {
                        if(end()) { err(); return a; }
                        it.name += utf8_put(t[i].cp);
                        i++;
                    }
                    i++;
                } else if(c == '|' || c == '(' || c == ')' || c == '{' || c == '}' || c == '[' || c == ']') {
                    it.kind = Item::LIT;
                    it.lit = c;
                    i++;
                } else { err(); return a; }
            } else {
                it.kind = Item::LIT;
                it.lit = t[i].cp;
                i++;
            }
            // postfix operators
            for(;;) {
                if(at('?')) { it.maybe = true; i++; continue; }
                if(at('{')) {
                    i++;
                    uint64_t lo, hi;
                    if(!number(&lo)) return a;
                    hi = lo;
                    if(at(',')) { i++; if(!number(&hi)) return a; }
                    if(!at('}')) { err(); return a; }
                    if(hi < lo) { err(); return a; }
                    i++;
                    it.min = lo; it.max = hi;
                    continue;
                }
                break;
            }
            if(it.kind == Item::GROUP && empty(*it.group)) continue;
            a.items.push_back(it);
        }
        return a;
    }
    bool set(Item &it) {
        bool have = false;
        while(!at(']')) {
            if(end()) { err(); return false; }
            uint32_t c = t[i].cp;
            if(have && at('-')) {
                i++;
                if(end()) { err(); return false; }
                if(at(']')) { err(); return false; }
                if(t[i].esc && t[i].cp != '-') { err(); return false; }
                if(t[i].cp < it.set.back().first) { err(); return false; }
                it.set.back().second = t[i].cp;
                i++;
                continue;
            }
            if(t[i].esc && c != '-') { err(); return false; }
            it.set.push_back({c, c});
            have = true;
            i++;
        }
        i++;
        return true;
    }
};

inline Pattern parse(const std::string &s) {
    Pattern p;
    TokResult tr = tokenize(s);
    if(tr.err == BAD_UTF8) { p.err = BAD_UTF8; return p; }
    // a malformed or unfinished token only matters if the grammar accepts what precedes it
    Parser ps(tr.toks);
    p.root = ps.group(false);
    p.ntoks = tr.toks.size();
    if(ps.fail) { p.err = BAD_GRAMMAR; p.off = tr.toks[ps.i].off; p.boff = tr.toks[ps.i].boff; return p; }
    if(tr.err != OK) { p.err = tr.err; p.off = tr.off; p.boff = tr.boff; return p; }
    if(ps.incomplete) { p.err = INCOMPLETE; p.off = tr.off; p.boff = tr.boff; return p; }
    return p;
}

// ------------------------------------------------------------------ denotation
typedef std::vector<uint32_t> Str;
struct Out { bool fail; Str s; double e; };          // e = 1/probability of the derivation
struct OutKey {
    bool fail; Str s; long long le;
    bool operator<(const OutKey &o) const {
        if(fail != o.fail) return fail < o.fail;
        if(le != o.le) return le < o.le;
        return s < o.s;
    }
};
inline long long ekey(double e) { return llround(log(e) * 1e8); }

// distribution: (failed?, string, entropy) -> probability
struct Dist {
    std::map<OutKey, std::pair<double, double>> m;   // -> (probability, e)
    void add(bool fail, const Str &s, double e, double p) {
        // for a failure neither partial output nor entropy is observable
        OutKey k{fail, fail ? Str() : s, fail ? 0 : ekey(e)};
        auto &x = m[k];
        x.first += p;
        x.second = fail ? 1 : e;
    }
};

struct Words { std::vector<Str> words; int order = 3; };
typedef std::map<std::string, Words> Env;

struct Denoter {
    const Env *env = nullptr;
    size_t limit = 20000;
    bool too_big = false;
    uint64_t depth_limit = 1024;
    int markov_cap = 24;

    static Dist unit() { Dist d; d.add(false, {}, 1, 1); return d; }
    Dist concat(const Dist &a, const Dist &b) {
        Dist r;
        for(auto &x: a.m) {
            if(x.first.fail) { r.add(true, {}, 1, x.second.first); continue; }
            for(auto &y: b.m) {
                if(y.first.fail) { r.add(true, {}, 1, x.second.first * y.second.first); continue; }
                Str s = x.first.s;
                s.insert(s.end(), y.first.s.begin(), y.first.s.end());
                r.add(false, s, x.second.second * y.second.second, x.second.first * y.second.first);
                if(r.m.size() > limit) { too_big = true; return r; }
            }
        }
        return r;
    }
    static void mix(Dist &r, const Dist &a, double p, double e) {
        for(auto &x: a.m) r.add(x.first.fail, x.first.s, x.second.second * e, x.second.first * p);
    }
    Dist markov(const Words &w) {
        Dist r;
        std::map<Str, std::map<uint32_t, uint64_t>> table;
        for(auto &word: w.words) {
            Str x(w.order, 0);
            x.insert(x.end(), word.begin(), word.end());
            x.push_back(0);
            for(size_t i = 0; i + w.order < x.size(); i++) table[Str(x.begin() + i, x.begin() + i + w.order)][x[i + w.order]]++;
        }
        struct N { Str s; double p, e; };
        std::vector<N> todo{{Str(w.order, 0), 1, 1}};
        while(!todo.empty()) {
            N n = todo.back();
            todo.pop_back();
            auto &row = table[Str(n.s.end() - w.order, n.s.end())];
            uint64_t total = 0;
            for(auto &c: row) total += c.second;
            if(!total || (int) n.s.size() > markov_cap) { too_big = true; return r; }
            for(auto &c: row) {
                double p = (double) c.second / total;
                if(c.first == 0) r.add(false, Str(n.s.begin() + w.order, n.s.end()), n.e / p, n.p * p);
                else { N k{n.s, n.p * p, n.e / p}; k.s.push_back(c.first); todo.push_back(k); }
            }
            if(todo.size() > limit) { too_big = true; return r; }
        }
        return r;
    }
    Dist atom(const Item &it, uint64_t depth) {
        Dist r;
        switch(it.kind) {
            case Item::LIT: r.add(false, {it.lit}, 1, 1); return r;
            case Item::SET: {
                uint64_t n = 0;
                for(auto &x: it.set) n += (uint64_t) x.second - x.first + 1;
                if(n == 0) return unit();
                if(n > limit) { too_big = true; return unit(); }
                for(auto &x: it.set) for(uint64_t c = x.first; c <= x.second; c++) r.add(false, {(uint32_t) c}, (double) n, 1.0 / n);
                return r;
            }
            case Item::GROUP: return group(*it.group, depth);
            case Item::SPECIAL: {
                if(it.special == 'p') { too_big = true; return unit(); } // preset references are not specified
                auto w = env ? env->find(it.name) : Env::const_iterator();
                if(!env || w == env->end() || w->second.words.empty()) { r.add(true, {}, 1, 1); return r; }
                if(it.special == 'm') return markov(w->second);
                size_t n = w->second.words.size();
                for(auto &x: w->second.words) r.add(false, x, n, 1.0 / n);
                return r;
            }
        }
        return r;
    }
    Dist item(const Item &it, uint64_t depth) {
        if(it.max > 4096) { too_big = true; return unit(); }
        Dist a = atom(it, depth);
        Dist pow = unit(), rep;
        uint64_t n = it.max - it.min + 1;
        for(uint64_t k = 0; k <= it.max; k++) {
            if(k) pow = concat(pow, a);
            if(too_big) return rep;
            if(k >= it.min) mix(rep, pow, 1.0 / n, (double) n);
        }
        if(!it.maybe) return rep;
        Dist r;
        r.add(false, {}, 2, 0.5);
        mix(r, rep, 0.5, 2);
        return r;
    }
    Dist group(const Group &g, uint64_t depth) {
        Dist r;
        if(depth >= depth_limit) { r.add(true, {}, 1, 1); return r; }
        uint64_t total = 0;
        for(auto &a: g.alts) total += a.weight;
        if(!total) { r.add(true, {}, 1, 1); return r; }
        for(auto &a: g.alts) {
            if(!a.weight) continue;
            Dist d = unit();
            for(auto &it: a.items) { d = concat(d, item(it, depth + 1)); if(too_big) return r; }
            double p = (double) a.weight / total;
            mix(r, d, p, 1 / p);
        }
        return r;
    }
    // number of leaves of the tree of uniform draws (saturating)
    static double sat(double x) { return x > 1e18 ? 1e18 : x; }
    double paths_item(const Item &it) {
        double a = 1;
        if(it.kind == Item::SET) { a = 0; for(auto &x: it.set) a += (double) x.second - x.first + 1; if(a == 0) a = 1; }
        else if(it.kind == Item::GROUP) a = paths(*it.group);
        else if(it.kind == Item::SPECIAL) {
            auto w = env ? env->find(it.name) : Env::const_iterator();
            if(env && w != env->end() && !w->second.words.empty()) {
                if(it.special == 'w') a = w->second.words.size();
                else a = 0, a = markov_paths(w->second);
            }
        }
        double s = 0;
        if(it.max > 4096) return 1e18;
        for(uint64_t k = it.min; k <= it.max; k++) s = sat(s + pow(a, (double) k));
        return it.maybe ? s + 1 : s;
    }
    double markov_paths(const Words &w) {
        // upper bound: product of the totals along the longest chain
        double x = 1;
        size_t len = 0;
        for(auto &s: w.words) if(s.size() > len) len = s.size();
        for(size_t i = 0; i <= len; i++) x = sat(x * w.words.size());
        return x;
    }
    double paths(const Group &g) {
        double s = 0;
        for(auto &a: g.alts) {
            double x = 1;
            for(auto &it: a.items) x = sat(x * paths_item(it));
            s = sat(s + a.weight * x);
        }
        return s < 1 ? 1 : s;
    }
};

inline std::string show(const Str &s) {
    std::string o = "\"";
    char b[16];
    for(uint32_t c: s) {
        if(c >= 0x20 && c < 0x7f) o += (char) c;
        else { snprintf(b, sizeof b, "<%x>", c); o += b; }
    }
    return o + "\"";
}

} // namespace ref
