// Patterns and wordlists shared by the explorers.
#pragma once
#include "mc.hpp"
#include "ref_pattern.hpp"
using namespace mc;
using ref::Str;

static const struct { const char *name, *text; int order; } LISTS[] = {
    {"one", "x\n", 1},
    {"three", "alpha\nbe\n\xc3\xbc\xe2\x82\xac\n", 2},
    {"chain", "ab\nac\nb\n", 1},
    {"dup", "q\nq\nr", 1},
    {"mixed", "ab\nacd\nabe\nx\n", 2},
    {"averyveryverylongwordlistname", "zz\n", 3},
};
static ref::Env refenv() {
    ref::Env e;
    for(auto &l: LISTS) {
        ref::Words w;
        w.order = l.order;
        std::string t = l.text, cur;
        t += "\n";
        for(char c: t) {
            if(c == '\n') {
                if(!cur.empty()) {
                    std::vector<ref::U8> u;
                    ref::utf8_all(cur, &u);
                    Str s;
                    for(auto &x: u) s.push_back(x.cp);
                    w.words.push_back(s);
                }
                cur.clear();
            } else cur += c;
        }
        e[l.name] = w;
    }
    return e;
}
static ref::Env RENV;


static std::vector<std::string> structured(int maxcost) {
    // patterns by cost: exact-cost lists of alternatives, sequences and items
    std::vector<std::vector<std::string>> item(maxcost + 1), seq(maxcost + 1), alts(maxcost + 1), atom(maxcost + 1);
    const char *post[] = {"?", "{0}", "{2}", "{0,1}", "{1,3}"};
    const char *weight[] = {"{0}", "{2}", "{3}"};
    std::vector<std::vector<std::string>> walt(maxcost + 1);
    for(int c = 0; c <= maxcost; c++) {
        // atoms
        if(c == 1) for(auto a: {"a", "b", "[ab]", "[a-c]"}) atom[c].push_back(a);
        if(c >= 2) for(auto &g: alts[c - 2]) atom[c].push_back("(" + g + ")");
        // items: atom or atom with one or two postfix operators
        for(auto &a: atom[c]) item[c].push_back(a);
        if(c >= 1) for(auto &a: atom[c - 1]) for(auto p: post) item[c].push_back(a + p);
        if(c >= 2) for(auto &a: atom[c - 2]) for(auto p: {"?{2}", "{0,1}?"}) item[c].push_back(a + p);
        // sequences
        if(c == 0) seq[c].push_back("");
        for(int k = 1; k <= c; k++) for(auto &i: item[k]) for(auto &s: seq[c - k]) seq[c].push_back(i + s);
        // weighted alternatives
        for(auto &s: seq[c]) walt[c].push_back(s);
        if(c >= 1) for(auto &s: seq[c - 1]) for(auto w: weight) walt[c].push_back(w + s);
        // alternation
        for(auto &s: walt[c]) alts[c].push_back(s);
        for(int k = 0; k + 1 <= c; k++) for(auto &s: walt[k]) for(auto &r: alts[c - k - 1]) alts[c].push_back(s + "|" + r);
    }
    std::vector<std::string> out;
    for(auto &l: alts) for(auto &s: l) out.push_back(s);
    return out;
}

static std::string rep(const std::string &s, int n) { std::string o; while(n-- > 0) o += s; return o; }
