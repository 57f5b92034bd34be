// A strict RFC 8259 reader, for judging JSON the code under test prints.
#pragma once
#include <stdlib.h>
#include <stdint.h>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "ref_utf8.hpp"

namespace ref {

struct Json {
    enum K { NUL, FALSE_, TRUE_, NUM, STR, ARR, OBJ } k = NUL;
    double num = 0;
    std::string text;                               // number as written
    std::vector<uint32_t> str;
    std::vector<Json> arr;
    std::vector<std::pair<std::vector<uint32_t>, Json>> obj;
};

struct JsonReader {
    const std::string &s;
    size_t i = 0;
    std::string err;
    JsonReader(const std::string &s): s(s) {}
    bool bad(const char *m) { if(err.empty()) err = m; return false; }
    void ws() { while(i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
    int hex4() {
        if(i + 4 > s.size()) return -1;
        int v = 0;
        for(int k = 0; k < 4; k++) {
            char c = s[i++];
            int h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if(h < 0) return -1;
            v = v * 16 + h;
        }
        return v;
    }
    // characters of a string up to a quote (or the end, for a bare body)
    bool body(std::vector<uint32_t> *o, bool bare) {
        std::string raw;
        auto flush = [&]() {
            std::vector<U8> u;
            if(!utf8_all(raw, &u)) return bad("malformed UTF-8 in string");
            for(auto &x: u) o->push_back(x.cp);
            raw.clear();
            return true;
        };
        while(i < s.size()) {
            unsigned char c = s[i];
            if(c == '"') { if(bare) return bad("unescaped quote"); return flush(); }
            if(c < 0x20) return bad("raw control character in string");
            i++;
            if(c != '\\') { raw += (char) c; continue; }
            if(!flush()) return false;
            if(i >= s.size()) return bad("escape at end");
            char e = s[i++];
            switch(e) {
                case '"': case '\\': case '/': o->push_back(e); break;
                case 'b': o->push_back(8); break;
                case 'f': o->push_back(12); break;
                case 'n': o->push_back(10); break;
                case 'r': o->push_back(13); break;
                case 't': o->push_back(9); break;
                case 'u': {
                    int v = hex4();
                    if(v < 0) return bad("malformed \\u escape");
                    if(v >= 0xd800 && v < 0xdc00) {
                        if(i + 2 > s.size() || s[i] != '\\' || s[i + 1] != 'u') return bad("lone surrogate");
                        i += 2;
                        int w = hex4();
                        if(w < 0xdc00 || w > 0xdfff) return bad("lone surrogate");
                        o->push_back(0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00));
                    } else if(v >= 0xdc00 && v < 0xe000) return bad("lone surrogate");
                    else o->push_back(v);
                    break;
                }
                default: return bad("unknown escape");
            }
        }
        if(!bare) return bad("unterminated string");
        return flush();
    }
    bool string(std::vector<uint32_t> *o) {
        if(i >= s.size() || s[i] != '"') return bad("string expected");
        i++;
        if(!body(o, false)) return false;
        i++;
        return true;
    }
    bool number(Json *j) {
        size_t b = i;
        auto digits = [&]() { size_t n = 0; while(i < s.size() && s[i] >= '0' && s[i] <= '9') i++, n++; return n; };
        if(i < s.size() && s[i] == '-') i++;
        if(i < s.size() && s[i] == '0') i++;
        else if(!digits()) return bad("number expected");
        if(i < s.size() && s[i] == '.') { i++; if(!digits()) return bad("fraction expected"); }
        if(i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            i++;
            if(i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
            if(!digits()) return bad("exponent expected");
        }
        j->k = Json::NUM;
        j->text = s.substr(b, i - b);
        j->num = strtod(j->text.c_str(), NULL);
        return true;
    }
    bool value(Json *j, int depth = 0) {
        ws();
        if(depth > 100) return bad("too deep");
        if(i >= s.size()) return bad("value expected");
        char c = s[i];
        if(c == '[') {
            i++;
            j->k = Json::ARR;
            ws();
            if(i < s.size() && s[i] == ']') { i++; return true; }
            for(;;) {
                j->arr.emplace_back();
                if(!value(&j->arr.back(), depth + 1)) return false;
                ws();
                if(i < s.size() && s[i] == ',') { i++; continue; }
                if(i < s.size() && s[i] == ']') { i++; return true; }
                return bad("',' or ']' expected");
            }
        }
        if(c == '{') {
            i++;
            j->k = Json::OBJ;
            ws();
            if(i < s.size() && s[i] == '}') { i++; return true; }
            for(;;) {
                j->obj.emplace_back();
                ws();
                if(!string(&j->obj.back().first)) return false;
                ws();
                if(i >= s.size() || s[i] != ':') return bad("':' expected");
                i++;
                if(!value(&j->obj.back().second, depth + 1)) return false;
                ws();
                if(i < s.size() && s[i] == ',') { i++; continue; }
                if(i < s.size() && s[i] == '}') { i++; return true; }
                return bad("',' or '}' expected");
            }
        }
        if(c == '"') { j->k = Json::STR; return string(&j->str); }
        for(auto w: {std::make_pair("null", Json::NUL), std::make_pair("true", Json::TRUE_), std::make_pair("false", Json::FALSE_)})
            if(s.compare(i, strlen(w.first), w.first) == 0) { i += strlen(w.first); j->k = w.second; return true; }
        return number(j);
    }
    bool document(Json *j) {
        if(!value(j)) return false;
        ws();
        if(i != s.size()) return bad("trailing characters");
        return true;
    }
};

} // namespace ref
