// minimal JSON reader (scenario files are written by our own generators)
#pragma once
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    double d = 0;
    bool b = false;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    const J* find(const char* k) const {
        for (auto& x : o) if (x.first == k) return &x.second;
        return nullptr;
    }
    const J& at(const char* k) const {
        auto* p = find(k);
        if (!p) throw std::runtime_error(std::string("missing key ") + k);
        return *p;
    }
    bool has(const char* k) const { return find(k) != nullptr; }
    long i(const char* k, long def = 0) const { auto* p = find(k); return p ? p->num() : def; }
    std::string str(const char* k, const char* def = "") const { auto* p = find(k); return p ? p->s : def; }
    long num() const { return t == BOOL ? b : (long)d; }
    const std::vector<J>& arr(const char* k) const { static const std::vector<J> e; auto* p = find(k); return p ? p->a : e; }

    static J parse(const std::string& x) { const char* p = x.c_str(); J j = val(p); return j; }

private:
    static void ws(const char*& p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; }
    static std::string qs(const char*& p) {
        std::string r;
        p++;
        while (*p && *p != '"') {
            if (*p == '\\') {
                p++;
                switch (*p) { case 'n': r += '\n'; break; case 't': r += '\t'; break; default: r += *p; }
                p++;
            } else r += *p++;
        }
        p++;
        return r;
    }
    static J val(const char*& p) {
        ws(p);
        J j;
        if (*p == '{') {
            j.t = OBJ; p++; ws(p);
            while (*p != '}') {
                ws(p);
                std::string k = qs(p);
                ws(p);
                if (*p++ != ':') throw std::runtime_error("json: expected ':'");
                j.o.emplace_back(k, val(p));
                ws(p);
                if (*p == ',') p++;
                ws(p);
            }
            p++;
        } else if (*p == '[') {
            j.t = ARR; p++; ws(p);
            while (*p != ']') {
                j.a.push_back(val(p));
                ws(p);
                if (*p == ',') p++;
                ws(p);
            }
            p++;
        } else if (*p == '"') { j.t = STR; j.s = qs(p); }
        else if (!strncmp(p, "true", 4)) { j.t = BOOL; j.b = true; p += 4; }
        else if (!strncmp(p, "false", 5)) { j.t = BOOL; p += 5; }
        else if (!strncmp(p, "null", 4)) { p += 4; }
        else { char* e; j.t = NUM; j.d = strtod(p, &e); if (e == p) throw std::runtime_error("json: bad value"); p = e; }
        return j;
    }
};
