// minimal JSON value, parser and printer for the command protocol
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J
{
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    double n = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() {}
    J(bool b) : k(BOOL), n(b) {}
    J(int v) : k(NUM), n(v) {}
    J(long v) : k(NUM), n(v) {}
    J(long long v) : k(NUM), n(v) {}
    J(unsigned v) : k(NUM), n(v) {}
    J(unsigned long v) : k(NUM), n(v) {}
    J(double v) : k(NUM), n(v) {}
    J(const char* v) : k(STR), s(v) {}
    J(const std::string& v) : k(STR), s(v) {}
    static J arr() { J j; j.k = ARR; return j; }
    static J obj() { J j; j.k = OBJ; return j; }

    bool has(const std::string& key) const
    {
        for (auto& p : o) if (p.first == key) return true;
        return false;
    }
    const J& operator[](const std::string& key) const
    {
        for (auto& p : o) if (p.first == key) return p.second;
        throw std::runtime_error("harness: missing key " + key);
    }
    J& set(const std::string& key, const J& v)
    {
        for (auto& p : o) if (p.first == key) { p.second = v; return *this; }
        o.emplace_back(key, v);
        return *this;
    }
    J& push(const J& v) { a.push_back(v); return *this; }
    size_t size() const { return a.size(); }
    const J& operator[](size_t i) const { return a.at(i); }
    const J& operator[](int i) const { return a.at(i); }
    const std::string& str() const { if (k != STR) throw std::runtime_error("harness: not a string"); return s; }
    std::string str(const std::string& key, const std::string& def) const { return has(key) ? (*this)[key].str() : def; }
    long i() const { return (long)n; }
    long i(const std::string& key, long def) const { return has(key) ? (*this)[key].i() : def; }
    double d() const { return n; }
    double d(const std::string& key, double def) const { return has(key) ? (*this)[key].d() : def; }

    static void esc(const std::string& s, std::string& out)
    {
        out += '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { out += '\\'; out += c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
            else out += c;
        }
        out += '"';
    }
    void dump(std::string& out) const
    {
        switch (k) {
        case NUL: out += "null"; break;
        case BOOL: out += n ? "true" : "false"; break;
        case NUM: {
            char b[40];
            if (n == std::floor(n) && std::fabs(n) < 9e15) snprintf(b, sizeof b, "%lld", (long long)n);
            else snprintf(b, sizeof b, "%.17g", n);
            out += b;
            break;
        }
        case STR: esc(s, out); break;
        case ARR: {
            out += '[';
            bool f = true;
            for (auto& v : a) { if (!f) out += ','; f = false; v.dump(out); }
            out += ']';
            break;
        }
        case OBJ: {
            out += '{';
            bool f = true;
            for (auto& p : o) { if (!f) out += ','; f = false; esc(p.first, out); out += ':'; p.second.dump(out); }
            out += '}';
            break;
        }
        }
    }
    std::string dump() const { std::string r; dump(r); return r; }

    static J parse(const std::string& t)
    {
        size_t p = 0;
        J j = val(t, p);
        return j;
    }

private:
    static void ws(const std::string& t, size_t& p) { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
    static std::string pstr(const std::string& t, size_t& p)
    {
        std::string r;
        ++p;
        while (p < t.size() && t[p] != '"') {
            if (t[p] == '\\') {
                ++p;
                switch (t[p]) {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u': {
                    unsigned c = strtoul(t.substr(p + 1, 4).c_str(), 0, 16);
                    p += 4;
                    r += (char)c; // bytes only
                    break;
                }
                default: r += t[p];
                }
                ++p;
            } else
                r += t[p++];
        }
        ++p;
        return r;
    }
    static J val(const std::string& t, size_t& p)
    {
        ws(t, p);
        if (p >= t.size()) throw std::runtime_error("harness: json eof");
        char c = t[p];
        if (c == '{') {
            J j = obj();
            ++p; ws(t, p);
            while (t.at(p) != '}') {
                ws(t, p);
                std::string key = pstr(t, p);
                ws(t, p);
                if (t.at(p) != ':') throw std::runtime_error("harness: json colon");
                ++p;
                j.o.emplace_back(key, val(t, p));
                ws(t, p);
                if (t.at(p) == ',') { ++p; ws(t, p); }
            }
            ++p;
            return j;
        }
        if (c == '[') {
            J j = arr();
            ++p; ws(t, p);
            while (t.at(p) != ']') {
                j.a.push_back(val(t, p));
                ws(t, p);
                if (t.at(p) == ',') { ++p; ws(t, p); }
            }
            ++p;
            return j;
        }
        if (c == '"') return J(pstr(t, p));
        if (t.compare(p, 4, "true") == 0) { p += 4; return J(true); }
        if (t.compare(p, 5, "false") == 0) { p += 5; return J(false); }
        if (t.compare(p, 4, "null") == 0) { p += 4; return J(); }
        char* e;
        double d = strtod(t.c_str() + p, &e);
        if (e == t.c_str() + p) throw std::runtime_error("harness: json number");
        p = e - t.c_str();
        return J(d);
    }
};
