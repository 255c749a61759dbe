// The JSON parser and writer of the control protocol, on every document within
// the bounds, against an independent strict parser and writer kept here.
#include "mc.hh"
#include "Jzon.h"
#include <memory>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

typedef std::string S;
struct J { char k; S s; std::vector<std::pair<S, J>> c; J(char k_ = 'z', const S &s_ = "") : k(k_), s(s_) {} };

static bool same(const J &a, const J &b) {
    if (a.k != b.k) return false;
    if (a.k == 'n') return strtod(a.s.c_str(), 0) == strtod(b.s.c_str(), 0);
    if (a.s != b.s || a.c.size() != b.c.size()) return false;
    for (size_t i = 0; i < a.c.size(); i++) if (a.c[i].first != b.c[i].first || !same(a.c[i].second, b.c[i].second)) return false;
    return true;
}
static S utf8(unsigned c) {
    S r;
    if (c < 0x80) r += c; else if (c < 0x800) { r += 0xC0 | c >> 6; r += 0x80 | (c & 63); }
    else if (c < 0x10000) { r += 0xE0 | c >> 12; r += 0x80 | (c >> 6 & 63); r += 0x80 | (c & 63); }
    else { r += 0xF0 | c >> 18; r += 0x80 | (c >> 12 & 63); r += 0x80 | (c >> 6 & 63); r += 0x80 | (c & 63); }
    return r;
}
// strict parser (RFC 8259, plus words in any case)
struct Strict {
    const S &t; size_t p; bool ok;
    Strict(const S &t_) : t(t_), p(0), ok(true) {}
    void ws() { while (p < t.size() && strchr(" \t\n\r", t[p]) && t[p]) p++; }
    bool eat(char c) { ws(); if (p < t.size() && t[p] == c) { p++; return true; } return false; }
    bool str(S &o) {
        if (!eat('"')) return false;
        for (;;) {
            if (p >= t.size()) return false;
            char c = t[p++];
            if (c == '"') return true;
            if ((unsigned char)c < 0x20) return false;
            if (c != '\\') { o += c; continue; }
            if (p >= t.size()) return false;
            c = t[p++];
            if (c == 'u') {
                unsigned v = 0, w = 0; if (!hex(v)) return false;
                if (v >= 0xD800 && v < 0xDC00) { if (t.compare(p, 2, "\\u")) return false; p += 2; if (!hex(w)) return false; v = 0x10000 + ((v & 0x3ff) << 10) + (w & 0x3ff); }
                o += utf8(v);
                continue;
            }
            const char *e = "\"\\/bfnrt", *u = "\"\\/\b\f\n\r\t", *q = c ? strchr(e, c) : 0;
            if (!q) return false;
            o += u[q - e];
        }
    }
    bool hex(unsigned &v) { if (p + 4 > t.size()) return false; for (int i = 0; i < 4; i++) { char c = t[p++]; if (!isxdigit(c)) return false; v = v * 16 + (isdigit(c) ? c - '0' : (c | 32) - 'a' + 10); } return true; }
    bool val(J &o) {
        ws(); if (p >= t.size()) return false;
        char c = t[p];
        if (c == '{' || c == '[') {
            char e = c == '{' ? '}' : ']'; o.k = c == '{' ? 'o' : 'a'; p++;
            if (eat(e)) return true;
            do { S n; ws(); if (o.k == 'o' && (!str(n) || !eat(':'))) return false; J v; if (!val(v)) return false; o.c.push_back({n, v}); } while (eat(','));
            return eat(e);
        }
        if (c == '"') { o.k = 's'; return str(o.s); }
        S w; while (p < t.size() && (isalnum(t[p]) || strchr("+-.", t[p])) && t[p]) w += t[p++];
        S l = w; for (auto &x : l) x = tolower(x);
        if (l == "null") { o = J('z'); return true; }
        if (l == "true" || l == "false") { o = J('b', l); return true; }
        o = J('n', w);
        size_t i = 0; if (w[i] == '-') i++;
        if (!isdigit(w[i])) return false;
        if (w[i] == '0') i++; else while (isdigit(w[i])) i++;
        if (w[i] == '.') { i++; if (!isdigit(w[i])) return false; while (isdigit(w[i])) i++; }
        if (w[i] == 'e' || w[i] == 'E') { i++; if (w[i] == '+' || w[i] == '-') i++; if (!isdigit(w[i])) return false; while (isdigit(w[i])) i++; }
        return i == w.size();
    }
    bool doc(J &o) { if (!val(o)) return false; ws(); return p == t.size(); }
};
static bool strict(const S &t, J &o) { return Strict(t).doc(o); }

static S esc(const S &s, bool u) {
    S r; char b[16];
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (u && c < 0x80) { sprintf(b, "\\u%04X", c); r += b; }
        else if (u && c == 0xC3) { sprintf(b, "\\u%04x", (c & 31) << 6 | (s[i + 1] & 63)); r += b; i++; }
        else if (u && c == 0xF0) { unsigned v = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63); v -= 0x10000; sprintf(b, "\\u%04x", 0xD800 | v >> 10); r += b; sprintf(b, "\\u%04x", 0xDC00 | (v & 0x3ff)); r += b; i += 3; }
        else if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20) { sprintf(b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static const char *gaps[] = {"", " \t\r\n", "/* a, { */", "// ]}\n", "/**/ "};
static S text(const J &j, bool u, int g) {
    S r = gaps[g];
    switch (j.k) {
    case 'z': r += "null"; break;
    case 'b': case 'n': r += j.s; break;
    case 's': r += '"' + esc(j.s, u) + '"'; break;
    default:
        r += j.k == 'o' ? "{" : "[";
        for (size_t i = 0; i < j.c.size(); i++) { if (i) { r += ","; r += gaps[g]; } if (j.k == 'o') { r += '"' + esc(j.c[i].first, u) + '"'; r += gaps[g]; r += ":"; } r += text(j.c[i].second, u, g); }
        r += gaps[g]; r += j.k == 'o' ? "}" : "]";
    }
    return r + gaps[g];
}
// what the tree of the implementation holds
static J read(const Jzon::Node &n) {
    J r;
    if (n.IsObject()) { r.k = 'o'; const Jzon::Object &o = n.AsObject(); for (auto it = o.begin(); it != o.end(); ++it) { const Jzon::NamedNode nn = *it; r.c.push_back({nn.first, read(nn.second)}); } if (o.GetCount() != r.c.size()) mc::fail("count", "an object of %zu members counts %zu", r.c.size(), o.GetCount()); }
    else if (n.IsArray()) { r.k = 'a'; const Jzon::Array &a = n.AsArray(); for (size_t i = 0; i < a.GetCount(); i++) r.c.push_back({"", read(a.Get(i))}); size_t k = 0; for (auto it = a.begin(); it != a.end(); ++it) k++; if (k != r.c.size()) mc::fail("count", "iterating an array"); }
    else if (n.IsNull()) r.k = 'z';
    else if (n.IsString()) { r.k = 's'; r.s = n.ToString(); }
    else if (n.IsBool()) { r.k = 'b'; r.s = n.ToBool() ? "true" : "false"; }
    else if (n.IsNumber()) { r.k = 'n'; r.s = n.ToString(); double d = strtod(r.s.c_str(), 0); MC_CHECK(n.ToDouble() == d, "number", "%s reads as %.17g", r.s.c_str(), n.ToDouble());
        int i = d >= INT_MAX ? INT_MAX : d <= INT_MIN ? INT_MIN : (int)d; MC_CHECK(n.ToInt() == i, "number", "%s reads as the integer %d", r.s.c_str(), n.ToInt()); }
    else r.k = '?';
    return r;
}
static S show(const J &j) { return text(j, false, 0); }
static void build(Jzon::Object &o, const J &j);
static void build(Jzon::Array &o, const J &j);
template<class F> static void child(const J &v, F add) {
    if (v.k == 'o') { Jzon::Object x; build(x, v); add((Jzon::Node&)x); }
    else if (v.k == 'a') { Jzon::Array x; build(x, v); add((Jzon::Node&)x); }
    else if (v.k == 's') { Jzon::Value x(v.s); add((Jzon::Node&)x); }
    else if (v.k == 'z') { Jzon::Value x; add((Jzon::Node&)x); }
    else if (v.k == 'b') { Jzon::Value x(v.s == "true"); add((Jzon::Node&)x); }
    else { Jzon::Value x(Jzon::Value::VT_NUMBER, v.s); add((Jzon::Node&)x); }
}
static void build(Jzon::Object &o, const J &j) { for (auto &c : j.c) child(c.second, [&](Jzon::Node &n) { o.Add(c.first, n); }); }
static void build(Jzon::Array &o, const J &j) { for (auto &c : j.c) child(c.second, [&](Jzon::Node &n) { o.Add(n); }); }

static const Jzon::Format formats[] = {Jzon::NoFormat, Jzon::StandardFormat, {false, true, false, 2}, {true, false, false, 3}};
static void written(const Jzon::Object &o, const J &want, const char *what) {
    for (auto &f : formats) {
        Jzon::Writer w(o, f); w.Write(); w.Write();
        J back; MC_CHECK(strict(w.GetResult(), back), "written", "%s is written as malformed text: %s", what, w.GetResult().c_str());
        MC_CHECK(same(back, want), "written", "%s is written as %s", what, w.GetResult().c_str());
    }
}
// a document, then what the tree must be
static void accepted(Jzon::Parser &p, Jzon::Object &root, const S &t, const J &want) {
    root.Clear(); p.SetJson(t);
    MC_CHECK(p.Parse(), "refused", "well-formed document refused (%s): %s", p.GetError().c_str(), t.c_str());
    J got = read(root);
    MC_CHECK(same(got, want), "tree", "%s reads as %s", t.c_str(), show(got).c_str());
}

static const char *leafstr[] = {"", "a", "x\"y", "t\\", "{[,:]}", "// /* ", "\xC3\xA9\n", "\xF0\x9F\x98\x80\x01"};
static J gen(int &left, int depth) {
    left--;
    int leaves = mc::param("leaves", 12), n = mc::choose(leaves + (depth > 0 ? 2 : 0));
    static const char *nums[] = {"0", "-17", "1.5e-05"};
    if (n < leaves) { if (n == 0) return J('z'); if (n < 3) return J('b', n == 1 ? "true" : "false"); if (n < 6) return J('n', nums[n - 3]); return J('s', leafstr[(n - 6) % 8]); }
    J r(n == leaves ? 'o' : 'a');
    while (left > 0 && mc::flip()) { static const char *keys[] = {"a", "", "k\"\\", "b"}; S k = r.k == 'o' ? keys[mc::choose(mc::param("keys", 3))] : ""; J c = gen(left, depth - 1); r.c.push_back({k, c}); }
    return r;
}

static const J &probe() { static J r; static bool init; if (!init) { init = true; strict("{\"events\":[{\"action\":\"q\",\"n\":3},true]}", r); } return r; }

// what must be refused whatever the separators are
static bool hopeless(const S &t) {
    std::vector<char> st; bool started = false, ended = false; S w;
    auto word = [&]() -> bool { if (w.empty()) return false; S l = w; for (auto &c : l) c = tolower(c); w.clear(); if (l == "null" || l == "true" || l == "false") return false; for (char c : l) if (!isdigit(c) && !strchr("+-.e", c)) return true; return !isdigit(l[0]) && l[0] != '-' && l[0] != '.'; };
    for (size_t i = 0; i < t.size(); i++) {
        char c = t[i]; if (strchr(" \n\t\r\f", c)) continue;
        if (ended) return true;
        if (!started && (c == ',' || c == ':')) continue;      // separators are read leniently
        if (!started && c != '{') return true;
        started = true;
        if (strchr("{}[],:\"", c)) { if (word()) return true; } else { w += c; continue; }
        if (c == '{' || c == '[') st.push_back(c);
        else if (c == '}' || c == ']') { if (st.empty() || st.back() != (c == '}' ? '{' : '[')) return true; st.pop_back(); if (st.empty()) ended = true; }
        else if (c == '"') { for (i++; ; i++) { if (i >= t.size()) return true; if (t[i] == '"') break; if (t[i] == '\\') i++; } }
    }
    return !ended;
}

static void attempt(const S &t) {
    size_t before = 0, after = 0;
    bool ok, exp; 
    {
        Jzon::Object root; Jzon::Parser p(root);
        if (mc::param("warm", 0)) accepted(p, root, "{\"w\":[1,2,{\"x\":\"y\"}]}", [] { J r; strict("{\"w\":[1,2,{\"x\":\"y\"}]}", r); return r; }());
        mc::op("parse %s", t.c_str());
        root.Clear(); p.SetJson(t);
        before = __sanitizer_get_current_allocated_bytes();
        ok = p.Parse();
        J want; exp = strict(t, want) && want.k == 'o';
        if (exp) { MC_CHECK(ok, "refused", "well-formed document refused (%s): %s", p.GetError().c_str(), t.c_str()); J got = read(root); MC_CHECK(same(got, want), "tree", "%s reads as %s", t.c_str(), show(got).c_str()); }
        else if (hopeless(t)) { MC_CHECK(!ok, "accepted", "malformed document accepted: %s", t.c_str()); MC_CHECK(!p.GetError().empty(), "error", "no error for %s", t.c_str()); }
        accepted(p, root, "{\"events\":[{\"action\":\"q\",\"n\":3},true]}", probe());
        mc::state(mc::Hash().add(ok).add(exp).add(p.GetError()).h);
    }
    {   // nothing stays behind
        probe();
        for (int i = 0; i < 2; i++) { before = __sanitizer_get_current_allocated_bytes(); { Jzon::Object root; Jzon::Parser p(root, t); p.Parse(); } after = __sanitizer_get_current_allocated_bytes(); }
        MC_CHECK(after == before, "leak", "parsing %s leaves %ld bytes behind", t.c_str(), (long)(after - before));
    }
    mc::outcome(mc::Hash().add(ok).add(exp).h);
}

void mc_body() {
    const S mode = mc::sparam("mode", "tree");
    if (mode == "tree") {
        int left = mc::param("nodes", 3); J d('o');
        left++; 
        while (left > 1 && mc::flip()) { static const char *keys[] = {"a", "", "k\"\\", "b"}; S k = keys[mc::choose(mc::param("keys", 3))]; left--; J c = gen(left, mc::param("depth", 3)); left++; d.c.push_back({k, c}); }
        bool u = mc::flip(); int g = mc::choose(5);
        Jzon::Object root; Jzon::Parser p(root);
        S t = text(d, u, g); mc::op("parse %s", t.c_str());
        accepted(p, root, t, d);
        written(root, d, "the parsed tree");
        Jzon::Object copy(root); root.Clear(); written(copy, d, "a copy");
        for (auto &c : d.c) { MC_CHECK(copy.Has(c.first), "member", "member \"%s\" not found", c.first.c_str()); const J *f = 0; for (auto &x : d.c) if (x.first == c.first) { f = &x.second; break; } MC_CHECK(same(read(copy.Get(c.first)), *f), "member", "member \"%s\" is another one", c.first.c_str()); }
        MC_CHECK(!copy.Has("none"), "member", "a member that does not exist");
        Jzon::Object made; build(made, d); written(made, d, "the built tree");
        Jzon::Writer w(made, formats[mc::choose(4)]); w.Write(); accepted(p, root, w.GetResult(), d);
        mc::state(mc::Hash().add(t).h); mc::outcome(mc::Hash().add(show(d)).h);
    } else if (mode == "string") {
        static const char *al[] = {"a", "\"", "\\", "/", "\n", "\x01", "n", "u", "{", "*", " ", "\xC3\xA9", "\xF0\x9F\x98\x80", "0", "]", ","};
        int len = mc::choose(mc::param("len", 4) + 1); S s; for (int i = 0; i < len; i++) s += al[mc::choose(mc::param("alpha", 16))];
        J d('o'), a('a'); bool key = mc::flip();
        a.c.push_back({"", J('s', s)}); a.c.push_back({"", J('s', "z")}); d.c.push_back({key ? s : "k", a}); d.c.push_back({"l", J('s', s)});
        bool u = mc::flip(); S t = text(d, u, 0);
        Jzon::Object root; Jzon::Parser p(root); mc::op("parse %s", t.c_str());
        accepted(p, root, t, d); written(root, d, "the parsed tree");
        Jzon::Object made; build(made, d); written(made, d, "the built tree"); MC_CHECK(same(read(made), d), "set", "a string set in a value changes");
        Jzon::Writer w(made); w.Write(); accepted(p, root, w.GetResult(), d);
        mc::state(mc::Hash().add(t).h); mc::outcome(mc::Hash().add(s).h);
    } else if (mode == "number") {
        static const char *in[] = {"0", "7", "10", "123456", "2147483647", "2147483648", "99999999999", "4294967297"}, *fr[] = {"", ".5", ".25", ".0", ".999999"}, *ex[] = {"", "e3", "E+2", "e-2", "e0", "E10", "e-05"};
        S s; if (mc::flip()) s += "-"; s += in[mc::choose(8)]; s += fr[mc::choose(5)]; s += ex[mc::choose(7)];
        J d('o'); d.c.push_back({"n", J('n', s)}); J a('a'); a.c.push_back({"", J('n', s)}); d.c.push_back({"a", a}); if (mc::flip()) d.c.push_back({"z", J('b', "false")});
        Jzon::Object root; Jzon::Parser p(root); S t = text(d, false, mc::choose(2)); mc::op("parse %s", t.c_str());
        accepted(p, root, t, d); written(root, d, "the parsed tree");
        double v = strtod(s.c_str(), 0); Jzon::Object made; made.Add("d", v);
        if (fabs(v) < INT_MAX) { made.Add("i", (int)v); } made.Add("b", s[0] == '-');
        Jzon::Writer w(made); w.Write(); mc::op("written %s", w.GetResult().c_str()); J back; MC_CHECK(strict(w.GetResult(), back), "written", "%s is written as %s", s.c_str(), w.GetResult().c_str());
        root.Clear(); p.SetJson(w.GetResult()); MC_CHECK(p.Parse(), "refused", "own output refused: %s", w.GetResult().c_str());
        MC_CHECK(fabs(root.Get("d").ToDouble() - v) <= fabs(v) * 1e-5, "written", "%.17g becomes %.17g", v, root.Get("d").ToDouble());
        MC_CHECK(fabs(root.Get("d").ToFloat() - v) <= fabs(v) * 1e-5, "written", "%.17g becomes %.9g", v, (double)root.Get("d").ToFloat());
        if (root.Has("i")) MC_CHECK(root.Get("i").ToInt() == (int)v, "written", "%d becomes %d", (int)v, root.Get("i").ToInt());
        MC_CHECK(root.Get("b").ToBool() == (s[0] == '-'), "written", "the truth value changes");
        mc::state(mc::Hash().add(s).h); mc::outcome(mc::Hash().add(s).h);
    } else if (mode == "tokens") {
        static const char *al[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "x", "true", "\"u", "\"\\\\\"", "-"};
        int len = mc::choose(mc::param("len", 5) + 1); S t; if (mc::param("open", 0)) t = "{\"e\":";
        for (int i = 0; i < len; i++) t += al[mc::choose(mc::param("alpha", 13))];
        attempt(t);
    } else {    // every single-character change of real requests, and every cut
        static const char *docs[] = {
            "{\"events\":[{\"action\":\"configure\",\"filterId\":12,\"params\":{\"width\":-1.5e2,\"n\":null}}]}",
            "{\"a\\\\\":\"q\\\"\\u00e9\\\\\",\"b\":[[],{},[{}]],\"c\":TRUE}"};
        S t = docs[mc::choose(2)]; size_t at = mc::choose(t.size());
        int what = mc::choose(3);
        static const char al[] = "{}[],:\"\\x0.-e n";
        if (what == 0) t.resize(at); else if (what == 1) t.erase(at, 1); else { char c = al[mc::choose(sizeof al - 1)]; if (mc::flip()) t[at] = c; else t.insert(at, 1, c); }
        attempt(t);
    }
}
void mc_setup() {}
