// Template texts composed from the grammar alone, and damage to them.
#pragma once
#include "gen.h"
namespace {
// templates composed from the grammar alone
struct Make {
    Src &s; int left; bool nl;
    std::string ws(bool must = false) { int k = s.draw(12); if (k < 7) return must ? " " : ""; if (k == 11 && nl) return s.draw(2) ? "\n" : " \n\t"; return k == 10 ? "  " : " "; }
    std::string id() { static const std::vector<std::string> I = {"a", "foo", "b-c", "x1", "true1", "nullable", "as", "asx", "undefinedly", "$v", "_u", "é", "12x", "a:b", "e?f", "-", "elsewhere", "falsey"}; static const std::vector<std::string> B = {"[a b]", "[]", "[12]", "[this]", "[..]", "[x\ny]", "[{{]", "[}}]", "[\"]", "[a\\]b]"}; return s.draw(6) == 5 ? s.pick(B) : s.pick(I); }
    std::string path() { std::string o; int k = s.draw(8); if (k == 7) o = "this"; else if (k == 6) return "."; else if (k == 5) { o = ".."; int n = s.draw(3); while (n--) o += "/.."; if (s.draw(3) == 2) return o; } else if (k == 4) o = "."; else o = id(); int n = o.empty() ? 1 : k == 4 ? 1 : s.weighted({6, 2, 1}); if (o == "." && !n) return o; while (n--) o += std::string(k >= 4 || s.draw(3) == 2 ? "/" : ".") + id(); return o; }
    std::string name() { static const std::vector<std::string> L = {"\"str\"", "'it''s'", "\"q\\\"q\"", "'s\\'s'", "1", "-12", "3.5", "-0.25", "true", "false", "null", "undefined", "\"\"", "\"a\nb\"", "\"}}\"", "'{{x}}'", "\"\\\\ \""}; int k = s.draw(10); if (k < 6) return path(); if (k == 6) return "@" + id() + (s.draw(3) == 2 ? "/" + id() : ""); std::string l = s.pick(L); if (l == "'it''s'") l = "'its'"; return l; }
    std::string param(int d) { return d < 3 && s.draw(6) == 5 ? "(" + ws() + call(d + 1) + ws() + ")" : name(); }
    std::string call(int d) { std::string o = name(); int n = s.weighted({5, 3, 2, 1}); while (n--) o += ws(true) + param(d); n = s.weighted({6, 2, 1}); while (n--) o += ws(true) + hk() + ws() + "=" + ws() + param(d); return o; }
    std::string hk() { static const std::vector<std::string> K = {"k", "key", "[a b]", "as", "b-c"}; return s.pick(K); }
    std::string st() { return s.draw(6) == 5 ? "~" : ""; }
    std::string text() { static const std::vector<std::string> T = {"text", "\n", "a {b} c", "}}", " ", "\n\n", "\\{{esc}} ", "\\", "two\nlines\n", "{ ", "\r\n", "<p>", "\\x", "} }", "~", "\t"}; std::string o = s.pick(T); if (s.draw(8) == 7) o += s.draw(2) ? std::string("\n\n\n\n\n\n") : std::string(1, '\0'); return o; }
    std::string bp() { if (s.draw(5) != 4) return ""; return ws(true) + (s.draw(4) == 3 ? "as  |" : "as |") + ws() + "a" + (s.draw(2) ? " b" : "") + ws() + "|"; }
    // the source text of what the closing tag has to repeat: same value, maybe other spelling
    std::string body(int d) { std::string o; int n = s.weighted({2, 4, 3, 2}); while (n-- > 0 && left > 0) o += stmt(d); return o; }
    std::string inverse(int d) { static const std::vector<std::string> E = {"{{else}}", "{{^}}", "{{ else }}", "{{~else~}}", "{{~^~}}", "{{^ }}", "{{ else~}}"}; std::string o; int n = s.weighted({5, 2, 1}); while (n--) o += "{{" + st() + (s.draw(4) == 3 ? " " : "") + "else " + call(0) + bp() + ws() + st() + "}}" + body(d); if (s.draw(3) == 2) o += s.pick(E) + body(d); return o; }
    std::string stmt(int d) {
        left--; std::string n, o; int k = s.weighted({8, 5, 1, 2, 1, d < 5 ? 5 : 0, d < 5 ? 2 : 0, 1, 2, d < 5 ? 2 : 0, 2, 1});
        switch (k) {
        case 0: return text();
        case 1: return "{{" + st() + ws() + call(0) + ws() + st() + "}}";
        case 2: return std::string(s.draw(2) ? "{{&" : "{{~&") + ws() + call(0) + ws() + st() + "}}";
        case 3: return "{{" + st() + "{" + ws() + call(0) + ws() + "}" + st() + "}}";
        case 4: return "{{" + st() + "*" + ws() + call(0) + ws() + "}}";
        case 5: { n = name(); bool dec = s.draw(12) == 11; o = "{{" + st() + "#" + (dec ? "*" : "") + ws() + n; int m = s.weighted({4, 3, 1}); while (m--) o += ws(true) + param(0); if (s.draw(5) == 4) o += " " + hk() + "=" + param(0); o += bp() + ws() + st() + "}}" + body(d + 1); if (!dec && s.draw(3) == 2) o += inverse(d + 1); return o + "{{" + st() + "/" + ws() + n + ws() + st() + "}}"; }
        case 6: { n = name(); o = "{{" + st() + "^" + ws() + n + (s.draw(3) == 2 ? " " + param(0) : "") + bp() + ws() + st() + "}}" + body(d + 1); if (s.draw(3) == 2) o += inverse(d + 1); return o + "{{" + st() + "/" + ws() + n + ws() + st() + "}}"; }
        case 7: { static const std::vector<std::string> N = {"raw", "x1", "12", "b-c"}; n = s.pick(N); static const std::vector<std::string> T = {"", "{{x}}", "{{{{in}}}} {{{{/in}}}}", "a\n{{#b}}\n", "}}}}", "{ "}; std::string c = s.pick(T) + s.pick(T); return "{{{{" + ws() + n + (s.draw(3) == 2 ? " " + param(0) : "") + ws() + "}}}}" + c + "{{{{/" + n + "}}}}"; }
        case 8: { o = "{{" + st() + ">" + ws() + (s.draw(5) == 4 ? "(" + call(0) + ")" : name()); if (s.draw(3) == 2) o += ws(true) + param(0); if (s.draw(3) == 2) o += ws(true) + hk() + "=" + param(0); return o + ws() + st() + "}}"; }
        case 9: { n = name(); o = "{{" + st() + "#>" + ws() + n; if (s.draw(3) == 2) o += ws(true) + param(0); if (s.draw(3) == 2) o += ws(true) + hk() + "=" + param(0); return o + ws() + st() + "}}" + body(d + 1) + "{{" + st() + "/" + ws() + n + ws() + st() + "}}"; }
        case 10: { static const std::vector<std::string> C = {"{{! note }}", "{{!}}", "{{!-- a }} b --}}", "{{~! x ~}}", "{{!--\n\n--}}", "{{! a\nb }}", "{{~!-- y --~}}", "{{!----}}", "{{!-x-}}", "{{!--}}", "{{! {{nest }}", "{{!-- - -- -}} --}}"}; return s.pick(C); }
        default: return "text\n";
        }
    }
};
std::string damage(Src &s, std::string t, std::string &how) {
    static const std::vector<std::string> bits = {"{{", "}}", "{{/a}}", "{{else}}", "{{^}}", "{{#a}}", "{{#b}}\n", "\"", "'", "(", ")", "=", "|", "as |", "@", "/", ".", "..", "[", "]", "}", "{", "{{{", "}}}", "{{{{", "}}}}", "{{>", "{{#>", "{{/", "{{!", "{{!--", "--}}", "!", "#", "%", "~", "&", "\\", " x ", "\n", "{{{{/raw}}}}", "{{else if x}}", "/..", "/this", "/.", "/../", "<", ",", "`", ";", "*", "^"};
    std::vector<size_t> tags; for (size_t k = t.find("{{"); k != std::string::npos; k = t.find("{{", k + 2)) tags.push_back(k);
    std::vector<size_t> ends; for (size_t k = t.find("{{/"); k != std::string::npos; k = t.find("{{/", k + 3)) ends.push_back(k);
    auto pos = [&]() -> size_t { if (tags.size() && s.draw(3)) return std::min(t.size(), s.pick(tags) + s.draw(12)); return s.draw(t.size() + 1); };
    switch (s.draw(8)) {
    case 0: { size_t p = pos(); how = "insert"; return t.substr(0, p) + s.pick(bits) + t.substr(p); }
    case 1: { if (t.empty()) break; size_t p = std::min(pos(), t.size() - 1), n = 1 + s.draw(s.draw(3) ? 3 : 20); how = "delete"; t.erase(p, n); return t; }
    case 2: { size_t p = pos(); how = "truncate"; return t.substr(0, p); }
    case 3: { if (ends.empty()) break; size_t p = s.pick(ends), e = t.find("}}", p); if (e == std::string::npos) break; how = "drop end"; t.erase(p, e + 2 - p); return t; }
    case 4: { if (ends.empty()) break; size_t p = s.pick(ends), e = t.find("}}", p); if (e == std::string::npos) break; how = "rename end"; t.replace(p + 3, e - p - 3, s.draw(2) ? "zz" : "b"); return t; }
    case 5: { if (tags.size() < 2) break; size_t i = s.draw(tags.size()); size_t e = t.find("}}", tags[i]); if (e == std::string::npos) break; how = "drop tag"; t.erase(tags[i], e + 2 - tags[i]); return t; }
    case 6: { if (tags.empty()) break; size_t p = s.pick(tags), e = t.find("}}", p); if (e == std::string::npos) break; std::string x = t.substr(p, e + 2 - p); size_t q = pos(); how = "copy tag"; return t.substr(0, q) + x + t.substr(q); }
    default: { if (t.empty()) break; size_t p = std::min(pos(), t.size() - 1); how = "replace"; t.replace(p, 1, s.pick(bits)); return t; }
    }
    how = "insert"; return t + s.pick(bits);
}
}
