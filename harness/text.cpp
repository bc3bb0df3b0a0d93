// C23 byte quantities, C24 base64, C25 string helpers, C26 wildcards, C28 containers, C32 arithmetic.
#include "vp.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <unordered_map>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/math/math_extension.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using vp::i64;
using vp::u64;
typedef unsigned __int128 u128;
typedef __int128 i128;

namespace {

const char* UNITS[] = {"B", "KB", "MB", "GB", "TB", "PB", "KiB", "MiB", "GiB", "TiB", "PiB"};
u64 unit_value(unsigned i)
{
    u64 v = 1;
    if (i <= 5) for (unsigned k = 0; k < i; ++k) v *= 1000;
    else for (unsigned k = 5; k < i; ++k) v *= 1024;
    return v;
}
std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }

// what a quantity denotes, or nothing
bool denotes(const std::string& s, u64& out)
{
    auto dig = [](char c) { return c >= '0' && c <= '9'; };
    size_t i = 0;
    u128 whole = 0;
    std::string frac;
    bool big = false;
    if (i >= s.size() || !dig(s[i])) return false;
    for (; i < s.size() && dig(s[i]); ++i)
    {
        whole = whole * 10 + (unsigned)(s[i] - '0');
        if (whole >> 64) { big = true; whole = 1; }
    }
    if (i < s.size() && s[i] == '.')
    {
        ++i;
        if (i >= s.size() || !dig(s[i])) return false;
        for (; i < s.size() && dig(s[i]); ++i) frac += s[i];
    }
    while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) ++i;
    std::string u = upper(s.substr(i));
    for (unsigned k = 0; k < 11; ++k)
        if (u == upper(UNITS[k]))
        {
            u64 v = unit_value(k);
            if (big) return false;
            u128 carry = 0;   // the decimals by the unit, digit by digit; what is carried out of the first one are whole bytes
            for (size_t j = frac.size(); j-- > 0;) carry = ((unsigned)(frac[j] - '0') * (u128)v + carry) / 10;
            u128 r = whole * v + carry;
            if (r >> 64) return false;
            out = (u64)r;
            return true;
        }
    return false;
}

std::string dec(u128 v)
{
    std::string s;
    do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
    return s;
}

} // namespace

VP_PROP(bytes_parse, 1500000, 30000000, "texts of the grammar <number> <unit> with boundary numbers (around 2^64/unit and whole bytes), decimals of up to 22 digits, unit case and spaces varied, mutations of them, some very long; compared with exact 128-bit arithmetic; non-trivial: it denotes a quantity with decimals, or fits/exceeds 64 bits by less than one in a thousand")
{
    std::string s;
    unsigned k = (unsigned)c.below(11);
    u64 uv = unit_value(k);
    bool edge = false;
    switch (c.weighted({4, 3, 3, 1}))
    {
        case 0: s = dec(c.below(3000)); break;
        case 1: s = dec(c.edge_u64()); break;
        case 2: s = dec((u128)(~0ull / uv) + (u128)c.below(3) - (c.below(2) ? 1 : 0)); edge = true; break;
        default: s = c.str("0123456789", 30); break;
    }
    if (c.below(8) == 0) s = std::string(c.below(4), '0') + s;
    bool decimals = c.below(2);
    if (decimals)
    {
        s += ".";
        switch (c.weighted({4, 2, 2, 2}))
        {
            case 0: s += c.str("0123456789", 4); break;
            case 1: s += std::string(1 + c.below(22), c.below(2) ? '9' : '0'); break;
            case 2: // a whole number of bytes, written with all its decimals
            {
                u64 b = c.below(uv);
                u128 n = b;
                std::string f;
                for (int i = 0; i < 20 && n; ++i) { n *= 10; f += (char)('0' + (int)(n / uv)); n %= uv; }
                if (f.empty()) f = "0";
                s += f;
                break;
            }
            default: { std::string f; for (u64 n = 1 + c.below(22); n; --n) f += (char)('0' + c.below(10)); s += f; }
        }
    }
    if (c.below(3) == 0) s += c.pick<const char*>({" ", "  ", "\t", "\n ", "\r"});
    std::string u = UNITS[k];
    for (auto& ch : u) if (c.below(4) == 0) ch ^= 32;
    s += u;
    bool mutated = c.below(4) == 0;
    if (mutated)
        for (u64 n = 1 + c.below(2); n; --n)
        {
            size_t at = c.below(s.size() + 1);
            static const std::string al = std::string("0123456789.+-eEBKMGTPiIx \tbkm,") + '\0' + "\xff";
            switch (c.below(3))
            {
                case 0: s.insert(at, 1, al[c.below(al.size())]); break;
                case 1: if (at < s.size()) s.erase(at, 1); break;
                default: if (at < s.size()) s[at] = al[c.below(al.size())];
            }
        }
    if (c.below(2000) == 1999)   // a long stretch
    {
        size_t at = c.below(s.size() + 1);
        s.insert(at, 30000 + c.below(100000), c.pick<char>({'0', '9', ' ', 'K', '.'}));
    }
    u64 e = 0, g = 0;
    bool ok = denotes(s, e), threw = false;
    try { g = to_bytes(s); }
    catch (const std::invalid_argument&) { threw = true; }
    catch (const std::exception& x) { vp::fail(vp::show(s), " raises another error: ", x.what()); }
    VP_LOG(vp::show(s), " -> ", threw ? "invalid" : dec(g));
    VP_CHECK(ok != threw, vp::show(s), threw ? vp::cat(" is rejected, it denotes ", e) : vp::cat(" is accepted as ", g));
    if (ok) VP_CHECK(g == e, vp::show(s), " gives ", g, " instead of ", e);
    if ((ok && decimals) || edge) c.nontrivial(vp::hash_str(s));
}

VP_PROP(bytes_print, 1500000, 30000000, "64-bit numbers around units, hundredths and powers; the text is checked exactly (unit, decimals, distance) and parsed back; non-trivial: at least 1000 bytes and not a whole number of units")
{
    u64 b;
    switch (c.weighted({2, 3, 3}))
    {
        case 0: b = c.edge_u64(); break;
        case 1: // near a hundredth of a unit
        {
            unsigned k = 1 + (unsigned)c.below(5);
            u64 v = unit_value(k);
            u128 x = (u128)c.below(k == 5 ? 18446 : 1200) * v + (u128)v / 200 * c.below(201);
            b = (u64)x + (u64)c.range(-3, 3);
            break;
        }
        default: b = c.bits() >> c.below(64);
    }
    std::string s = from_bytes(b);
    VP_LOG(b, " -> ", s);
    unsigned k = 0;
    while (k < 5 && b >= unit_value(k + 1)) ++k;
    u64 v = unit_value(k);
    size_t i = 0;
    u128 n100 = 0;
    auto dig = [](char ch) { return ch >= '0' && ch <= '9'; };
    for (; i < s.size() && dig(s[i]); ++i) n100 = n100 * 10 + (unsigned)(s[i] - '0');
    VP_CHECK(i > 0, b, " prints ", vp::show(s));
    bool dec2 = i < s.size() && s[i] == '.';
    n100 *= 100;
    if (dec2)
    {
        VP_CHECK(i + 2 < s.size() && dig(s[i + 1]) && dig(s[i + 2]), b, " prints ", vp::show(s));
        n100 += (unsigned)(s[i + 1] - '0') * 10 + (unsigned)(s[i + 2] - '0');
        i += 3;
    }
    VP_CHECK(s.substr(i) == UNITS[k], b, " prints ", vp::show(s), ", the unit is not ", UNITS[k]);
    u128 exact = (u128)b * 100, printed = n100 * v;
    u128 diff = exact > printed ? exact - printed : printed - exact;
    u128 slack = v / 1000 + 1;     // of the conversion to floating point
    VP_CHECK(diff <= (dec2 ? v / 2 : v) + slack, b, " prints ", vp::show(s), ", which is off by more than ", dec2 ? "half a hundredth" : "a hundredth");
    if (b % v == 0) VP_CHECK(!dec2, b, " is a whole number of units and prints ", vp::show(s));
    u64 back = 0;
    try { back = to_bytes(s); }
    catch (const std::exception& x) { vp::fail(b, " prints ", vp::show(s), ", which does not parse: ", x.what()); }
    u64 d = back > b ? back - b : b - back;
    VP_CHECK((u128)d * 100 <= (u128)v + slack, b, " prints ", vp::show(s), " which parses to ", back);
    if (b >= 1000 && b % v) c.nontrivial(b);
}

// ---- base64
namespace {
const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref_encode(const std::string& in)
{
    std::string out;
    for (size_t i = 0; i < in.size(); i += 3)
    {
        unsigned n = (unsigned)std::min<size_t>(3, in.size() - i);
        unsigned v = 0;
        for (unsigned k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)in[i + k] : 0);
        for (unsigned k = 0; k < 4; ++k) out += k <= n ? B64[v >> (18 - 6 * k) & 63] : '=';
    }
    return out;
}
std::string ref_decode(const std::string& in)
{
    std::vector<bool> bits;
    for (char ch : in)
    {
        const char* p = ch ? strchr(B64, ch) : nullptr;
        if (!p) break;
        for (int k = 5; k >= 0; --k) bits.push_back((p - B64) >> k & 1);
    }
    std::string out;
    for (size_t i = 0; i + 8 <= bits.size(); i += 8)
    {
        unsigned v = 0;
        for (int k = 0; k < 8; ++k) v = v << 1 | bits[i + k];
        out += (char)v;
    }
    return out;
}
std::string some_bytes(vp::Ctx& c)
{
    switch (c.below(3))
    {
        case 0: return c.bytes(12);
        case 1: { std::string s; for (u64 n = c.below(200); n; --n) s += (char)c.bits(); return s; }
        default: return std::string(c.below(70), (char)c.pick<int>({0, 255, 128, 127, 'a'}));
    }
}
}

VP_PROP(base64_roundtrip, 2000000, 40000000, "byte strings of 0-200 bytes; encoding compared with a 24-bit-group reference, decoding inverts it; non-trivial: at least 3 bytes")
{
    std::string b = some_bytes(c);
    std::string e = base64_encode(b);
    VP_LOG(vp::show(b), " -> ", e);
    VP_CHECK(e == ref_encode(b), vp::show(b), " is encoded as ", vp::show(e), " instead of ", ref_encode(b));
    std::string d = base64_decode(e);
    VP_CHECK(d == b, vp::show(b), " is encoded as ", e, ", which is decoded as ", vp::show(d));
    if (b.size() >= 3) c.nontrivial(vp::hash_str(b));
}

VP_PROP(base64_any_text, 2000000, 40000000, "texts of alphabet characters, padding, and any other bytes; decoding compared with a bit-by-bit reference; non-trivial: a foreign byte after at least two alphabet characters")
{
    std::string s;
    for (u64 n = c.below(40); n; --n)
        switch (c.weighted({12, 1, 1}))
        {
            case 0: s += B64[c.below(64)]; break;
            case 1: s += c.pick<char>({'=', '\n', ' ', '-', '_'}); break;
            default: s += (char)c.bits();
        }
    std::string d = base64_decode(s), e = ref_decode(s);
    VP_LOG(vp::show(s), " -> ", vp::show(d));
    VP_CHECK(d == e, vp::show(s), " is decoded as ", vp::show(d), " instead of ", vp::show(e));
    size_t p = s.find_first_not_of(B64);
    if (p != std::string::npos && p >= 2) c.nontrivial(vp::hash_str(s));
}

// ---- strings
namespace {
std::string ref_replace(const std::string& s, const std::string& a, const std::string& b, unsigned& n, unsigned max)
{
    std::string out;
    for (size_t i = 0; i < s.size();)
    {
        if (!a.empty() && n < max && s.compare(i, a.size(), a) == 0) { out += b; i += a.size(); ++n; }
        else out += s[i++];
    }
    return out;
}
std::vector<std::string> ref_split(const std::string& s, const std::string& d)
{
    std::vector<std::string> r(1);
    for (size_t i = 0; i < s.size();)
    {
        if (!d.empty() && s.compare(i, d.size(), d) == 0) { r.emplace_back(); i += d.size(); }
        else r.back() += s[i++];
    }
    return r;
}
std::string show_v(const std::vector<std::string>& v)
{
    std::string s = "[";
    for (auto& x : v) s += vp::show(x) + " ";
    return s + "]";
}
std::string small_text(vp::Ctx& c, size_t max)
{
    if (c.below(20) == 0) return c.bytes(max);
    return c.str(c.below(2) ? "ab" : "ab \r\n", max);
}
// rarely one that is longer than 16 bits tell
void perhaps_long(vp::Ctx& c, std::string& s)
{
    if (c.below(20000) != 1 || s.empty()) return;
    size_t n = (size_t)c.range(32000, 70000) / s.size() + 1;
    std::string r;
    for (size_t i = 0; i < n; ++i) r += s;
    s = r;
}
}

VP_PROP(replace_texts, 3000000, 60000000, "texts, patterns and replacements over two or five letters (overlapping patterns, replacements that contain the pattern, empty ones) and arbitrary bytes; first, all, and stripping of sets; non-trivial: the pattern occurs at least twice or the replacement contains it")
{
    std::string s = small_text(c, 20), a = small_text(c, 4), b = small_text(c, 6);
    if (c.below(3) == 0) b = c.str("ab", 2) + a + c.str("ab", 2);
    perhaps_long(c, s);
    VP_LOG("text ", vp::show(s), " pattern ", vp::show(a), " replacement ", vp::show(b));
    unsigned n = 0;
    std::string all = ref_replace(s, a, b, n, ~0u);
    {
        std::string t = s;
        unsigned g = replace_all(t, a, b);
        VP_CHECK(t == all, "replace_all gives ", vp::show(t), " instead of ", vp::show(all));
        VP_CHECK(g == n, "replace_all reports ", g, " replacements instead of ", n);
    }
    if (!a.empty())
    {
        unsigned m = 0;
        std::string e = ref_replace(s, a, b, m, 1);
        std::string t = s;
        bool g = replace_first(t, a, b);
        VP_CHECK(t == e, "replace_first gives ", vp::show(t), " instead of ", vp::show(e));
        VP_CHECK(g == (m == 1), "replace_first returns ", g);
    }
    {
        std::set<std::string> un;
        for (u64 k = c.below(4); k; --k) un.insert(small_text(c, 3));
        bool def = c.below(4) == 0, def2 = def && c.below(2);
        std::string by = def2 ? "" : b;
        if (def) un = {"\n", "\r"};
        std::string e = s, t = s;
        unsigned m = 0;
        for (auto& u : un) e = ref_replace(e, u, by, m, ~0u);
        unsigned g = def2 ? strip_str(t) : def ? strip_str(t, by) : strip_str(t, by, un);
        VP_CHECK(t == e, "strip_str gives ", vp::show(t), " instead of ", vp::show(e));
        VP_CHECK(g == m, "strip_str reports ", g, " instead of ", m);
    }
    if (n > 1 || (!a.empty() && n && b.find(a) != std::string::npos)) c.nontrivial();
}

VP_PROP(split_texts, 2000000, 40000000, "texts split by one delimiter (of 0-4 letters, overlapping itself), by a set of them, and lists of texts; non-trivial: at least three parts")
{
    std::string s = small_text(c, 24), d = small_text(c, 3);
    if (c.below(3) == 0 && d.empty()) d = "a";
    perhaps_long(c, s);
    auto g = split_string(s, d);
    VP_LOG(vp::show(s), " split by ", vp::show(d), " -> ", show_v(g));
    auto e = ref_split(s, d);
    VP_CHECK(g == e, vp::show(s), " split by ", vp::show(d), " gives ", show_v(g), " instead of ", show_v(e));
    std::string joined;
    for (size_t i = 0; i < g.size(); ++i) joined += (i ? d : "") + g[i];
    VP_CHECK(joined == s, "joining the parts gives ", vp::show(joined));
    for (auto& p : g) VP_CHECK(d.empty() || p.find(d) == std::string::npos, "a part contains the delimiter: ", vp::show(p));
    std::vector<std::string> many;
    for (u64 k = c.below(4); k; --k) many.push_back(small_text(c, 8));
    std::vector<std::string> em;
    for (auto& m : many) for (auto& p : ref_split(m, d)) em.push_back(p);
    auto gm = split_string(many, d);
    VP_CHECK(gm == em, show_v(many), " split by ", vp::show(d), " gives ", show_v(gm));
    std::set<std::string> ds;
    for (u64 k = c.below(3); k; --k) ds.insert(small_text(c, 2));
    std::vector<std::string> es{s};
    for (auto& x : ds)
    {
        std::vector<std::string> next;
        for (auto& m : es) for (auto& p : ref_split(m, x)) next.push_back(p);
        es = next;
    }
    auto gs = split_string(s, ds);
    VP_CHECK(gs == es, vp::show(s), " split by ", show_v(std::vector<std::string>(ds.begin(), ds.end())), " gives ", show_v(gs), " instead of ", show_v(es));
    if (g.size() > 2) c.nontrivial();
}

VP_PROP(case_and_padding, 3000000, 60000000, "arbitrary bytes converted to lower and upper case, and integers printed with 0-40 characters; non-trivial: letters of both cases, or a number as long as its field give or take one")
{
    std::string s = c.below(2) ? c.bytes(20) : c.str("aAzZ@[`{ \x80\xff", 12);
    std::string lo = s, up = s, el = s, eu = s;
    bool l = false, u = false;
    for (auto& x : el) if (x >= 'A' && x <= 'Z') { x += 32; u = true; }
    for (auto& x : eu) if (x >= 'a' && x <= 'z') { x -= 32; l = true; }
    to_lowercase(lo);
    to_uppercase(up);
    VP_CHECK(lo == el, "lower case of ", vp::show(s), " is ", vp::show(lo));
    VP_CHECK(up == eu, "upper case of ", vp::show(s), " is ", vp::show(up));
    i64 v = c.edge_int();
    if (c.below(3) == 0) { i64 p = 1; for (u64 k = c.below(10); k; --k) p *= 10; v = std::min<i64>(p + c.range(-1, 1), 2147483647); if (c.below(3) == 0) v = -v; }
    unsigned n = (unsigned)c.weighted({3, 1}) ? (unsigned)c.below(41) : (unsigned)c.below(13);
    bool more = c.below(2);
    std::string digits = dec((u128)(v < 0 ? -v : v)), sign = v < 0 ? "-" : "";
    size_t len = digits.size() + sign.size();
    std::string e = sign + std::string(len < n ? n - len : 0, '0') + digits;
    std::string g;
    bool threw = false;
    try { g = c.below(4) == 0 && more ? number_trailing_zeros_format((int)v, n) : number_trailing_zeros_format((int)v, n, more); }
    catch (const PreconditionNotMet&) { threw = true; }
    VP_LOG(vp::show(s), "; ", v, " in ", n, more ? " or more" : "", " chars -> ", threw ? "error" : g);
    VP_CHECK(threw == (!more && len > n), v, " in ", n, more ? " or more" : "", " chars", threw ? " is refused" : vp::cat(" gives ", g));
    if (!threw) VP_CHECK(g == e, v, " in ", n, " chars gives ", g, " instead of ", e);
    if ((l && u) || (len + 1 >= n && len <= n + 1)) c.nontrivial();
}

// ---- wildcards
namespace {
// Reads the bracket expression at p[i]=='['. Returns the position after it, or 0 if it is none.
size_t bracket(const std::string& p, size_t i, unsigned char ch, bool& in)
{
    size_t j = i + 1;
    bool neg = j < p.size() && (p[j] == '!' || p[j] == '^');
    if (neg) ++j;
    bool first = true, hit = false;
    while (true)
    {
        if (j >= p.size()) return 0;
        if (p[j] == ']' && !first) break;
        first = false;
        unsigned char a = (unsigned char)p[j++];
        if (j + 1 < p.size() && p[j] == '-' && p[j + 1] != ']')
        {
            unsigned char b = (unsigned char)p[j + 1];
            j += 2;
            if (a <= ch && ch <= b) hit = true;
        }
        else if (a == ch) hit = true;
    }
    in = hit != neg;
    return j + 1;
}
bool ref_match(const std::string& p, const std::string& s)
{
    size_t m = p.size(), n = s.size();
    std::vector<std::vector<signed char>> memo(m + 1, std::vector<signed char>(n + 1, -1));
    std::function<bool(size_t, size_t)> go = [&](size_t i, size_t j) -> bool
    {
        signed char& r = memo[i][j];
        if (r >= 0) return r;
        bool v;
        if (i == m) v = j == n;
        else if (p[i] == '*') v = go(i + 1, j) || (j < n && go(i, j + 1));
        else if (p[i] == '?') v = j < n && go(i + 1, j + 1);
        else
        {
            bool in = false;
            size_t e = p[i] == '[' ? bracket(p, i, j < n ? (unsigned char)s[j] : 0, in) : 0;
            if (e) v = j < n && in && go(e, j + 1);
            else v = j < n && p[i] == s[j] && go(i + 1, j + 1);
        }
        return memo[i][j] = v;
    };
    return go(0, 0);
}
}

VP_PROP(wildcards, 3000000, 60000000, "patterns of letters, *, ?, bracket expressions (lists, ranges, negations, unterminated) against texts, most of them derived from the pattern; compared with a backtracking reference; non-trivial: the pattern has a wildcard and the text matches, or differs from a matching one in one character")
{
    static const std::string al = "abc./-\\!^ ";
    std::string p, s;
    bool wild = false;
    auto lit = [&]() { return c.below(12) == 0 ? (char)(1 + c.below(255)) : al[c.below(al.size())]; };
    for (u64 n = c.size(10); n; --n)
        switch (c.weighted({5, 3, 2, 3}))
        {
            case 0:
            {
                char ch = lit();
                if (strchr("*?[", ch)) ch = 'a';
                p += ch;
                s += ch;
                break;
            }
            case 1: p += '*'; s += c.str("abc/", 5); wild = true; break;
            case 2: p += '?'; s += lit(); wild = true; break;
            default:
            {
                wild = true;
                bool neg = c.below(3) == 0;
                std::string in;
                if (c.below(8) == 0) in = "]";
                for (u64 k = c.below(4) + in.empty(); k; --k)
                {
                    if (c.below(3) == 0)
                    {
                        char a = (char)('a' + c.below(5));
                        in += a;
                        in += '-';
                        in += (char)(a + c.below(4));
                    }
                    else in += c.pick<char>({'a', 'b', 'c', 'z', '*', '?', '\\', '/'});
                }
                p += neg ? c.pick<const char*>({"[!", "[^"}) : "[";
                p += in + "]";
                s += in[0] == ']' || c.below(3) == 0 ? c.pick<char>({'a', 'd', 'z', ']', '*', 'm'}) : in[0];
            }
        }
    if (c.below(10) == 0) p += "[" + c.str("ab", 3);     // never closed: an ordinary character
    if (c.below(10) == 0) s += "[ab";
    bool exact = true;
    if (c.below(2))
    {
        exact = false;
        size_t at = c.below(s.size() + 1);
        switch (c.below(3))
        {
            case 0: s.insert(at, 1, lit()); break;
            case 1: if (at < s.size()) s.erase(at, 1); break;
            default: if (at < s.size()) s[at] = lit();
        }
    }
    bool g = match_pattern(p, s), e = ref_match(p, s);
    VP_LOG("pattern ", vp::show(p), " text ", vp::show(s), " -> ", g);
    VP_CHECK(g == e, "pattern ", vp::show(p), g ? " matches " : " does not match ", vp::show(s));
    if (s.find_first_of("*?[") == std::string::npos) VP_CHECK(match_pattern(s, s), vp::show(s), " does not match itself");
    VP_CHECK(match_pattern("*", s), "* does not match ", vp::show(s));
    (void)exact;
    if (wild && s.size() > 1) c.nontrivial(vp::hash_str(p, vp::hash_str(s)));
}

// ---- containers
namespace {
struct Base { int x; Base(int v) : x(v) {} virtual ~Base() {} virtual int kind() const { return 0; } bool operator ==(const Base& o) const { return x == o.x; } };
struct Derived : Base { Derived(int v) : Base(v) {} int kind() const override { return 1; } bool operator <(const Derived& o) const { return x < o.x; } };
}

VP_PROP(sets_of_pointers, 600000, 12000000, "sets of up to 5 shared pointers (null, aliased, equal values); membership and equality by value, symmetric; non-trivial: both sets hold an equal value through different pointers, or duplicates")
{
    std::vector<std::shared_ptr<int>> pool;
    for (int i = 0; i < 6; ++i) pool.push_back(c.below(5) == 0 ? nullptr : std::make_shared<int>((int)c.below(3)));
    std::set<std::shared_ptr<int>> a, b;
    auto gen = [&](std::set<std::shared_ptr<int>>& s)
    {
        for (u64 k = c.below(6); k; --k) s.insert(pool[c.below(pool.size())]);
    };
    gen(a);
    gen(b);
    auto val = [](const std::shared_ptr<int>& p) { return p ? *p : -1; };
    std::multiset<int> va, vb;
    for (auto& p : a) va.insert(val(p));
    for (auto& p : b) vb.insert(val(p));
    std::set<int> sa(va.begin(), va.end()), sb(vb.begin(), vb.end());
    std::string d;
    for (int x : va) d += vp::cat(x, " ");
    d += "/ ";
    for (int x : vb) d += vp::cat(x, " ");
    VP_LOG(d, "(-1: null)");
    for (auto& p : pool)
    {
        bool g = set_of_ptr_contains(a, p), e = sa.count(val(p)) > 0;
        VP_CHECK(g == e, "membership of ", val(p), " in ", d, ": ", g);
    }
    bool g = are_set_of_ptr_equal(a, b), e = a.size() == b.size() && sa == sb;
    VP_CHECK(g == e, "equality of ", d, ": ", g);
    VP_CHECK(are_set_of_ptr_equal(b, a) == g, "equality of ", d, " is not symmetric");
    VP_CHECK(are_set_of_ptr_equal(a, a), d, ": not equal to itself");
    // equality must hold through other pointers to the same values
    std::set<std::shared_ptr<int>> copy;
    for (auto& p : a) copy.insert(p ? std::make_shared<int>(*p) : nullptr);
    VP_CHECK(are_set_of_ptr_equal(a, copy) && are_set_of_ptr_equal(copy, a), d, ": not equal to a copy of the values");
    if (va.size() != sa.size() || sa == sb) c.nontrivial();
}

VP_PROP(conversions, 600000, 12000000, "sets turned into shared pointers, keys of maps, printing of vectors, sets and pointers with separators, text of a value, raw copies; non-trivial: at least two elements")
{
    std::set<int> si;
    std::vector<int> vi;
    for (u64 k = c.below(7); k; --k) { int x = (int)c.range(-5, 20); si.insert(x); vi.push_back(x); }
    std::string sep = c.pick<std::string>({";", "", ", ", "ab", std::string("\0", 1)});
    std::string d;
    for (int x : vi) d += vp::cat(x, " ");
    VP_LOG("elements ", d, " separator ", vp::show(sep));
    std::set<Derived> sd;
    for (int x : si) sd.insert(Derived(x));
    auto conv = convert_set_to_shared<Base, Derived>(sd);
    std::multiset<int> got;
    for (auto& p : conv)
    {
        VP_CHECK(p && p->kind() == 1, "a converted element is null or not of its type");
        got.insert(p->x);
    }
    VP_CHECK(got == std::multiset<int>(si.begin(), si.end()), "conversion to shared pointers lost or invented elements: ", conv.size(), " of ", si.size());
    std::map<int, std::string> m;
    std::unordered_map<int, std::string> um;
    for (int x : vi) { m[x] = "v"; um[x] = "w"; }
    VP_CHECK(get_keys(m) == si && get_keys(um) == si, "the keys of a map are not its keys");
    auto text = [&](const std::vector<int>& v)
    {
        std::string e = "{";
        for (size_t i = 0; i < v.size(); ++i) e += (i ? sep : "") + std::to_string(v[i]);
        return e + "}";
    };
    bool dflt = sep == ";" && c.below(2);
    std::ostringstream o1, o2, o3;
    if (dflt) { container_to_stream<int>(o1, vi); container_to_stream<int>(o2, si); }
    else { container_to_stream<int>(o1, vi, sep); container_to_stream<int>(o2, si, sep); }
    VP_CHECK(o1.str() == text(vi), "a vector prints ", vp::show(o1.str()), " instead of ", vp::show(text(vi)));
    VP_CHECK(o2.str() == text(std::vector<int>(si.begin(), si.end())), "a set prints ", vp::show(o2.str()));
    std::vector<std::shared_ptr<int>> vp_;
    for (int x : vi) vp_.push_back(std::make_shared<int>(x));
    container_to_stream<std::shared_ptr<int>, true>(o3, vp_, sep);
    VP_CHECK(o3.str() == text(vi), "a vector of pointers prints ", vp::show(o3.str()));
    std::string t = c.bytes(10);
    VP_CHECK(generic_to_string(t) == t, "the text of ", vp::show(t), " is ", vp::show(generic_to_string(t)));
    VP_CHECK(generic_to_string((int)vi.size()) == std::to_string(vi.size()), "the text of a number");
    struct Raw { char b[24]; } r;
    for (auto& x : r.b) x = (char)c.below(256);
    size_t n = 1 + c.below(sizeof r);
    Raw* q = (Raw*)copy_to_void_ptr(&r, n);
    VP_CHECK(q && memcmp(q, &r, n) == 0, "a raw copy differs");
    free(q);
    q = (Raw*)copy_to_void_ptr(&r);
    VP_CHECK(memcmp(q, &r, sizeof r) == 0, "a raw copy differs");
    free(q);
    n = c.below(sizeof r + 1);      // some of the elements of an array
    char* bytes = (char*)copy_to_void_ptr(r.b, n);
    VP_CHECK(n == 0 || (bytes && memcmp(bytes, r.b, n) == 0), "a raw copy of ", n, " elements differs");
    free(bytes);
    if (vi.size() > 1) c.nontrivial();
}

// ---- arithmetic
VP_PROP(integers, 6000000, 120000000, "32-bit arguments around powers of two and ten; compared with 128-bit arithmetic wherever the result fits 32 bits; non-trivial: the exact result exceeds 2^16 and fits")
{
    auto u32 = [&]() -> unsigned
    {
        switch (c.below(4))
        {
            case 0: return (unsigned)c.below(40);
            case 1: return (unsigned)((1ull << c.below(33)) + (u64)c.range(-2, 2));
            case 2: return (unsigned)(c.bits() >> (32 + c.below(32)));
            default: return (unsigned)c.bits();
        }
    };
    unsigned a = u32(), b = u32();
    bool nt = false;
    VP_LOG("a=", a, " b=", b);
    VP_CHECK(is_even(a) == (a % 2 == 0), "is_even(", a, ")");
    bool p2 = false;
    for (int k = 0; k < 32; ++k) if (a == (1u << k)) p2 = true;
    VP_CHECK(is_power_of_2(a) == p2, "is_power_of_2(", a, ")");
    if (b)
    {
        VP_CHECK(fast_module(a, b) == a % b, "fast_module(", a, ",", b, ") = ", fast_module(a, b));
        VP_CHECK(fast_division(a, b) == a / b, "fast_division(", a, ",", b, ") = ", fast_division(a, b));
    }
    // a power that fits, or nearly
    {
        unsigned base = c.below(2) ? a : (unsigned)c.below(20), ex = (unsigned)c.below(34);
        u128 r = 1;
        for (unsigned i = 0; i < ex && !(r >> 32); ++i) r *= base;
        unsigned g = fast_exponential(base, ex);
        if (!(r >> 32))
        {
            VP_CHECK(g == (unsigned)r, base, "^", ex, " = ", g);
            if (r > 65536) nt = true;
        }
    }
    // sums with few steps and large terms, or many steps and small ones
    {
        unsigned lo = a, in = b, st = 1 + (unsigned)c.below(12);
        if (c.below(2)) { lo = (unsigned)c.below(1000); in = 1 + (unsigned)c.below(100); st = 1 + (unsigned)c.below(70000); }
        if (in == 0) in = 1;
        u128 r = (u128)lo * st + (u128)in * st * (st - 1) / 2;
        unsigned g = arithmetic_progression_sum(lo, in, st);
        if (!(r >> 32))
        {
            VP_CHECK(g == (unsigned)r, "sum of ", st, " terms from ", lo, " by ", in, " = ", g, " instead of ", (u64)r);
            if (r > 65536) nt = true;
        }
    }
    if (nt) c.nontrivial();
}
