// C27 files, C29 text of formatters and exceptions, C30 timestamps, C34 fuzzy values, C37 trees, builders and casts,
// C38 pools, C40 return codes.
#include "vp.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <grp.h>
#include <list>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/Exception.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/pool/IPool.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include <cpp_utils/types/Builder.hpp>
#include <cpp_utils/types/Fuzzy.hpp>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using vp::i64;
using vp::u64;

// ------------------------------------------------------------------------------------------------ C27 files
namespace {

// a folder of this process, removed with it
struct Scratch
{
    std::string dir;
    Scratch()
    {
        const char* w = getenv("VP_WORK");
        std::string base = w && *w ? w : "/tmp";
        chmod(base.c_str(), 0711);
        std::string t = base + "/files-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); abort(); }
        dir = b.data();
        chmod(dir.c_str(), 0777);
    }
};
Scratch& scratch()
{
    static Scratch* s = nullptr;
    static pid_t of = 0;
    if (!s || of != getpid()) { s = new Scratch; of = getpid(); } // (removed with the work folder)
    return *s;
}

void write_file(const std::string& p, const std::string& data)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) vp::fail("harness: cannot write ", p);
    size_t at = 0;
    while (at < data.size())
    {
        ssize_t r = write(fd, data.data() + at, data.size() - at);
        if (r <= 0) vp::fail("harness: cannot write ", p);
        at += (size_t)r;
    }
    close(fd);
}

std::vector<std::string> lines_of(const std::string& data, bool strip, bool drop_empty)
{
    std::vector<std::string> r;
    size_t at = 0;
    while (at < data.size())
    {
        size_t e = data.find('\n', at);
        if (e == std::string::npos) e = data.size();
        std::string l;
        for (size_t i = at; i < e; ++i) if (!strip || data[i] != '\r') l += data[i];
        if (!(drop_empty && l.empty())) r.push_back(l);
        at = e + 1;
    }
    return r;
}

} // namespace

VP_PROP(file_contents, 300000, 2000000, "files of up to 20 kB of any bytes (line breaks of both kinds, empty lines, with and without a last line break, NUL), read with every choice of flags; missing files, folders, files that fail when read; non-trivial: two lines or more, or a carriage return, or no final line break")
{
    std::string path = scratch().dir + "/f" + std::to_string(c.below(3)) + (c.below(4) ? "" : " x\xc3\xb1");
    std::string data;
    switch (c.weighted({5, 3, 1}))
    {
        case 0: data = c.str("a\n\rb \t", 40); break;
        case 1:
        {
            for (u64 n = c.below(20); n; --n)
            {
                data += c.str("abc \r", 12);
                data += c.pick<const char*>({"\n", "\r\n", "\n\n", "\n\r\n", "\r"});
            }
            data += c.str("ab\r", 3);
            break;
        }
        default:
        {
            data = c.bytes(60);
            if (c.below(4) == 0) for (u64 n = c.below(200); n; --n) { data += std::string(c.below(100), 'x'); data += '\n'; }
        }
    }
    bool strip = c.below(2), drop = c.below(2), dflt = c.below(6) == 0;
    if (dflt) { strip = true; drop = false; }
    VP_LOG("file ", vp::show(data), " strip=", strip, " drop=", drop);
    if (c.below(12) == 0)
    {
        unlink(path.c_str());
        if (c.below(2)) path = c.pick<std::string>({scratch().dir, scratch().dir + "/", "/proc/self/mem", path + "/x", ""});
        VP_LOG("unreadable: ", vp::show(path));
        bool exists = path == "/proc/self/mem" || path.find(scratch().dir + "/f") != 0 && !path.empty();
        for (int k = 0; k < 2; ++k)
        {
            bool threw = false;
            try { if (k) file_to_string(path.c_str(), strip); else file_to_strings(path.c_str(), strip, drop); }
            catch (const PreconditionNotMet&) { threw = true; }
            VP_CHECK(threw, "something that cannot be read is read");
        }
        VP_CHECK(is_file_accessible(path.c_str()) == exists, exists ? "a folder does not exist" : "a missing file exists");
        return;
    }
    write_file(path, data);
    auto e = lines_of(data, strip, drop);
    auto g = dflt ? file_to_strings(path.c_str()) : file_to_strings(path.c_str(), strip, drop);
    if (g != e)
    {
        size_t i = 0;
        while (i < g.size() && i < e.size() && g[i] == e[i]) ++i;
        vp::fail(g.size(), " lines instead of ", e.size(), "; line ", i, " is ", i < g.size() ? vp::show(g[i]) : "missing", " instead of ",
                i < e.size() ? vp::show(e[i]) : "nothing");
    }
    std::string all;
    for (auto& l : lines_of(data, strip, false)) all += l + "\n";
    auto t = dflt ? file_to_string(path.c_str()) : file_to_string(path.c_str(), strip);
    VP_CHECK(t == all, "the whole file is ", vp::show(t), " instead of ", vp::show(all));
    VP_CHECK(is_file_accessible(path.c_str()), "the file does not exist");
    unlink(path.c_str());
    if (e.size() > 1 || data.find('\r') != std::string::npos || (!data.empty() && data.back() != '\n'))
        c.nontrivial(vp::hash_str(data, strip * 2 + drop));
}

VP_PROP(file_access, 3000, 40000, "1-6 files, links and folders of random modes and owners (root, an unprivileged user, its group), asked for every combination of permissions by that unprivileged user; compared with the permission bits; non-trivial: the user owns neither all nor none of the permissions asked")
{
    const unsigned UID = 64321, GID = 54321;
    std::string dir = scratch().dir + "/a";
    u64 h = vp::in_fork([&]() -> u64
            {
                mkdir(dir.c_str(), 0755);
                struct E { std::string path; unsigned mode; int who; bool closed, missing, link; std::string shown; };
                std::vector<E> es;
                bool unpriv = c.below(5) != 0;
                u64 n = 1 + c.below(6), h = vp::hash_int(unpriv);
                for (u64 i = 0; i < n; ++i)
                {
                    E e;
                    e.mode = (unsigned)c.below(512);
                    e.who = (int)c.below(3);
                    e.closed = c.below(6) == 0;
                    e.missing = c.below(8) == 0;
                    e.link = c.below(6) == 0;
                    bool folder = c.below(5) == 0;
                    std::string d = dir + (e.closed ? "/closed" : "/open");
                    mkdir(d.c_str(), 0755);
                    std::string p = d + "/x" + std::to_string(i);
                    if (!e.missing)
                    {
                        if (folder) mkdir(p.c_str(), 0700);
                        else write_file(p, "x");
                        if (chown(p.c_str(), e.who == 1 ? UID : 0, e.who == 2 ? GID : 0)) vp::fail("harness: chown");
                        chmod(p.c_str(), e.mode);
                    }
                    e.path = p;
                    if (e.link)
                    {
                        e.path = dir + "/link" + std::to_string(i);
                        if (symlink(p.c_str(), e.path.c_str())) vp::fail("harness: symlink");
                    }
                    e.shown = vp::cat(e.missing ? "missing" : folder ? "folder" : "file", " owner=", e.who == 1 ? "user" : "root", " group=",
                            e.who == 2 ? "user" : "root", " mode=", (e.mode >> 6) & 7, (e.mode >> 3) & 7, e.mode & 7, e.closed ? " in a closed folder" : "",
                            e.link ? " by link" : "");
                    if (folder && !unpriv) e.mode |= 0111; // root enters any folder
                    es.push_back(e);
                }
                chmod((dir + "/closed").c_str(), 0600);
                if (unpriv && (setgroups(0, nullptr) || setgid(GID) || setuid(UID))) unpriv = false;
                for (auto& e : es)
                {
                    unsigned bits = e.who == 1 ? e.mode >> 6 : e.who == 2 ? e.mode >> 3 : e.mode;
                    bits &= 7;
                    if (!unpriv) bits = 6 | ((e.mode & 0111) ? 1 : 0);
                    bool exists = !e.missing && !(e.closed && unpriv);
                    for (int ask = 0; ask < 8; ++ask)
                    {
                        bool want = exists && (bits & ask) == (unsigned)ask;
                        bool got = is_file_accessible(e.path.c_str(), static_cast<FileAccessMode>(ask));
                        VP_CHECK(got == want, e.shown, unpriv ? " for the user" : " for root", " asked for ", ask, " gives ", got);
                    }
                    VP_CHECK(is_file_accessible(e.path.c_str(), FileAccessMode::read | FileAccessMode::exec) == (exists && (bits & 5) == 5), e.shown,
                            ": read|exec differs from both");
                    // reading it agrees
                    bool folder = e.shown.compare(0, 6, "folder") == 0;
                    if (!folder)
                    {
                        bool ok = true;
                        try { file_to_string(e.path.c_str()); }
                        catch (const PreconditionNotMet&) { ok = false; }
                        VP_CHECK(ok == (exists && (bits & 4)), e.shown, ok ? " is read" : " is not read");
                    }
                    if (exists && bits && bits != 7) h = vp::hash_str(e.shown, h);
                }
                return h;
            });
    std::string cmd = "/bin/rm -rf '" + dir + "'";
    if (system(cmd.c_str())) {}
    c.nontrivial(h);
}

// ------------------------------------------------------------------------------------------------ C29 text
namespace {
template <typename X>
void exception_text(const std::string& text, int how, const char* name)
{
    std::string want = text.c_str(); // (what() is null-terminated)
    auto thrower = [&]()
            {
                switch (how)
                {
                    case 0: throw X(text);
                    case 1: throw X(text.c_str());
                    case 2: throw X(STR_ENTRY << text);
                    case 3: { X a(text); X b(a); a = X("other"); throw b; }
                    default: { X a("other"); X b(text); a = b; throw a; }
                }
            };
    int caught = 0;
    try { thrower(); } catch (const X& e) { caught++; VP_CHECK(want == e.what(), name, " says ", vp::show(e.what())); }
    try { thrower(); } catch (const Exception& e) { caught++; VP_CHECK(want == e.what(), name, " as Exception says ", vp::show(e.what())); }
    try { thrower(); } catch (const std::exception& e) { caught++; VP_CHECK(want == e.what(), name, " as std::exception says ", vp::show(e.what())); }
    VP_CHECK(caught == 3, name, " is not caught as what it is");
}
} // namespace

VP_PROP(texts, 800000, 8000000, "sequences of up to 12 values streamed into a formatter (text of any bytes, numbers at the boundaries, characters, booleans, reals, other formatters), read in between, and an exception of each type made of it in each way; non-trivial: three values or more")
{
    Formatter f;
    std::ostringstream o;
    std::string want;
    size_t n = c.size(12);
    for (size_t i = 0; i < n; ++i)
    {
        std::string piece;
        switch (c.below(9))
        {
            case 0: { std::string s = c.str("abc %n\n", 8); f << s; piece = s; break; }
            case 1: { std::string s = c.bytes(8); f << s; piece = s; break; }
            case 2: { i64 v = c.edge_i64(); f << v; piece = std::to_string(v); break; }
            case 3: { u64 v = c.edge_u64(); f << v; piece = std::to_string(v); break; }
            case 4: { char v = (char)c.below(256); f << v; piece = std::string(1, v); break; }
            case 5: { bool v = c.below(2); f << v; piece = v ? "1" : "0"; break; }
            case 6: { double v = (double)c.range(-1000, 1000) / 8; f << v; std::ostringstream s; s << v; piece = s.str(); break; }
            case 7: { f << "literal"; piece = "literal"; break; }
            default:
            {
                std::string s = c.bytes(6);
                Formatter g;
                g << s << 1;
                f << g;
                piece = s + "1";
            }
        }
        want += piece;
        if (c.below(4) == 0)
        {
            std::string t = f;
            VP_CHECK(t == want, "in between it holds ", vp::show(t), " instead of ", vp::show(want));
        }
    }
    VP_LOG(vp::show(want));
    std::string got = f.to_string();
    VP_CHECK(got == want, "it holds ", vp::show(got), " instead of ", vp::show(want));
    std::string conv = f;
    VP_CHECK(conv == want, "it converts to ", vp::show(conv));
    std::ostringstream os;
    os << "<" << f << ">";
    VP_CHECK(os.str() == "<" + want + ">", "it prints as ", vp::show(os.str()));
    int how = (int)c.below(5);
#define X(T) exception_text<T>(want, how, #T);
    switch (c.below(11))
    {
        case 0: X(Exception) break;
        case 1: X(ConfigurationException) break;
        case 2: X(DNSException) break;
        case 3: X(DisabledException) break;
        case 4: X(InconsistencyException) break;
        case 5: X(InitializationException) break;
        case 6: X(PreconditionNotMet) break;
        case 7: X(TimeoutException) break;
        case 8: X(UnsupportedException) break;
        case 9: X(ValueAccessException) break;
        default: X(ValueNotAllowedException)
    }
#undef X
    if (n >= 3) c.nontrivial(vp::hash_str(want, how));
}

// ------------------------------------------------------------------------------------------------ C30 timestamps
namespace {

i64 days_from_civil(i64 y, unsigned m, unsigned d)
{
    y -= m <= 2;
    i64 era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (i64)doe - 719468;
}
void civil_from_days(i64 z, i64& y, unsigned& m, unsigned& d)
{
    z += 719468;
    i64 era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = (i64)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1;
    m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
}
unsigned month_days(i64 y, unsigned m)
{
    static const unsigned k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : k[m - 1];
}
const i64 MIN_S = -9223372036ll, MAX_S = 9223372036ll; // what a timestamp of nanoseconds holds
const char* MONTHS[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};

i64 a_second(vp::Ctx& c)
{
    switch (c.weighted({4, 2, 2, 2, 2}))
    {
        case 0: return c.range(-86400ll * 365 * 70, 86400ll * 365 * 130);
        case 1: return c.range(-5, 5);
        case 2: // around the borders of days, months and leap years
        {
            i64 y = c.range(1680, 2260);
            unsigned m = 1 + (unsigned)c.below(12);
            return days_from_civil(y, m, c.below(2) ? 1 : month_days(y, m)) * 86400 + (c.below(2) ? c.range(-3, 3) : c.range(0, 86399));
        }
        case 3: return c.range(MIN_S + 200000, MAX_S - 200000);
        default: return (c.below(2) ? 1 : -1) * (i64)((1ull << c.below(33)) + c.below(3)) - 1;
    }
}
Timestamp at_second(i64 s) { return Timestamp(std::chrono::duration_cast<Timestamp::duration>(std::chrono::seconds(s))); }
i64 second_of(const Timestamp& t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }

struct Fields { i64 y; unsigned m, d, h, mi, s; };
Fields fields_of(i64 local)
{
    i64 day = local >= 0 ? local / 86400 : -((-local + 86399) / 86400);
    i64 r = local - day * 86400;
    Fields f;
    civil_from_days(day, f.y, f.m, f.d);
    f.h = (unsigned)(r / 3600);
    f.mi = (unsigned)(r / 60 % 60);
    f.s = (unsigned)(r % 60);
    return f;
}
std::string two(i64 v, int w = 2) { char b[32]; snprintf(b, sizeof b, "%0*lld", w, (long long)v); return b; }

// a format that determines the second: pieces of (token, separator after)
struct Format { std::vector<std::string> tok, sep; std::string lead; };
Format a_format(vp::Ctx& c)
{
    Format f;
    std::vector<std::string> t = {"%Y", c.pick<const char*>({"%m", "%m", "%b", "%B"}), "%d"};
    if (c.below(4)) { t.push_back("%H"); t.push_back("%M"); t.push_back("%S"); }
    else t.push_back("%T");
    for (size_t i = t.size(); i > 1; --i) { size_t j = c.below(4) ? i - 1 : c.below(i); std::swap(t[i - 1], t[j]); }
    f.tok = t;
    if (c.below(5) == 0) f.lead = c.pick<const char*>({"at ", "[", "date=", "%%"});
    bool none = c.below(5) == 0;
    for (size_t i = 0; i < t.size(); ++i)
        f.sep.push_back(i + 1 == t.size() ? (c.below(5) ? "" : "Z]") : none ? "" : std::string(c.pick<const char*>({"-", "_", ":", " ", "/", ", ", "T", ".", "%%"})));
    // a name followed by letters is not told apart
    for (size_t i = 0; i < t.size(); ++i)
        if ((t[i] == "%b" || t[i] == "%B") && !f.sep[i].empty() && isalpha((unsigned char)f.sep[i][0])) f.sep[i] = "-";
    return f;
}
std::string format_text(const Format& f)
{
    std::string s = f.lead;
    for (size_t i = 0; i < f.tok.size(); ++i) s += f.tok[i] + f.sep[i];
    return s;
}
std::string unescape(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { o += s[i]; if (s[i] == '%') ++i; } return o; }
std::string token_text(const std::string& t, const Fields& v)
{
    switch (t[1])
    {
        case 'Y': return std::to_string(v.y);
        case 'm': return two(v.m);
        case 'd': return two(v.d);
        case 'H': return two(v.h);
        case 'M': return two(v.mi);
        case 'S': return two(v.s);
        case 'T': return two(v.h) + ":" + two(v.mi) + ":" + two(v.s);
        case 'b': return std::string(MONTHS[v.m - 1]).substr(0, 3);
        default: return MONTHS[v.m - 1];
    }
}
std::string expected_text(const Format& f, const Fields& v)
{
    std::string s = unescape(f.lead);
    for (size_t i = 0; i < f.tok.size(); ++i) s += token_text(f.tok[i], v) + unescape(f.sep[i]);
    return s;
}

const char* ZONES[] = {"UTC", "Europe/Madrid", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns",
                       "Africa/Casablanca", "Asia/Kathmandu", "XST-5:30", "ABC3DEF,M3.2.0,M11.1.0", "<+1345>-13:45", "Asia/Tokyo", "Europe/London"};
void set_zone(const char* z)
{
    static std::string cur;
    if (cur == z) return;
    cur = z;
    setenv("TZ", z, 1);
    tzset();
}
i64 offset_at(i64 t)
{
    time_t tt = (time_t)t;
    struct tm tm;
    localtime_r(&tt, &tm);
    return tm.tm_gmtoff;
}

} // namespace

VP_PROP(timestamp_text, 1500000, 15000000, "a second between 1677 and 2262 (borders of days, months, leap years and the epoch), a format of shuffled date and time fields with any separators, UTC or one of 14 time zones; the text is compared with an own calendar and parsed back; non-trivial: local time outside UTC, before the epoch, or the end of a month")
{
    i64 t = a_second(c);
    bool local = c.below(2);
    const char* zone = "UTC";
    if (local) { zone = ZONES[c.below(sizeof ZONES / sizeof *ZONES)]; set_zone(zone); }
    bool dflt = c.below(8) == 0;
    Format f = a_format(c);
    if (dflt) f = Format{{"%Y", "%m", "%d", "%H", "%M", "%S"}, {"-", "-", "_", "-", "-", ""}, ""};
    std::string fmt = format_text(f);
    i64 off = local ? offset_at(t) : 0;
    Fields v = fields_of(t + off);
    std::string want = expected_text(f, v);
    VP_LOG(t, " ", zone, " ", fmt, " ", want);
    Timestamp ts = at_second(t);
    if (t >= 0 && c.below(2)) ts += std::chrono::duration_cast<Timestamp::duration>(std::chrono::nanoseconds(c.below(1000000000)));
    std::string text = dflt && !local ? timestamp_to_string(ts) : timestamp_to_string(ts, fmt, local);
    VP_CHECK(text == want, t, " is written ", vp::show(text), " instead of ", vp::show(want), " (", zone, ", ", fmt, ")");
    if (local)
        for (i64 d : {-172800, -86400, -43200, -10800, 10800, 43200, 86400, 172800})
        {
            i64 o2 = offset_at(t + d);
            if (o2 != off && offset_at(t + off - o2) == o2) { c.label("ambiguous"); return; } // the hour happens twice
        }
    Timestamp back;
    try { back = dflt && !local ? string_to_timestamp(text) : string_to_timestamp(text, fmt, local); }
    catch (const std::exception& e) { vp::fail(vp::show(text), " (", fmt, ") is not read back: ", e.what()); }
    VP_CHECK(back == at_second(t), vp::show(text), " (", fmt, ", ", zone, ") is read as second ", second_of(back), " instead of ", t);
    if ((local && strcmp(zone, "UTC")) || t < 0 || v.d >= 28) c.nontrivial(vp::hash_str(fmt, vp::hash_int((u64)t, vp::hash_str(zone))));
}

VP_PROP(timestamp_bad_text, 600000, 6000000, "the text of a date damaged in one field or separator (cut, a letter for a digit, a number out of the range of its field, another separator); it must be rejected with the precondition error; non-trivial: always")
{
    Format f = a_format(c);
    for (auto& s : f.sep) if (s.empty() && &s != &f.sep.back()) s = "-";
    f.sep.back() = "";
    Fields v = fields_of(a_second(c));
    size_t k = c.below(f.tok.size());
    std::string text = unescape(f.lead), kind;
    int how = (int)c.below(4);
    for (size_t i = 0; i < f.tok.size(); ++i)
    {
        std::string p = token_text(f.tok[i], v), s = unescape(f.sep[i]);
        if (i == k)
        {
            if (how == 0)
            {
                kind = "cut";
                if (i > 0 && c.below(2)) text.resize(text.size() - unescape(f.sep[i - 1]).size()); // right after a field
                break;
            }
            if (how == 1) { kind = "letter"; p[0] = 'x'; }
            if (how == 2)
            {
                kind = "range";
                switch (f.tok[i][1])
                {
                    case 'm': p = c.below(4) ? two(c.range(13, 99)) : "00"; break;
                    case 'd': p = c.below(4) ? two(c.range(32, 99)) : "00"; break;
                    case 'H': p = two(c.range(24, 99)); break;
                    case 'M': p = two(c.range(60, 99)); break;
                    case 'S': p = two(c.range(62, 99)); break;
                    case 'T': p = two(c.range(24, 99)) + ":00:00"; break;
                    default: p = "?"; break;
                }
            }
            if (how == 3)
            {
                kind = "separator";
                if (s.empty()) p = "=" + p; // (the last one: before it instead)
                else s = "=" + s;
            }
        }
        text += p + s;
    }
    std::string fmt = format_text(f);
    VP_LOG(kind, " ", vp::show(text), " ", fmt);
    bool local = c.below(3) == 0;
    if (local) set_zone(ZONES[c.below(3)]);
    bool threw = false;
    i64 got = 0;
    try { got = second_of(string_to_timestamp(text, fmt, local)); }
    catch (const PreconditionNotMet&) { threw = true; }
    catch (const std::exception& e) { vp::fail(vp::show(text), " (", fmt, ") raises another error: ", e.what()); }
    VP_CHECK(threw, vp::show(text), " (", fmt, ", ", kind, ") is read as second ", got);
    c.nontrivial(vp::hash_str(text, vp::hash_str(fmt)));
}

VP_PROP(timestamp_dates, 1500000, 15000000, "calendar dates and times of the years 1600 to 2400 and beyond, compared with an own calendar (out of the range of a timestamp they are refused), times of today, durations in milliseconds; non-trivial: outside 1970-2037 or the end of a month")
{
    i64 y = c.below(8) ? c.range(1600, 2400) : c.below(2) ? c.range(1676, 1679) : c.range(2261, 2263);
    if (c.below(20) == 0) y = c.below(2) ? (i64)(2400 + c.below(2000000000)) : (i64)c.below(1600);
    unsigned m = 1 + (unsigned)c.below(12), d = c.below(3) ? 1 + (unsigned)c.below(month_days(y, m)) : month_days(y, m);
    unsigned h = 0, mi = 0, s = 0;
    int given = (int)c.below(4);
    if (given > 0) h = (unsigned)c.below(24);
    if (given > 1) mi = (unsigned)c.below(60);
    if (given > 2) s = (unsigned)c.below(60);
    if (c.below(50) == 0)       // the first and last seconds of all
    {
        i64 e = (c.below(2) ? MIN_S : MAX_S) + c.range(-2, 2), day = e >= 0 ? e / 86400 : -((-e + 86399) / 86400), in = e - day * 86400;
        civil_from_days(day, y, m, d);
        given = 3;
        h = (unsigned)(in / 3600);
        mi = (unsigned)(in / 60 % 60);
        s = (unsigned)(in % 60);
    }
    i64 want = days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
    bool fits = want >= MIN_S && want <= MAX_S, threw = false;
    Timestamp t;
    try
    {
        t = given == 0 ? date_to_timestamp((unsigned)y, m, d) : given == 1 ? date_to_timestamp((unsigned)y, m, d, h) :
                given == 2 ? date_to_timestamp((unsigned)y, m, d, h, mi) : date_to_timestamp((unsigned)y, m, d, h, mi, s);
    }
    catch (const ValueNotAllowedException&) { threw = true; }
    VP_LOG(y, "-", m, "-", d, " ", h, ":", mi, ":", s, " -> ", threw ? std::string("refused") : std::to_string(second_of(t)));
    VP_CHECK(threw == !fits, y, "-", m, "-", d, " ", h, ":", mi, ":", s, threw ? " is refused" : " is accepted");
    if (fits)
    {
        VP_CHECK(t == at_second(want), y, "-", m, "-", d, " ", h, ":", mi, ":", s, " is second ", second_of(t), " instead of ", want);
        VP_CHECK(t <= the_end_of_time() && t >= the_beginning_of_time(), "it is out of time");
        // and the text of it is the date
        if (want >= MIN_S + 1 && c.below(4) == 0)
        {
            std::string e = std::to_string(y) + "-" + two(m) + "-" + two(d) + "_" + two(h) + "-" + two(mi) + "-" + two(s);
            VP_CHECK(timestamp_to_string(t) == e, "it is written ", timestamp_to_string(t), " instead of ", e);
        }
    }
    if (y <= 9999 && c.below(8) == 0)      // the text of a date means the same, or is out of range as well
    {
        std::string text = vp::cat(y < 1000 ? "0" : "", y < 100 ? "0" : "", y < 10 ? "0" : "", y, "-", two(m), "-", two(d), "_", two(h), "-", two(mi), "-", two(s));
        bool refused = false;
        Timestamp r;
        try { r = string_to_timestamp(text); } catch (const ValueNotAllowedException&) { refused = true; }
        VP_CHECK(refused == !fits, text, refused ? " is refused" : " is accepted");
        if (fits) VP_CHECK(r == at_second(want), text, " is second ", second_of(r), " instead of ", want);
    }
    if (c.below(4) == 0)
    {
        unsigned th = (unsigned)c.below(24), tm = (unsigned)c.below(60), tsec = (unsigned)c.below(60);
        i64 b = second_of(now()) / 86400;
        u64 args = c.below(6);      // those not given are 0
        if (args < 1) th = 0;
        if (args < 2) tm = 0;
        if (args < 3) tsec = 0;
        i64 r = second_of(args == 0 ? time_to_timestamp() : args == 1 ? time_to_timestamp(th) : args == 2 ? time_to_timestamp(th, tm) : time_to_timestamp(th, tm, tsec));
        i64 a = second_of(now()) / 86400;
        i64 of_day = th * 3600 + tm * 60 + tsec;
        VP_CHECK(r == b * 86400 + of_day || r == a * 86400 + of_day, "today at ", th, ":", tm, ":", tsec, " is second ", r);
        std::uint32_t ms = (std::uint32_t)c.edge_u64();
        VP_CHECK(duration_to_ms(ms).count() == (i64)ms, ms, " ms give ", duration_to_ms(ms).count());
        time_t any = (time_t)c.edge_i64();
        VP_CHECK(normalize(any) == any, any, " is normalized to ", normalize(any));
        VP_CHECK(the_end_of_time() > now() && the_beginning_of_time() < now(), "now is out of time");
    }
    if (y < 1970 || y > 2037 || d >= 28) c.nontrivial(vp::hash_int((u64)want));
}

// ------------------------------------------------------------------------------------------------ C34 fuzzy
namespace {
struct Val
{
    int v = 0;
    std::string text;
    Val() = default;
    Val(int x) : v(x), text(x ? std::to_string(x) : "") {}
    bool operator ==(const Val& o) const { return v == o.v; }
};
std::ostream& operator <<(std::ostream& os, const Val& v) { return os << "v" << v.v; }

std::string level_name(int l)
{
    return l == -20 ? "UNSET" : l == 0 ? "DEFAULT" : l == 20 ? "FUZZY" : l == 40 ? "SET" : l == 60 ? "HARD" : "";
}
FuzzyLevelType a_level(vp::Ctx& c)
{
    switch (c.weighted({5, 3, 1}))
    {
        case 0: return c.pick<FuzzyLevelType>({40, 20, 0, -20, 60});
        case 1: return (FuzzyLevelType)(c.pick<int>({40, 20, 0, -20, 60}) + (int)c.range(-1, 1));
        default: return (FuzzyLevelType)c.bits();
    }
}

template <typename T, typename Mk>
void fuzzy_run(vp::Ctx& c, Mk mk)
{
    struct M { int v; int level; };
    const size_t N = 3;
    Fuzzy<T> f[N];
    M m[N] = {{0, 0}, {0, 0}, {0, 0}};
    u64 h = 0, ops = 3 + c.size(30), changes = 0;
    auto check = [&](size_t i)
            {
                const Fuzzy<T>& k = f[i];
                VP_CHECK(k.get_level() == m[i].level, i, " has level ", k.get_level(), " instead of ", m[i].level);
                VP_CHECK(k.is_valid() == (m[i].level >= 0), i, " of level ", m[i].level, " valid=", k.is_valid());
                VP_CHECK(k.is_set() == (m[i].level >= 20), i, " of level ", m[i].level, " set=", k.is_set());
                VP_CHECK(k.get_level_as_str() == level_name(m[i].level), i, " of level ", m[i].level, " is called ", vp::show(k.get_level_as_str()));
                T e = mk(m[i].v);
                VP_CHECK(k.get_reference() == e && k.get_value() == e && f[i].get_reference() == e && *k.operator ->() == e && *f[i].operator ->() == e,
                        i, " lost its value ", m[i].v);
                std::ostringstream a, b;
                a << k;
                b << "Fuzzy{Level(" << level_name(m[i].level) << ") " << e << "}";
                VP_CHECK(a.str() == b.str(), i, " is printed ", a.str(), " instead of ", b.str());
            };
    for (u64 o = 0; o < ops; ++o)
    {
        size_t i = c.below(N), j = c.below(N);
        int v = (int)c.below(3);
        FuzzyLevelType l = a_level(c);
        u64 op = c.below(12);
        h = vp::hash_int(op * 64 + i * 16 + j * 4 + (u64)v, vp::hash_int((u64)l, h));
        switch (op)
        {
            case 0: { T x = mk(v); f[i] = Fuzzy<T>(x, l); m[i] = {v, l}; VP_CHECK(x == mk(v), "the value given was changed"); VP_LOG(i, " = Fuzzy(", v, ",", l, ")"); break; }
            case 1: f[i] = Fuzzy<T>(mk(v)); m[i] = {v, 40}; VP_LOG(i, " = Fuzzy(", v, ")"); break;
            case 2: f[i].set_value(mk(v), l); m[i] = {v, l}; VP_LOG(i, ".set_value(", v, ",", l, ")"); break;
            case 3: f[i].set_value(mk(v)); m[i] = {v, 40}; VP_LOG(i, ".set_value(", v, ")"); break;
            case 4: f[i].set_level(l); m[i].level = l; VP_LOG(i, ".set_level(", l, ")"); break;
            case 5: f[i].set_level(); m[i].level = 40; VP_LOG(i, ".set_level()"); break;
            case 6: f[i].unset(); m[i].level = -20; VP_LOG(i, ".unset()"); break;
            case 7: f[i] = f[j]; m[i] = m[j]; VP_LOG(i, " = ", j); break;
            case 8:
                if (i != j)
                {
                    f[i] = std::move(f[j]);
                    m[i] = m[j];
                    f[j] = Fuzzy<T>();
                    m[j] = {0, 0};
                    VP_LOG(i, " = move(", j, ")");
                }
                break;
            case 9: { Fuzzy<T> x(f[j]); f[i] = x; m[i] = m[j]; break; }
            case 10: { f[i].get_reference() = mk(v); m[i].v = v; VP_LOG(i, ".reference = ", v); break; }
            default: { T& r = f[i]; r = mk(v); m[i].v = v; VP_LOG("(T&)", i, " = ", v); }
        }
        if (op < 7) changes++;
        check(i);
        check(j);
        for (size_t a = 0; a < N; ++a)
            for (size_t b = 0; b < N; ++b)
            {
                bool sa = m[a].level >= 20, sb = m[b].level >= 20;
                bool eq = f[a] == f[b];
                VP_CHECK((f[a] != f[b]) == !eq && (f[b] == f[a]) == eq, "== and != of ", a, " and ", b, " disagree");
                if (!sa && !sb) VP_CHECK(eq, a, " and ", b, " are both not set and differ");
                else if (sa != sb || m[a].v != m[b].v || m[a].level != m[b].level) VP_CHECK(!eq, a, " equals ", b, ": ", m[a].v, "/", m[a].level, " and ", m[b].v, "/", m[b].level);
                else VP_CHECK(eq, a, " differs from ", b, ": ", m[a].v, "/", m[a].level);
            }
        for (int x = 0; x < 3; ++x)
        {
            const T t = mk(x);
            bool e = m[i].level >= 0 && m[i].v == x;
            const Fuzzy<T>& k = f[i];
            VP_CHECK(k.operator ==(t) == e && k.operator !=(t) == !e, i, " (", m[i].v, "/", m[i].level, ") compared with ", x, " gives ", k.operator ==(t));
        }
    }
    if (changes >= 3) c.nontrivial(h);
}
} // namespace

VP_PROP(fuzzy_history, 600000, 6000000, "histories of up to 33 constructions, sets, unsets, level changes, copies and moves of three fuzzy values (numbers, texts and own objects) with levels around every named one; every observer and comparison after each; non-trivial: three changes or more")
{
    switch (c.below(3))
    {
        case 0: fuzzy_run<int>(c, [](int v) { return v; }); break;
        case 1: fuzzy_run<std::string>(c, [](int v) { return v ? std::string(3, (char)('a' + v)) + "long enough for the heap" : std::string(); }); break;
        default: fuzzy_run<Val>(c, [](int v) { return Val(v); });
    }
}

// ------------------------------------------------------------------------------------------------ C37 trees, builders, casts
namespace {
struct MNode { int v = 0; std::vector<MNode> kids; };
unsigned mdepth(const MNode& n) { unsigned d = 0; for (auto& k : n.kids) d = std::max(d, mdepth(k) + 1); return d; }
void mall(const MNode& n, std::vector<int>& o) { for (auto& k : n.kids) { o.push_back(k.v); mall(k, o); } }
typedef TreeNode<Val> TN;
void tree_same(const TN& t, const MNode& m)
{
    VP_CHECK(t.info == Val(m.v) && t.info.text == Val(m.v).text, "a node holds ", t.info.v, " instead of ", m.v);
    VP_CHECK(t.leaf() == m.kids.empty(), "a node with ", m.kids.size(), " branches leaf=", t.leaf());
    VP_CHECK(t.depth() == mdepth(m), "the depth is ", t.depth(), " instead of ", mdepth(m));
    VP_CHECK(t.branches().size() == m.kids.size(), t.branches().size(), " branches instead of ", m.kids.size());
    size_t i = 0;
    for (auto& b : t.branches()) tree_same(b, m.kids[i++]);
}
struct Base { virtual ~Base() = default; int a = 1; };
struct Mid : Base { int b = 2; };
struct Leaf : Mid { int d = 4; };
struct Other : Base { int e = 5; };
struct Side { virtual ~Side() = default; };
struct Both : Mid, Side { };
} // namespace

VP_PROP(trees, 800000, 8000000, "trees of up to 40 nodes built by adding values and whole trees (by copy and by move) in any order; structure, depth, leaves and the set of all nodes compared with a model; copies stay apart; non-trivial: depth two or more")
{
    std::vector<TN> ts;
    std::vector<MNode> ms;
    const size_t N = 4;
    for (size_t i = 0; i < N; ++i) { ts.emplace_back(Val((int)i)); ms.push_back({(int)i, {}}); }
    u64 ops = 1 + c.size(20), h = 0;
    auto count = [](const MNode& m) { std::vector<int> o; mall(m, o); return o.size() + 1; };
    for (u64 o = 0; o < ops; ++o)
    {
        size_t i = c.below(N), j = c.below(N);
        int v = (int)c.below(6);
        u64 op = c.below(6);
        if (op < 4 && count(ms[i]) + count(ms[j]) > 40) continue;
        h = vp::hash_int(op * 1000 + i * 100 + j * 10 + (u64)v, h);
        switch (op)
        {
            case 0: { Val x(v); ts[i].add_branch(x); ms[i].kids.push_back({v, {}}); VP_CHECK(x == Val(v) && x.text == Val(v).text, "the value given was changed"); VP_LOG(i, ".add_branch(", v, ")"); break; }
            case 1: ts[i].add_branch(Val(v)); ms[i].kids.push_back({v, {}}); VP_LOG(i, ".add_branch(move ", v, ")"); break;
            case 2: { const TN& k = ts[j]; MNode mk = ms[j]; ts[i].add_branch(k); ms[i].kids.push_back(mk); VP_LOG(i, ".add_branch(tree ", j, ")"); break; }
            case 3:
                if (i == j) break;
                ts[i].add_branch(std::move(ts[j]));
                ms[i].kids.push_back(ms[j]);
                ts[j] = TN(Val(v));
                ms[j] = {v, {}};
                VP_LOG(i, ".add_branch(move tree ", j, ")");
                break;
            case 4: { ts[i] = ts[j]; MNode mk = ms[j]; ms[i] = mk; VP_LOG(i, " = ", j); break; }
            default: { TN x(ts[j]); ts[i] = x; MNode mk = ms[j]; ms[i] = mk; ts[i].info = Val(v); ms[i].v = v; VP_LOG(i, " = copy ", j, " with ", v); }
        }
    }
    unsigned deepest = 0;
    for (size_t i = 0; i < N; ++i)
    {
        tree_same(ts[i], ms[i]);
        deepest = std::max(deepest, mdepth(ms[i]));
        std::vector<int> e, g;
        mall(ms[i], e);
        auto all = ts[i].all_nodes();
        for (auto& n : all) g.push_back(n.info.v);
        std::sort(e.begin(), e.end());
        std::sort(g.begin(), g.end());
        VP_CHECK(e == g, "all_nodes gives ", g.size(), " nodes instead of the ", e.size(), " of the tree");
        tree_same(ts[i], ms[i]);
    }
    if (deepest >= 2) c.nontrivial(h);
}

VP_PROP(builders, 400000, 4000000, "builders made from random maps of keys to values and of values to sets of keys (disjoint), changed in between, asked for keys present and absent; casts of objects of a class hierarchy; non-trivial: two keys or more present")
{
    std::map<std::string, int> model;
    auto key = [&]() { return c.str("ab", 3); };
    auto kv = [&]() { std::map<std::string, int> m; for (u64 n = c.below(6); n; --n) { std::string k = key(); m[k] = (int)c.below(4); } return m; };
    auto vk = [&]()
            {
                std::map<int, std::set<std::string>> m;
                for (auto& p : kv()) m[p.second].insert(p.first);
                if (c.below(3) == 0) m[9];
                return m;
            };
    auto flat = [](const std::map<int, std::set<std::string>>& m) { std::map<std::string, int> r; for (auto& p : m) for (auto& k : p.second) r[k] = p.first; return r; };
    std::unique_ptr<Builder<std::string, int>> b;
    if (c.below(2)) { auto m = kv(); model = m; b.reset(new Builder<std::string, int>(m)); }
    else { auto m = vk(); model = flat(m); b.reset(new Builder<std::string, int>(m)); }
    u64 h = 0;
    size_t most = 0;
    for (u64 n = 1 + c.below(4); n; --n)
    {
        most = std::max(most, model.size());
        for (auto& p : model) h = vp::hash_str(p.first, vp::hash_int((u64)p.second, h));
        for (u64 q = 1 + c.below(6); q; --q)
        {
            std::string k = key();
            auto it = model.find(k);
            int v = -7;
            bool f = b->find(k, v);
            VP_LOG("find ", k, " -> ", f, " ", v);
            VP_CHECK(f == (it != model.end()), "key ", k, " found=", f);
            VP_CHECK(v == (f ? it->second : -7), "key ", k, " gives ", v);
            bool threw = false;
            try { v = b->find(k); }
            catch (const ValueNotAllowedException&) { threw = true; }
            VP_CHECK(threw == (it == model.end()), "key ", k, threw ? " raises" : " does not raise");
            if (!threw) VP_CHECK(v == it->second, "key ", k, " gives ", v);
        }
        for (auto& p : model) VP_CHECK(b->find(p.first) == p.second, "key ", p.first, " gives ", b->find(p.first));
        if (c.below(2)) { auto m = kv(); model = m; b->refactor_values(m); VP_LOG("new keys"); }
        else { auto m = vk(); model = flat(m); b->refactor_values(m); VP_LOG("new values"); }
    }
    // a key that stands for two values stands for one of them
    {
        std::map<int, std::set<std::string>> two;
        std::map<std::string, std::set<int>> may;
        for (u64 n = c.below(8); n; --n) { std::string k = key(); int v = (int)c.below(4); two[v].insert(k); may[k].insert(v); }
        if (c.below(2)) b.reset(new Builder<std::string, int>(two));
        else b->refactor_values(two);
        for (auto& p : may)
        {
            int v = -7;
            VP_CHECK(b->find(p.first, v) && p.second.count(v), "key ", p.first, " gives ", v, ", one of ", p.second.size(), " others");
            VP_CHECK(p.second.count(b->find(p.first)), "key ", p.first, " raises or gives another value");
        }
    }
    // casts
    std::unique_ptr<Base> o;
    u64 t = c.below(5);
    switch (t) { case 0: o.reset(new Base); break; case 1: o.reset(new Mid); break; case 2: o.reset(new Leaf); break; case 3: o.reset(new Other); break; default: o.reset(new Both); }
    const Base& r = *o;
    VP_CHECK(can_cast<Base>(r), "a base is no base");
    VP_CHECK(can_cast<Mid>(r) == (t == 1 || t == 2 || t == 4), "type ", t, " cast to Mid");
    VP_CHECK(can_cast<Leaf>(r) == (t == 2), "type ", t, " cast to Leaf");
    VP_CHECK(can_cast<Other>(r) == (t == 3), "type ", t, " cast to Other");
    VP_CHECK(can_cast<Side>(r) == (t == 4), "type ", t, " cast to Side");
    VP_CHECK(can_cast<Both>(r) == (t == 4), "type ", t, " cast to Both");
    VP_CHECK(cast_to_void_ptr(o.get()) == static_cast<void*>(o.get()), "the address changed");
    const int z = 3;
    VP_CHECK(cast_to_void_ptr(&z) == (void*)&z && cast_to_void_ptr((const int*)nullptr) == nullptr, "the address changed");
    if (most >= 2) c.nontrivial(h);
}

// ------------------------------------------------------------------------------------------------ C38 pools
namespace {
struct Elem { int dirty = 0; int id = 0; static int live, made; Elem() { ++live; id = ++made; } ~Elem() { --live; } };
int Elem::live = 0;
int Elem::made = 0;
struct Pool : UnboundedPool<Elem>
{
    std::set<Elem*> existing;
    int news = 0, deletes = 0, resets = 0;
    int* deletes_out;
    Pool(PoolConfiguration k, int* out, bool init) : UnboundedPool<Elem>(k), deletes_out(out) { if (init) this->initialize_vector_(); }
    ~Pool() {}
    Elem* new_element_() override { ++news; Elem* e = new Elem; existing.insert(e); return e; }
    void reset_element_(Elem* e) override
    {
        ++resets;
        VP_CHECK(existing.count(e), "an element that was not made is reset");
        e->dirty = 0;
    }
};
} // namespace

VP_PROP(pools, 1500000, 15000000, "histories of up to 60 loans and returns (newest, oldest and any) of a pool with any initial and batch size, with elements made dirty while on loan; one return too many; then destruction; non-trivial: the pool grew after being made and an element was reused")
{
    PoolConfiguration k;
    unsigned init = (unsigned)c.below(5), batch = (unsigned)(c.below(10) ? 1 + c.below(5) : 0), maxi = (unsigned)c.below(3);
    if (c.below(2)) k = PoolConfiguration(init, maxi, batch);
    else { k.initial_size = init; k.maximum_size = maxi; k.batch_size = batch; }
    bool direct = c.below(4) == 0; // the pool that create_pool gives
    Elem::live = Elem::made = 0;
    bool threw = false;
    std::unique_ptr<IPool<Elem>> pool;
    Pool* own = nullptr;
    try
    {
        if (direct) pool.reset(create_pool<Elem>(k));
        else pool.reset(own = new Pool(k, nullptr, true));
    }
    catch (const InitializationException&) { threw = true; }
    VP_LOG("pool of ", init, " batch ", batch, direct ? " (create_pool)" : "", threw ? " refused" : "");
    VP_CHECK(threw == (batch < 1), "batch ", batch, threw ? " is refused" : " is accepted");
    if (threw) { VP_CHECK(Elem::live == 0, "a refused pool left elements"); return; }
    if (own) VP_CHECK(own->news == (int)init, own->news, " elements made at first instead of ", init);
    if (own) VP_CHECK(Elem::live == (int)init, Elem::live, " elements alive");
    std::vector<Elem*> out;
    std::set<Elem*> seen;
    u64 ops = 1 + c.size(60), h = vp::hash_int(init * 10 + batch);
    unsigned made = (unsigned)Elem::live, grown = 0, reused = 0;
    for (u64 o = 0; o < ops; ++o)
    {
        u64 op = c.weighted({6, 4});
        if (op == 0)
        {
            Elem* e = nullptr;
            bool had_free = made > out.size();
            VP_CHECK(pool->loan(e), "a loan fails");
            VP_CHECK(e, "a loan gives nothing");
            VP_CHECK(std::find(out.begin(), out.end(), e) == out.end(), "element ", e->id, " is loaned twice");
            VP_CHECK(!own || own->existing.count(e), "a loan gives an element that was not made");
            VP_CHECK(direct || e->dirty == 0, "element ", e->id, " is loaned dirty");
            VP_LOG("loan ", e->id);
            unsigned now_made = (unsigned)Elem::live;
            VP_CHECK(now_made == made + (had_free ? 0 : batch), now_made - made, " elements made by a loan ", had_free ? "with free ones" : "without free ones");
            if (now_made > made) grown++;
            made = now_made;
            if (!seen.insert(e).second) reused++;
            e->dirty = 1;
            out.push_back(e);
        }
        else if (!out.empty())
        {
            size_t i = c.below(3) == 0 ? 0 : c.below(2) ? out.size() - 1 : c.below(out.size());
            Elem* e = out[i];
            out.erase(out.begin() + (long)i);
            int r = own ? own->resets : 0;
            VP_LOG("return ", e->id);
            VP_CHECK(pool->return_loan(e), "a return fails");
            VP_CHECK(!own || own->resets == r + 1, "a returned element is not reset");
            VP_CHECK((unsigned)Elem::live == made, "a return changes the number of elements");
        }
        else
        {
            Elem stray;
            bool refused = false;
            try { pool->return_loan(&stray); }
            catch (const InconsistencyException&) { refused = true; }
            VP_CHECK(refused, "a return with nothing on loan is accepted");
        }
        h = vp::hash_int(op, h);
    }
    while (!out.empty()) { pool->return_loan(out.back()); out.pop_back(); }
    VP_CHECK((unsigned)Elem::live == made, Elem::live, " elements alive instead of ", made);
    pool.reset();
    VP_CHECK(Elem::live == 0, Elem::live, " elements left after the pool");
    if (grown > 1 && reused) c.nontrivial(h);
}

// ------------------------------------------------------------------------------------------------ C40 return codes
VP_PROP(return_codes, 4000000, 40000000, "pairs of return codes made by default, from every value and from any number of the middleware; every operator and the printed name; non-trivial: the codes differ")
{
    static const ReturnCode::ReturnCodeValue vals[] = {ReturnCode::RETCODE_OK, ReturnCode::RETCODE_ERROR, ReturnCode::RETCODE_UNKNOWN,
                                                       ReturnCode::RETCODE_NO_DATA, ReturnCode::RETCODE_NOT_ENABLED, ReturnCode::RETCODE_PRECONDITION_NOT_MET};
    static const char* names[] = {"{Ok}", "{Error}", "{Unknown}", "{NoData}", "{NotEnabled}", "{PreconditionNotMet}"};
    namespace dds = eprosima::fastdds::dds;
    auto from_dds = [](i64 n) -> unsigned
            {
                switch (n)
                {
                    case 0: return 0;
                    case 1: case 2: case 3: case 5: case 7: case 8: case 9: case 10: case 12: return 1;
                    case 11: return 3;
                    case 6: return 4;
                    case 4: return 5;
                    default: return 2;
                }
            };
    unsigned v[2], src[2];
    ReturnCode r[2];
    for (int i = 0; i < 2; ++i)
    {
        src[i] = (unsigned)c.below(4);
        switch (src[i])
        {
            case 0: v[i] = 0; break;
            case 1: v[i] = (unsigned)c.below(6); r[i] = ReturnCode(vals[v[i]]); break;
            case 2: { dds::ReturnCode_t n = (dds::ReturnCode_t)c.range(-3, 20); v[i] = from_dds(n); r[i] = ReturnCode(n); break; }
            default: { dds::ReturnCode_t n = (dds::ReturnCode_t)c.edge_int(); v[i] = from_dds(n); r[i] = ReturnCode(n); }
        }
        if (c.below(3) == 0) { ReturnCode k(r[i]); r[i] = ReturnCode(ReturnCode::RETCODE_ERROR); r[i] = k; }
    }
    VP_LOG(names[v[0]], " and ", names[v[1]]);
    const ReturnCode a = r[0], b = r[1];
    unsigned x = v[0], y = v[1];
    VP_CHECK((a == b) == (x == y) && (b == a) == (x == y) && (a != b) == (x != y), names[x], " == ", names[y], " gives ", a == b);
    VP_CHECK((a == vals[y]) == (x == y) && (vals[y] == a) == (x == y) && (a != vals[y]) == (x != y) && (vals[y] != a) == (x != y), names[x], " compared with the value of ", names[y]);
    VP_CHECK((a < b) == ((unsigned)vals[x] < (unsigned)vals[y]), names[x], " < ", names[y], " gives ", a < b);
    VP_CHECK(!a == (x != 0), "!", names[x], " gives ", !a);
    VP_CHECK(a() == (std::uint32_t)vals[x], names[x], " has number ", a());
    std::ostringstream s;
    s << a << b;
    VP_CHECK(s.str() == std::string(names[x]) + names[y], "printed ", s.str(), " instead of ", names[x], names[y]);
    if (x != y) c.nontrivial();
}
