// C17 stdin event handler, C21 command history, C22 command reader.
#include "vp.hpp"
#include <condition_variable>
#include <cstdarg>
#include <iostream>
#include <memory>
#include <mutex>
#include <thread>
#include <sys/ioctl.h>
#include <termios.h>
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <cpp_utils/history/CommandHistoryHandler.hpp>
#include <cpp_utils/user_interface/CommandReader.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::i64;
using vp::u64;

// ---- the terminal -------------------------------------------------------------------------------------------
namespace {
vp::Ghost term_width;        // -1: not a terminal
vp::Ghost term_flags;        // c_lflag of the input
vp::Ghost term_is_tty;
i64 flags0 = ICANON | ECHO | ISIG | IEXTEN;
}
extern "C" int ioctl(int, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    i64 w = term_width.get();
    if (req != TIOCGWINSZ || w < 0) return -1;
    auto* ws = (struct winsize*)p;
    ws->ws_row = 24;
    ws->ws_col = (unsigned short)w;
    ws->ws_xpixel = ws->ws_ypixel = 0;
    return 0;
}
extern "C" int tcgetattr(int, struct termios* t) noexcept
{
    if (!term_is_tty.get()) return -1;
    *t = termios();
    t->c_lflag = (tcflag_t)term_flags.get();
    return 0;
}
extern "C" int tcsetattr(int, int, const struct termios* t) noexcept
{
    if (!term_is_tty.get()) return -1;
    term_flags.set((i64)t->c_lflag);
    return 0;
}

namespace {

// what is written on std::cout: kept only while a property looks at it
struct NullBuf : std::streambuf
{
    bool keep = false;
    std::string kept;
    int overflow(int c) override
    {
        if (c == EOF) return 0;
        char ch = (char)c;
        xsputn(&ch, 1);
        return c;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (keep) { dsched::Atomic a; kept.append(p, (size_t)n); }
        return n;
    }
};
NullBuf& screen_output()
{
    static NullBuf nb;
    static std::streambuf* const once = std::cout.rdbuf(&nb);
    (void)once;
    return nb;
}

// input that blocks until there is something to read or it ends
struct Feed : std::streambuf
{
    std::mutex m;
    std::condition_variable cv;
    std::string data;
    size_t at = 0;
    vp::Ghost taken;
    bool ended = false;
    void type(const std::string& s)
    {
        std::lock_guard<std::mutex> l(m);
        data += s;
        cv.notify_all();
    }
    void end()
    {
        std::lock_guard<std::mutex> l(m);
        ended = true;
        cv.notify_all();
    }
    size_t consumed()
    {
        std::lock_guard<std::mutex> l(m);
        return at;
    }
    int get(bool take)
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&]() { return at < data.size() || ended; });
        if (at >= data.size()) return EOF;
        int c = (unsigned char)data[at];
        if (take) { ++at; taken.add(1); }
        return c;
    }
    int underflow() override { return get(false); }
    int uflow() override { return get(true); }
};

// ---- reference line editor
struct Editor
{
    std::vector<std::string> history;
    size_t idx = 0;
    std::string in;                 // typed and not consumed
    size_t taken = 0;
    unsigned reads = 0;
    bool editing = false, ignoring = false, set = true;
    unsigned more = 0;              // lines after which the callback asks for another one
    std::string line;
    size_t cur = 0;
    int esc = 0;                    // 1: after ESC, 2: after ESC [, others: the digit of a key that ends in ~
    std::vector<std::string> out;

    void replace(const std::string& s) { line = s; cur = s.size(); }
    void previous() { if (idx > 0) replace(history[--idx]); }
    void next()
    {
        if (idx < history.size()) ++idx;
        replace(idx < history.size() ? history[idx] : "");
    }
    void deliver(const std::string& s)
    {
        if (set)
        {
            out.push_back(s);
            if (more) { --more; ++reads; }
        }
        editing = false;
    }
    void key(unsigned char c)
    {
        if (esc == 1) { esc = 2; return; }
        if (esc == 2)
        {
            esc = 0;
            switch (c)
            {
                case 'A': previous(); break;
                case 'B': next(); break;
                case 'C': if (cur < line.size()) ++cur; break;
                case 'D': if (cur) --cur; break;
                case 'H': cur = 0; break;
                case 'F': cur = line.size(); break;
                case '2': case '3': case '5': case '6': esc = c; break;
            }
            return;
        }
        if (esc)
        {
            int k = esc;
            esc = 0;
            if (k == '3' && cur < line.size()) line.erase(cur, 1);
            if (k == '5') previous();
            if (k == '6') next();
            return;
        }
        if (c == 27) { esc = 1; return; }
        if (c == '\n' || c == '\r')
        {
            std::string l = line;
            deliver(l);
            if (!ignoring && !l.empty())
            {
                history.push_back(l);
                idx = history.size();
            }
            return;
        }
        if (c == '\b' || c == 127) { if (cur) line.erase(--cur, 1); return; }
        if (c == 3) { deliver(""); return; }
        line.insert(cur++, 1, (char)c);
    }
    void run()
    {
        while (true)
        {
            if (!editing)
            {
                if (!reads || !set) return;
                --reads;
                editing = true;
                line.clear();
                cur = 0;
                esc = 0;
            }
            if (in.empty()) return;
            unsigned char c = (unsigned char)in[0];
            in.erase(0, 1);
            ++taken;
            key(c);
        }
    }
};

std::string gen_keys(vp::Ctx& c, size_t max, bool& edits)
{
    std::string s;
    for (size_t n = c.size(max); n; --n)
    {
        switch (c.weighted({8, 4, 3, 3, 3, 3, 1, 1}))
        {
            case 0: s += (char)('a' + c.below(4)); break;
            case 1: s += "\n"; break;
            case 2: s += c.pick<const char*>({"\x7f", "\b"}); edits = true; break;
            case 3: s += c.pick<const char*>({"\033[D", "\033[C"}); edits = true; break;
            case 4: s += c.pick<const char*>({"\033[A", "\033[B", "\033[5~", "\033[6~"}); edits = true; break;
            case 5: s += c.pick<const char*>({"\033[H", "\033[F", "\033[3~", "\033[2~", "\033[Z"}); edits = true; break;
            case 6: s += c.pick<const char*>({"\r", "\x03"}); break;
            default:
            {
                unsigned char b = (unsigned char)(c.below(2) ? c.range(128, 255) : c.range(32, 126));
                s += (char)b;
            }
        }
    }
    return s;
}

std::string show_lines(const std::vector<std::string>& v)
{
    std::string s = "[";
    for (auto& x : v) s += vp::show(x) + " ";
    return s + "]";
}

} // namespace

VP_PROP(stdin_history, 100000, 2000000, "a handler on an input that types random keys (text, line ends, deletion, cursor and history keys, Ctrl-C, bytes up to 255) in pieces, while reads are asked for from the same thread, another one or the callback, and the callback is unset and set again; the delivered lines and the bytes taken are compared with a reference line editor after every step; non-trivial: an editing key was typed and a line was delivered")
{
    screen_output().keep = false;
    struct Op { int what; std::string keys; unsigned n = 0; };
    enum { TYPE, ASK, BOTH, IGNORE, REPLACE, RESET };
    unsigned initial = (unsigned)c.below(3);
    unsigned more = c.below(3) ? 0 : (unsigned)c.below(4);
    i64 width = c.below(3) ? 80 : c.pick<i64>({-1, 0, 1, 2, 5, 200});
    bool tty = c.below(4) != 0;
    // whatever the terminal was set to before
    flags0 = ICANON | ECHO | ISIG | IEXTEN;
    if (c.below(2)) { flags0 = 0; for (i64 f : {ICANON, ECHO, ISIG, IEXTEN, ECHOE, ECHOK, TOSTOP, NOFLSH}) if (c.below(2)) flags0 |= f; }
    bool edits = false;
    std::vector<Op> ops(1 + c.size(12));
    std::string d = vp::cat("reads at first: ", initial, ", the callback asks again ", more, " times, width ", width);
    for (auto& o : ops)
    {
        o.what = (int)c.weighted({5, 4, 4, 1, 1, 1});
        if (o.what == TYPE || o.what == BOTH) o.keys = gen_keys(c, 30, edits);
        if (o.what == ASK || o.what == BOTH || o.what == RESET) o.n = (unsigned)c.below(4);
        static const char* nm[] = {"type", "ask", "type and ask at once", "toggle ignore", "replace the callback", "unset and set again"};
        d += vp::cat("\n", nm[o.what], " ", vp::show(o.keys), " ", o.n);
    }
    bool eof = c.below(3) != 0;
    std::string cut = eof && c.below(3) == 0 ? c.pick<std::string>({"\033", "\033[", "\033[3", "\033[5", "abc", "ab\033[D"}) : "";
    VP_LOG(d, eof ? "\nend of input after " : "\nunset while reading", vp::show(cut));
    bool delivered = false;
    dsched::Options opt;
    opt.memory_points = c.below(2);
    term_width.set(width);
    term_is_tty.set(tty);
    term_flags.set(flags0);
    dsched::run([&]()
    {
        Feed feed;
        std::istream is(&feed);
        Editor ed;
        std::mutex got_m;
        std::vector<std::string> got;
        std::unique_ptr<StdinEventHandler> h;
        vp::Ghost asks, version{1}, inside, hp;
        asks.set(more);
        auto cb = [&](int me)
        {
            return [&, me](std::string s)
            {
                VP_CHECK(inside.add(1) == 1, "the callback is called twice at once");
                VP_CHECK(version.get() == me, "callback ", me, " is called while callback ", version.get(), " is in force (0: none)");
                { std::lock_guard<std::mutex> l(got_m); got.push_back(s); }
                if (asks.get() > 0) { asks.add(-1); ((StdinEventHandler*)hp.get())->read_one_more_line(); }
                inside.add(-1);
            };
        };
        h.reset(new StdinEventHandler(cb(1), true, 0, is));
        hp.set((i64)h.get());
        ed.more = more;
        for (unsigned i = 0; i < initial; ++i) { h->read_one_more_line(); ed.reads++; }
        auto check = [&](const char* when, bool partial_too = false)
        {
            dsched::Settled quiet;
            ed.run();
            std::lock_guard<std::mutex> l(got_m);
            auto exp = ed.out;
            if (partial_too && ed.editing && got.size() == exp.size() + 1) exp.push_back(ed.line);
            VP_CHECK(got == exp, when, ": lines ", show_lines(got), " instead of ", show_lines(exp));
            if (!partial_too)
            {
                size_t n = (size_t)feed.taken.get();
                VP_CHECK(n == ed.taken, when, ": took ", n, " bytes of the input instead of ", ed.taken);
            }
        };
        check("start");
        int ver = 1;
        for (auto& o : ops)
        {
            switch (o.what)
            {
                case TYPE: feed.type(o.keys); ed.in += o.keys; break;
                case ASK: for (unsigned i = 0; i < o.n; ++i) { h->read_one_more_line(); ed.reads++; } break;
                case BOTH:
                {
                    std::thread t([&]() { for (char ch : o.keys) feed.type(std::string(1, ch)); });
                    for (unsigned i = 0; i < o.n; ++i) { h->read_one_more_line(); ed.reads++; }
                    t.join();
                    ed.in += o.keys;
                    break;
                }
                case IGNORE: ed.ignoring = !ed.ignoring; h->set_ignore_input(ed.ignoring); break;
                case REPLACE:
                    // settled: no call is being made
                    version.set(++ver);
                    h->set_callback(cb(ver));
                    break;
                case RESET:
                    if (ed.editing) break;
                    version.set(0);
                    h->unset_callback();
                    VP_CHECK(!tty || term_flags.get() == flags0, "the terminal is left in raw mode");
                    for (unsigned i = 0; i < o.n; ++i) { h->read_one_more_line(); ed.reads++; }
                    ed.set = false;
                    check("unset");
                    ed.set = true;
                    version.set(++ver);
                    h->set_callback(cb(ver));
                    break;
            }
            check("after a step");
        }
        delivered = !got.empty();
        if (eof)
        {
            // an escape sequence of which only the beginning is ever typed
            if (ed.editing && ed.in.empty()) { feed.type(cut); ed.in += cut; }
            feed.end();
            check("end of input", true);
            for (unsigned i = 0; i < 2; ++i) { h->read_one_more_line(); ed.reads++; }
            check("reads after the end of the input", true);
            version.set(0);
            h.reset();
        }
        else
        {
            // reads asked for are used up first, so that at most the line being read is left
            while (ed.editing && ed.reads) { feed.type("\n"); ed.in += "\n"; ed.run(); }
            check("before unset");
            if (ed.editing)
            {
                ed.more = 0;
                asks.set(0);
                std::string rest = "xyz\n";
                std::thread t([&]() { for (char ch : rest) feed.type(std::string(1, ch)); });
                inside.set(0);
                if (c.below(2)) h->unset_callback();
                h.reset();
                t.join();
                if (got.size() > ed.out.size()) { ed.in += rest; ed.run(); }
                VP_CHECK(got == ed.out, "after unset: lines ", show_lines(got), " instead of ", show_lines(ed.out));
            }
            else
            {
                version.set(0);
                h.reset();
            }
            feed.end();
        }
        VP_CHECK(!tty || term_flags.get() == flags0, "the terminal is left in raw mode");
        if (delivered && edits) c.nontrivial();
    }, opt);
}

// ---- C51
namespace {

// a terminal of w columns and as many rows as it takes: the last column is filled without moving on, the next
// character starts a new row (as xterm, VT100 and the Linux console do), and a line feed returns the carriage
struct Terminal
{
    size_t w;
    std::vector<std::string> rows = {""};
    size_t r = 0, col = 0;
    bool pending = false;          // the last column has just been filled
    std::string odd;               // what a line editor has no business to send
    int st = 0;
    std::string arg;
    explicit Terminal(size_t width) : w(width) {}
    std::string& row(size_t i)
    {
        while (rows.size() <= i) rows.push_back("");
        return rows[i];
    }
    void down() { ++r; row(r); }
    void put(char ch)
    {
        if (pending) { down(); col = 0; pending = false; }
        std::string& l = row(r);
        if (l.size() <= col) l.resize(col + 1, ' ');
        l[col] = ch;
        if (col + 1 == w) pending = true;
        else ++col;
    }
    void command(char k)
    {
        size_t n = arg.empty() ? 1 : (size_t)std::strtoul(arg.c_str(), nullptr, 10);
        size_t m = n ? n : 1;
        if (k == 'm') return;
        if (k == 'K')
        {
            std::string& l = row(r);
            if (arg == "2") l.clear();
            else if (arg == "1") { for (size_t i = 0; i <= col && i < l.size(); ++i) l[i] = ' '; }
            else if (l.size() > col) l.resize(col);
            pending = false;
            return;
        }
        if (k == 'J')
        {
            if (!arg.empty() && arg != "0") { odd += "ESC[" + arg + "J "; return; }
            if (row(r).size() > col) row(r).resize(col);
            for (size_t i = r + 1; i < rows.size(); ++i) rows[i].clear();
            pending = false;
            return;
        }
        pending = false;
        switch (k)
        {
            case 'A': case 'F': if (m > r) odd += "above the screen "; r -= std::min(m, r); break;
            // a terminal does not scroll for these: there has to be such a row
            case 'B': case 'E': if (r + m >= rows.size()) odd += "below the last row "; r = std::min(r + m, rows.size() - 1); break;
            case 'C': col = std::min(col + m, w - 1); break;
            case 'D': col -= std::min(m, col); break;
            case 'G': col = std::min(m - 1, w - 1); break;
            default: odd += "ESC[" + arg + k + " ";
        }
        if (k == 'E' || k == 'F') col = 0;
    }
    void feed(const std::string& s)
    {
        for (char ch : s)
        {
            if (st == 1) { st = ch == '[' ? 2 : 0; arg.clear(); if (!st) odd += vp::cat("ESC", vp::show(std::string(1, ch)), " "); continue; }
            if (st == 2)
            {
                if (ch >= '@' && ch <= '~') { st = 0; command(ch); }
                else arg += ch;
                continue;
            }
            switch (ch)
            {
                case 27: st = 1; break;
                case '\n': down(); col = 0; pending = false; break;
                case '\r': col = 0; pending = false; break;
                case '\b': if (col) --col; pending = false; break;
                case 7: break;
                default: put(ch);
            }
        }
    }
    // without the spaces at the end, which cannot be seen
    std::string seen(size_t i) const
    {
        if (i >= rows.size()) return "";
        std::string s = rows[i];
        while (!s.empty() && s.back() == ' ') s.pop_back();
        return s;
    }
    std::string picture() const
    {
        std::string d = vp::cat("a screen ", w, " columns wide, cursor in row ", r, " column ", col, pending ? " (filled)" : "", ":");
        for (size_t i = 0; i < rows.size(); ++i) d += vp::cat("\n  ", i, " |", rows[i], "|");
        return d;
    }
};

}

VP_PROP(terminal_display, 30000, 600000, "a terminal 4 to 120 columns wide with some rows already on it, on which 1-8 lines of printable characters are typed and edited with the deletion, cursor and history keys; after every key the terminal, which executes what is written on std::cout, must show the rows that were there, the line being edited after its prompt and the cursor at its place, and after the end of a line its text and below it what the callback writes; non-trivial: a line of more than one row was edited with the cursor not at its end")
{
    NullBuf& out = screen_output();
    auto gen_width = [&]() -> i64 { return c.below(6) ? c.range(4, 24) : c.pick<i64>({-1, 0, 40, 80, 120}); };
    auto columns = [](i64 v) { return v > 0 ? (size_t)v : (size_t)80; };
    i64 width = gen_width();
    size_t w = columns(width);
    const i64 width0 = width;
    bool prompt = c.below(2), writes = c.below(3) != 0;
    unsigned marks = (unsigned)c.below(4);
    std::vector<std::string> keys;
    std::vector<i64> widths;        // of the terminal, when each line ends
    unsigned lines = 1 + (unsigned)c.below(8);
    unsigned left = 60;
    for (unsigned i = 0; i < lines; ++i)
    {
        for (size_t n = c.size(14); n && left; --n, --left)
        {
            switch (c.weighted({5, 3, 2, 6, 4, 3}))
            {
                case 0:
                {
                    std::string s;
                    // often up to the end of a row, or next to it
                    size_t len = c.below(3) ? 1 + c.below(2 * w + 3) : w - 3 + c.below(3) * w + c.below(3);
                    if (len > 90) len = 1 + len % 90;
                    if (c.below(2)) len = 1 + c.below(4);
                    for (; len; --len) s += (char)(c.below(6) ? 'a' + c.below(26) : c.range(32, 126));
                    keys.push_back(s);
                    break;
                }
                case 1: keys.push_back(c.pick<const char*>({"\x7f", "\b"})); break;
                case 2: keys.push_back("\033[3~"); break;
                case 3:
                {
                    std::string k = c.pick<const char*>({"\033[D", "\033[D", "\033[C"});
                    std::string s;
                    for (u64 m = c.below(3) ? 1 : 1 + c.below(w + 2); m; --m) s += k;
                    keys.push_back(s);
                    break;
                }
                case 4: keys.push_back(c.pick<const char*>({"\033[A", "\033[A", "\033[B", "\033[5~", "\033[6~"})); break;
                default: keys.push_back(c.pick<const char*>({"\033[H", "\033[H", "\033[F", "\033[2~"}));
            }
        }
        keys.push_back(c.below(8) ? c.below(4) ? "\n" : "\r" : "\x03");
        if (c.below(6) == 0) w = columns(width = gen_width());
        widths.push_back(width);
    }
    std::string d;
    for (auto& k : keys) d += vp::cat("\n", vp::show(k));
    d += "\nwidths:";
    for (i64 v : widths) d += vp::cat(" ", v);
    VP_LOG("width ", width0, prompt ? ", the prompt is written before every line" : "", writes ? ", the callback writes" : "", ", ", marks, " rows above", d);
    term_width.set(width0);
    w = columns(width0);
    size_t ended = 0;
    term_is_tty.set(1);
    term_flags.set(flags0);
    bool nt = false;
    dsched::Options opt;
    dsched::run([&]()
    {
        Feed feed;
        std::istream is(&feed);
        Editor ed;
        Terminal t(w);
        out.kept.clear();
        out.keep = true;
        vp::Ghost calls;
        StdinEventHandler h([&](std::string)
        {
            i64 k = calls.add(1);
            if (writes) std::cout << "#" << k % 100 << std::endl;
        }, true, 0, is);
        auto look = [&]()
        {
            dsched::Settled quiet;
            t.feed(out.kept);
            out.kept.clear();
        };
        for (unsigned i = 0; i < marks; ++i) std::cout << "m" << i << "\n";
        look();
        std::vector<std::string> above = t.rows;
        above.pop_back();
        size_t start = t.r;
        auto begin = [&]()
        {
            if (prompt) std::cout << ">> " << std::flush;
            h.read_one_more_line();
            ed.reads++;
            ed.run();
            look();
        };
        // the rows of the line, and how many they are
        auto text = [&](const std::string& line)
        {
            for (size_t i = 0; i < above.size(); ++i)
                VP_CHECK(t.rows[i] == above[i], "row ", i, ", which is above the line, was |", above[i], "| on ", t.picture());
            std::string s = ">> " + line;
            size_t n = (s.size() + w - 1) / w;
            for (size_t i = 0; i < n; ++i)
            {
                std::string e = s.substr(i * w, w);
                while (!e.empty() && e.back() == ' ') e.pop_back();
                std::string g = t.seen(start + i);
                VP_CHECK(g == e || (line.empty() && g.empty()), "row ", i, " of the line ", vp::show(line), " shows |", g, "| instead of |", e, "| on ", t.picture());
            }
            VP_CHECK(t.odd.empty(), "the terminal is told: ", t.odd, " on ", t.picture());
            return n;
        };
        begin();
        for (auto& k : keys)
        {
            bool ends = k == "\n" || k == "\r" || k == "\x03";
            std::string line = ed.line;
            size_t cur = ed.cur;
            if (cur < line.size() && line.size() + 3 > w && k != "\n") nt = true;
            feed.type(k);
            ed.in += k;
            ed.run();
            look();
            if (!ends)
            {
                size_t n = text(ed.line), at = 3 + ed.cur;
                for (size_t i = start + n; i < t.rows.size(); ++i)
                    VP_CHECK(t.seen(i).empty(), "row ", i, " is below the line ", vp::show(ed.line), " and shows |", t.rows[i], "| on ", t.picture());
                bool ok = t.r == start + at / w && t.col == at % w && !t.pending;
                // the end of a line that fills its last row
                if (ed.cur == ed.line.size() && at % w == 0) ok = ok || (t.r == start + at / w - 1 && t.pending);
                // before anything is typed, where the application left it
                if (ed.line.empty() && !prompt) ok = ok || (t.r == start && t.col == 0);
                VP_CHECK(ok, "the cursor is before character ", ed.cur, " of the line ", vp::show(ed.line), ", which is row ", start + at / w, " column ", at % w, ", not where it is on ", t.picture());
                continue;
            }
            size_t n = text(line), next = start + n;
            VP_CHECK(calls.get() == (i64)ed.out.size(), "not delivered");
            VP_CHECK(t.col == 0 && !t.pending, "after the end of the line the cursor is not at the beginning of a row on ", t.picture());
            if (t.r > next + writes && t.seen(next).empty()) ++next;
            VP_CHECK(t.r == next + writes, "after the end of the line ", vp::show(line), " the cursor is not ", writes ? "below what the callback wrote" : "below the line", " on ", t.picture());
            if (writes) VP_CHECK(t.seen(next) == vp::cat("#", calls.get() % 100), "what the callback wrote is not below the line on ", t.picture());
            for (size_t i = t.r; i < t.rows.size(); ++i) VP_CHECK(t.seen(i).empty(), "row ", i, " is not empty after the end of the line on ", t.picture());
            // the terminal is resized between the lines (what is above is not looked at as rows of some width)
            term_width.set(widths[ended]);
            t.w = w = columns(widths[ended]);
            ++ended;
            start = t.r;
            above.assign(t.rows.begin(), t.rows.begin() + (std::ptrdiff_t)start);
            begin();
        }
        feed.end();
        look();
        out.keep = false;
    }, opt);
    if (nt) c.nontrivial();
}

// ---- C21
VP_PROP(history_model, 400000, 4000000, "sequences of adding commands (empty, repeated, long) and asking for the previous or the next one; compared with a list and a position; non-trivial: at least two stored commands and both directions used")
{
    history::CommandHistoryHandler h;
    std::vector<std::string> m;
    size_t pos = 0;
    bool up = false, down = false;
    u64 hash = 0;
    unsigned n = (unsigned)c.size(60);
    if (c.below(200) == 0)
    {
        // a long session, walked through to its beginning and back
        unsigned many = (unsigned)c.range(100, c.below(4) ? 600 : 3000);
        VP_LOG("add ", many, " commands");
        for (unsigned i = 0; i < many; ++i) { m.push_back(vp::cat("c", i)); h.add_command(m.back()); }
        pos = m.size();
        unsigned back = c.below(3) ? many + 2 : (unsigned)c.below(many);
        for (unsigned i = 0; i < back; ++i)
        {
            std::string e = pos ? m[--pos] : "", g = h.get_previous_command();
            VP_CHECK(g == e, "of ", many, " commands previous number ", i + 1, " gives ", vp::show(g), " instead of ", vp::show(e));
        }
        VP_LOG(back, " times previous");
    }
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned what = (unsigned)c.weighted({3, 4, 3});
        hash = vp::hash_int(what, hash);
        if (what == 0)
        {
            std::string s = c.below(8) == 0 ? "" : c.below(20) == 0 ? std::string(300, 'l') : c.str("abc", 3);
            VP_LOG("add ", vp::show(s));
            h.add_command(s);
            if (!s.empty()) { m.push_back(s); pos = m.size(); }
            hash = vp::hash_str(s, hash);
        }
        else if (what == 1)
        {
            std::string e;
            if (pos > 0) { --pos; e = m[pos]; }
            std::string g = h.get_previous_command();
            VP_LOG("previous -> ", vp::show(g));
            VP_CHECK(g == e, "previous gives ", vp::show(g), " instead of ", vp::show(e));
            up = true;
        }
        else
        {
            std::string e;
            if (pos < m.size()) { ++pos; if (pos < m.size()) e = m[pos]; }
            std::string g = h.get_next_command();
            VP_LOG("next -> ", vp::show(g));
            VP_CHECK(g == e, "next gives ", vp::show(g), " instead of ", vp::show(e));
            down = true;
        }
    }
    if (m.size() > 1 && up && down) c.nontrivial(hash);
}

// ---- C22
namespace {
enum class Cmd { none, one, two, three, spaces };

// what the user typed, character by character
std::vector<std::string> arguments(const std::string& l)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (true)
    {
        if (i < l.size() && l[i] == '"')
        {
            size_t j = i + 1;
            while (j < l.size() && !(l[j] == '"' && (j + 1 == l.size() || l[j + 1] == ' '))) ++j;
            r.push_back(l.substr(i + 1, j - i - 1));
            if (j >= l.size()) return r;
            i = j + 1;
        }
        else
        {
            size_t j = i;
            while (j < l.size() && l[j] != ' ') ++j;
            r.push_back(l.substr(i, j - i));
            i = j;
        }
        if (i >= l.size()) return r;
        ++i;    // the space
    }
}
}

VP_PROP(command_lines, 120000, 1500000, "1-6 lines of words, quotes and spaces typed on the input, before or while the reader asks for them; each gives its command and arguments, in order; non-trivial: a known command with a quoted argument containing a space")
{
    screen_output().keep = false;
    term_width.set(-1);
    term_is_tty.set(0);
    static const std::map<Cmd, std::set<std::string>> values = {
        {Cmd::one, {"one", "1", "o"}}, {Cmd::two, {"two"}}, {Cmd::three, {"three", "t\"x"}}, {Cmd::spaces, {"a b"}}};
    static const std::map<std::string, Cmd> names = {
        {"one", Cmd::one}, {"1", Cmd::one}, {"o", Cmd::one}, {"two", Cmd::two}, {"three", Cmd::three}, {"t\"x", Cmd::three}, {"a b", Cmd::spaces}};
    unsigned n = 1 + (unsigned)c.below(6);
    std::vector<std::string> lines(n);
    bool quoted = false;
    for (auto& l : lines)
    {
        static const std::vector<std::string> first = {"one", "two", "three", "1", "o", "t\"x", "\"a b\"", "\"two\"", "One", "on", "", "x", "\"", "\"one", "a"};
        l = c.below(5) == 0 ? c.str("ab \"", 12) : c.pick(first);
        for (unsigned k = c.below(5); k; --k)
        {
            l += " ";
            switch (c.weighted({3, 3, 2, 1}))
            {
                case 0: l += c.str("abc", 3); break;
                case 1: { std::string q = c.str("ab  c", 6); l += "\"" + q + "\""; break; }
                case 2: l += c.str("a\" b", 6); break;
                default: l += "\""; break;
            }
        }
        if (c.below(40) == 0) { size_t n = (size_t)(c.below(20) ? c.range(60, 300) : c.range(300, 5000)); l += c.below(2) ? " \"" + std::string(n, 'q') + " x\"" : " " + std::string(n, 'w'); }
        if (c.below(100) == 0) for (u64 k = c.range(5, 60); k; --k) l += c.below(3) ? " a" : " \"b c\"";
        VP_LOG(vp::show(l));
    }
    bool before = c.below(2);
    bool nt = false;
    dsched::Options opt;
    opt.memory_points = c.below(4) == 0;
    dsched::run([&]()
    {
        Feed feed;
        std::istream is(&feed);
        EnumBuilder<Cmd> b(values);
        CommandReader<Cmd> r(b, is);
        auto type = [&]() { for (auto& l : lines) { feed.type(l); feed.type("\n"); } };
        std::thread t;
        if (before) type();
        else t = std::thread(type);
        for (auto& l : lines)
        {
            Command<Cmd> cmd;
            cmd.command = Cmd::none;
            cmd.arguments = {"old", "old"};
            bool known = r.read_next_command(cmd);
            auto e = arguments(l);
            VP_CHECK(cmd.arguments == e, vp::show(l), " gives the arguments ", show_lines(cmd.arguments), " instead of ", show_lines(e));
            auto it = names.find(e[0]);
            VP_CHECK(known == (it != names.end()), vp::show(l), known ? " is taken for a command" : " is not taken for a command");
            if (known) VP_CHECK(cmd.command == it->second, vp::show(l), " gives command ", (int)cmd.command);
            if (known) for (size_t i = 1; i < e.size(); ++i) if (e[i].find(' ') != std::string::npos) nt = true;
        }
        if (t.joinable()) t.join();
        VP_CHECK(feed.consumed() == feed.data.size(), "not everything was read");
    }, opt);
    if (nt) c.nontrivial();
}
