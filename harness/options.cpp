// C49 the option parser: what a command line means, the sizes needed for it, and the usage text.
#include "vp.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <memory>
#include <sstream>
#include <optionparser.h>

using vp::u64;

namespace {

template <typename ... A>
std::string words(const A&... a)
{
    std::ostringstream os;
    (void)std::initializer_list<int>{((os << a << ' '), 0)...};
    return os.str();
}
#define CHECK(cond, ...) VP_CHECK(cond, words(__VA_ARGS__))

// how a description judges a candidate argument; kept in its type
enum Mode { M_NONE, M_OPTIONAL, M_REQUIRED, M_NUMERIC, M_ALWAYS, M_ILLEGAL, M_IGNORE, MODES };

struct Call { const option::Descriptor* d; const char* name; const char* arg; bool msg; };
std::vector<Call> calls;

bool digits(const char* s) { if (!s || !*s) return false; for (; *s; ++s) if (*s < '0' || *s > '9') return false; return true; }

option::ArgStatus judge(int type, const option::Option& o, bool msg)
{
    switch (type % MODES)
    {
        case M_NONE: return option::Arg::None(o, msg);
        case M_OPTIONAL: return option::Arg::Optional(o, msg);
        case M_REQUIRED: return o.arg ? option::ARG_OK : option::ARG_ILLEGAL;
        case M_NUMERIC: return digits(o.arg) ? option::ARG_OK : option::ARG_IGNORE;
        case M_ALWAYS: return option::ARG_OK;
        case M_ILLEGAL: return option::ARG_ILLEGAL;
        default: return option::ARG_IGNORE;
    }
}
option::ArgStatus checked(const option::Option& o, bool msg)
{
    calls.push_back({o.desc, o.name, o.arg, msg});
    return judge(o.desc->type, o, msg);
}

// an argument vector with every text in memory of its own size
struct Argv
{
    std::vector<std::unique_ptr<char[]>> texts;
    std::unique_ptr<const char*[]> v;
    int n = 0;
    bool terminated = false;
    Argv() {}
    Argv(const std::vector<std::string>& a, bool term)
    {
        n = (int)a.size();
        terminated = term;
        v.reset(new const char*[a.size() + (term ? 1 : 0)]);
        for (size_t i = 0; i < a.size(); ++i)
        {
            texts.emplace_back(new char[a[i].size() + 1]);
            memcpy(texts.back().get(), a[i].c_str(), a[i].size() + 1);
            v[i] = texts.back().get();
        }
        if (term) v[a.size()] = nullptr;
    }
};

struct Flags { bool gnu; int abbr; bool minus; };
struct Found { const option::Descriptor* d; const char* name; const char* arg; int namelen; };   // namelen -1: documented as wrong
struct Meaning
{
    std::vector<Found> options;
    std::vector<Call> calls;
    std::vector<const char*> nonops, order;   // order: options with their arguments, then what is none
    bool error = false;
};

// what a command line means, as documented
Meaning meaning(const std::vector<option::Descriptor>& usage, const std::vector<const char*>& args, Flags f, bool msg)
{
    Meaning m;
    std::vector<const option::Descriptor*> ds;
    for (auto& d : usage) if (d.shortopt) ds.push_back(&d);
    const option::Descriptor* unknown = nullptr;
    for (auto d : ds) if (!unknown && !*d->shortopt && !*d->longopt) unknown = d;
    auto long_of = [&](const std::string& name) -> const option::Descriptor*
    {
        if (name.empty()) return nullptr;
        for (auto d : ds) if (*d->longopt && name == d->longopt) return d;
        const option::Descriptor* only = nullptr;
        if (f.abbr > 0 && (int)name.size() >= f.abbr)
            for (auto d : ds)
                if (!strncmp(d->longopt, name.c_str(), name.size()))
                {
                    if (only) return nullptr;
                    only = d;
                }
        return only;
    };
    std::vector<const char*> opts, non;
    size_t i = 0;
    while (i < args.size())
    {
        const char* p = args[i];
        if (p[0] != '-' || !p[1])
        {
            if (!f.gnu) break;
            non.push_back(p);
            ++i;
            continue;
        }
        opts.push_back(p);
        ++i;
        if (!strcmp(p, "--")) break;
        const char* next = i < args.size() ? args[i] : nullptr;
        bool took = false;
        // gives an option to its description; whether the group goes on
        auto give = [&](const option::Descriptor* d, const char* name, int namelen, const char* arg, bool attached) -> bool
        {
            if (!d) return true;
            m.calls.push_back({d, name, arg, msg});
            option::ArgStatus s;
            switch (d->type % MODES)
            {
                case M_NONE: s = option::ARG_NONE; break;
                case M_OPTIONAL: s = attached ? option::ARG_OK : option::ARG_IGNORE; break;
                case M_REQUIRED: s = arg ? option::ARG_OK : option::ARG_ILLEGAL; break;
                case M_NUMERIC: s = digits(arg) ? option::ARG_OK : option::ARG_IGNORE; break;
                case M_ALWAYS: s = option::ARG_OK; break;
                case M_ILLEGAL: s = option::ARG_ILLEGAL; break;
                default: s = option::ARG_IGNORE; break;
            }
            if (s == option::ARG_ILLEGAL)
            {
                m.error = true;
                return false;
            }
            if (s != option::ARG_OK) arg = nullptr;
            if (arg && !attached) took = true;
            m.options.push_back({d, name, arg, namelen});
            return s != option::ARG_OK;
        };
        const char* body = p + (p[1] == '-' ? 2 : 1);
        bool group = p[1] != '-';
        if (!group || f.minus)
        {
            const char* eq = strchr(body, '=');
            std::string name = eq ? std::string(body, eq) : std::string(body);
            const option::Descriptor* d = long_of(name);
            if (d || !group)
            {
                if (!d) d = unknown;
                int len = (int)((eq ? eq : body + strlen(body)) - p);
                give(d, p, len, eq ? eq + 1 : next, eq != nullptr);
                group = false;
            }
        }
        if (group)
            for (const char* q = body; *q; ++q)
            {
                const option::Descriptor* d = nullptr;
                for (auto e : ds) if (!d && strchr(e->shortopt, *q)) d = e;
                if (!d) d = unknown;
                if (!give(d, q, *q == '-' ? -1 : 1, q[1] ? q + 1 : next, q[1] != 0)) break;
            }
        if (m.error) break;
        if (took)
        {
            opts.push_back(next);
            ++i;
        }
    }
    m.nonops = non;
    m.nonops.insert(m.nonops.end(), args.begin() + i, args.end());
    m.order = opts;
    m.order.insert(m.order.end(), m.nonops.begin(), m.nonops.end());
    return m;
}

const char* SHORTS[] = {"a", "b", "c", "ab", "x", "?h", "f", "=", "1"};
const char* LONGS[] = {"foo", "foobar", "foob", "file", "fi", "a", "ab", "abc", "bar", "x", "f", "h\xc3\xa9", "1"};

std::vector<option::Descriptor> make_usage(vp::Ctx& c)
{
    std::vector<option::Descriptor> u;
    size_t n = c.below(7);
    for (size_t i = 0; i < n; ++i)
    {
        const char *s = "", *l = "";
        if (c.below(5))
        {
            if (c.below(4)) s = SHORTS[c.below(sizeof SHORTS / sizeof *SHORTS)];
            if (c.below(3)) l = LONGS[c.below(sizeof LONGS / sizeof *LONGS)];
        }
        int mode = (int)c.weighted({4, 4, 4, 4, 3, 1, 2});
        if (!*s && !*l && mode == M_OPTIONAL) mode = M_IGNORE;   // with -x-y the name of an unknown option is documented as wrong
        u.push_back({(unsigned)c.below(5), (int)c.below(3) * MODES + mode, s, l, checked, "help"});
    }
    u.push_back({0, 0, nullptr, nullptr, nullptr, nullptr});
    return u;
}

std::string show(const std::vector<option::Descriptor>& u)
{
    std::ostringstream o;
    for (auto& d : u) if (d.shortopt) o << "{" << d.index << "," << d.type << "," << vp::show(d.shortopt) << "," << vp::show(d.longopt) << "} ";
    return o.str();
}

std::vector<std::string> make_args(vp::Ctx& c, const std::vector<option::Descriptor>& u)
{
    std::vector<std::string> a;
    size_t n = c.below(9);
    for (size_t i = 0; i < n; ++i)
    {
        std::string s;
        auto long_name = [&]
        {
            std::string l;
            if (u.size() > 1 && c.below(3)) l = u[c.below(u.size() - 1)].longopt;
            else l = LONGS[c.below(sizeof LONGS / sizeof *LONGS)];
            if (c.below(3) == 0) l = l.substr(0, c.below(l.size() + 1));
            if (c.below(10) == 0) l += "z";
            if (c.below(12) == 0 && !l.empty()) l[c.below(l.size())] ^= 32;
            if (c.below(3) == 0) l += "=" + std::string(c.below(2) ? "7" : c.below(2) ? "" : "v=w");
            return l;
        };
        switch (c.weighted({3, 5, 5, 2, 1, 1, 1}))
        {
            case 0: s = c.below(2) ? "42" : c.str("ax-1", 4); break;
            case 1: s = "--" + long_name(); break;
            case 2: s = "-" + c.str("abcxf1?h=z", 5); break;
            case 3: s = "-" + long_name(); break;
            case 4: s = "--"; break;
            case 5: s = c.below(2) ? "-" : ""; break;
            default: s = "-" + c.str("-abx=", 4); break;
        }
        a.push_back(s);
    }
    return a;
}

std::string show(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += vp::show(x) + " "; return s; }

void same_calls(vp::Ctx& c, const std::vector<Call>& want, const char* what)
{
    CHECK(calls.size() == want.size(), what, ": arguments were judged", calls.size(), "times, not", want.size());
    for (size_t i = 0; i < want.size(); ++i)
    {
        CHECK(calls[i].d == want[i].d, what, ": judgement", i, "by another description");
        CHECK(calls[i].name == want[i].name, what, ": judgement", i, "of", vp::show(calls[i].name), "instead of", vp::show(want[i].name));
        CHECK(calls[i].arg == want[i].arg, what, ": judgement", i, "with the argument", calls[i].arg ? vp::show(calls[i].arg) : "none", "instead of", want[i].arg ? vp::show(want[i].arg) : "none");
        CHECK(calls[i].msg == want[i].msg, what, ": judgement", i, "with messages", calls[i].msg);
    }
    (void)c;
}

} // namespace

VP_PROP(command_lines, 800000, 16000000, "up to six descriptions (short characters, long names that are prefixes of each other, dummies, seven ways to judge an argument), one to three argument vectors of up to eight elements parsed one after another into the same buffers, POSIX and GNU order, abbreviations, single minus, every way of giving the count, limited buffers; compared with a reference of the documented meaning: options in order, arguments, judgements made, linked lists, sizes, non-options, order of the vector; non-trivial: at least two options were found, one of them with an argument or a non-option among them")
{
    auto usage = make_usage(c);
    std::ostringstream log;
    log << "usage " << show(usage);
    unsigned omax = 1;
    for (auto& d : usage) if (d.shortopt) omax = std::max(omax, d.index + 2);

    size_t rounds = 1 + c.weighted({4, 2, 1});
    struct Round { std::vector<std::string> a; Flags f; int argc; bool term; std::unique_ptr<Argv> v; };
    std::vector<Round> rs;
    for (size_t r = 0; r < rounds; ++r)
    {
        Round x;
        x.a = make_args(c, usage);
        x.f = {c.below(2) == 1, c.below(2) ? 0 : (int)c.below(4), c.below(3) == 0};
        int way = (int)c.weighted({3, 3, 2, 0, 1});   // a count beyond the end is a mistake of the caller
        x.term = way != 0;
        x.argc = way == 2 ? -1 : way == 4 ? (int)c.below(x.a.size() + 1) : (int)x.a.size();
        x.v.reset(new Argv(x.a, x.term));
        if (x.a.empty() && c.below(2))
        {
            x.v->v.reset();   // no vector at all
            x.argc = c.below(2) ? 0 : (int)c.below(4) - 1;
        }
        log << "; " << (x.f.gnu ? "gnu" : "posix") << " abbr " << x.f.abbr << (x.f.minus ? " single-minus" : "") << " argc " << x.argc << ": " << show(x.a);
        rs.push_back(std::move(x));
    }
    VP_LOG(log.str());

    // the sizes, over copies of the vectors
    bool by_sizes = c.below(2);
    option::Stats st;
    unsigned total = 0;
    bool any_error = false;
    for (auto& x : rs)
    {
        std::vector<const char*> args;
        if (x.v->v) for (int i = 0; i < (x.argc < 0 ? x.v->n : std::min(x.argc, x.v->n)); ++i) args.push_back(x.v->v[i]);
        Meaning m = meaning(usage, args, x.f, false);
        std::unique_ptr<const char*[]> copy;
        if (x.v->v)
        {
            copy.reset(new const char*[x.v->n + x.term]);
            std::copy(x.v->v.get(), x.v->v.get() + x.v->n + x.term, copy.get());
        }
        calls.clear();
        if (rs.size() == 1 && c.below(2))
        {
            if (x.f.gnu) st = c.below(2) ? option::Stats(true, usage.data(), x.argc, copy.get(), x.f.abbr, x.f.minus) : option::Stats(true, usage.data(), x.argc, (char**)copy.get(), x.f.abbr, x.f.minus);
            else st = c.below(2) ? option::Stats(usage.data(), x.argc, copy.get(), x.f.abbr, x.f.minus) : option::Stats(usage.data(), x.argc, (char**)copy.get(), x.f.abbr, x.f.minus);
        }
        else if (x.f.gnu)
        {
            if (c.below(2)) st.add(true, usage.data(), x.argc, copy.get(), x.f.abbr, x.f.minus);
            else st.add(true, usage.data(), x.argc, (char**)copy.get(), x.f.abbr, x.f.minus);
        }
        else
        {
            if (c.below(2)) st.add(usage.data(), x.argc, copy.get(), x.f.abbr, x.f.minus);
            else st.add(usage.data(), x.argc, (char**)copy.get(), x.f.abbr, x.f.minus);
        }
        same_calls(c, m.calls, "sizes");
        total += (unsigned)m.options.size();
        any_error = any_error || m.error;
        CHECK(st.buffer_max == total + 1, "room for", st.buffer_max, "options instead of", total + 1);
        CHECK(st.options_max == omax, "room for", st.options_max, "lists instead of", omax);
        if (x.v->v && !m.error)
        {
            for (size_t i = 0; i < m.order.size(); ++i)
                CHECK(copy[i] == m.order[i], "sizes: element", i, "of the reordered vector is", vp::show(copy[i]), "instead of", vp::show(m.order[i]));
            if (c.below(3) == 0)   // once reordered, the order no longer matters
            {
                std::copy(copy.get(), copy.get() + x.v->n, x.v->v.get());
                if (x.f.gnu) x.f.gnu = c.below(2);
            }
        }
    }

    // the parse
    int bufmax = -1;
    size_t slots = total + 1;
    if (!by_sizes)
    {
        slots = c.below(total + 3);
        bufmax = (int)slots;
    }
    std::unique_ptr<option::Option[]> options(new option::Option[omax - (by_sizes ? 0 : (omax > 1 ? 1 : 0))]), buffer(new option::Option[slots]);
    option::Parser parser;
    std::vector<Found> stored;
    std::vector<const char*> nonops;
    bool known_nonops = true, with_arg = false, with_non = false;
    size_t found = 0;
    for (auto& x : rs)
    {
        std::vector<const char*> args;
        if (x.v->v) for (int i = 0; i < (x.argc < 0 ? x.v->n : std::min(x.argc, x.v->n)); ++i) args.push_back(x.v->v[i]);
        std::vector<const char*> rest;
        if (x.v->v) for (int i = (int)args.size(); i < x.v->n; ++i) rest.push_back(x.v->v[i]);
        Meaning m = meaning(usage, args, x.f, true);
        calls.clear();
        const char** v = x.v->v.get();
        bool plain = c.below(2);
        if (&x == &rs[0] && c.below(2))
        {
            if (x.f.gnu || c.below(2))
                parser = plain ? option::Parser(x.f.gnu, usage.data(), x.argc, v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax)
                               : option::Parser(x.f.gnu, usage.data(), x.argc, (char**)v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax);
            else
                parser = plain ? option::Parser(usage.data(), x.argc, v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax)
                               : option::Parser(usage.data(), x.argc, (char**)v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax);
        }
        else if (x.f.gnu || c.below(2))
        {
            if (plain) parser.parse(x.f.gnu, usage.data(), x.argc, v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax);
            else parser.parse(x.f.gnu, usage.data(), x.argc, (char**)v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax);
        }
        else
        {
            if (plain) parser.parse(usage.data(), x.argc, v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax);
            else parser.parse(usage.data(), x.argc, (char**)v, options.get(), buffer.get(), x.f.abbr, x.f.minus, bufmax);
        }
        same_calls(c, m.calls, "parse");
        CHECK(parser.error() == m.error, "the parse", parser.error() ? "failed" : "did not fail");
        for (auto& o : m.options)
        {
            if (stored.size() < slots) stored.push_back(o);
            ++found;
            if (o.arg) with_arg = true;
        }
        CHECK(parser.optionsCount() == (int)stored.size(), parser.optionsCount(), "options instead of", stored.size());
        for (size_t i = 0; i < stored.size(); ++i)
        {
            option::Option& o = buffer[i];
            Found& w = stored[i];
            CHECK(o, "option", i, "is unused");
            CHECK(o.desc == w.d && o.name == w.name && o.arg == w.arg, "option", i, "is", vp::show(o.name ? o.name : "(null)"), o.arg ? vp::show(o.arg) : "none", "instead of", vp::show(w.name), w.arg ? vp::show(w.arg) : "none");
            if (w.namelen >= 0) CHECK(o.namelen == w.namelen, "the name of option", i, "has", o.namelen, "characters instead of", w.namelen);
            CHECK(o.index() == (int)w.d->index && o.type() == w.d->type, "index or type of option", i);
        }
        for (size_t i = stored.size(); i < slots; ++i) CHECK(!buffer[i], "slot", i, "is used");
        for (unsigned k = 0; k + 1 < omax; ++k)
        {
            std::vector<Found> want;
            for (auto& s : stored) if (s.d->index == k) want.push_back(s);
            option::Option& head = options[k];
            CHECK(head.count() == (int)want.size(), "list", k, "has", head.count(), "options instead of", want.size());
            if (want.empty())
            {
                CHECK(!head && head.type() == 0 && head.index() == -1 && head.isFirst() && head.isLast() && head.first() == &head && head.last() == &head && !head.next() && !head.prev(), "list", k, "is not that of an unused option");
                continue;
            }
            CHECK(head.isFirst() && head.first() == &head && !head.prev(), "the head of list", k, "is not the first");
            option::Option* before = nullptr;
            size_t i = 0;
            for (option::Option* o = head; o; o = o->next(), ++i)
            {
                CHECK(i < want.size(), "list", k, "goes on after its end");
                CHECK(o->desc == want[i].d && o->name == want[i].name && o->arg == want[i].arg, "element", i, "of list", k, "is", vp::show(o->name));
                CHECK(o->prev() == before && o->first() == &head && o->count() == (int)want.size(), "element", i, "of list", k, "is wrongly linked");
                CHECK(before == nullptr || o->prevwrap() == before, "element", i, "of list", k, "is wrongly linked back");
                CHECK(o->isFirst() == (i == 0) && o->isLast() == (i + 1 == want.size()), "element", i, "of list", k, "wrong end");
                if (i + 1 == want.size()) CHECK(o->nextwrap() == &head && head.prevwrap() == o && head.last() == o && o->last() == o, "list", k, "does not wrap around");
                before = o;
            }
            CHECK(i == want.size(), "list", k, "ends after", i, "elements instead of", want.size());
        }
        if (v)
        {
            std::vector<const char*> now(v, v + x.v->n), all(now);
            if (!m.error)
            {
                for (size_t i = 0; i < m.order.size(); ++i)
                    CHECK(now[i] == m.order[i], "element", i, "of the reordered vector is", vp::show(now[i]), "instead of", vp::show(m.order[i]));
            }
            else
            {
                std::vector<const char*> a(now.begin(), now.begin() + args.size()), b(args);
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                CHECK(a == b, "a failed parse lost an argument");
            }
            for (size_t i = 0; i < rest.size(); ++i) CHECK(now[args.size() + i] == rest[i], "an argument beyond the count was moved");
            if (x.term) CHECK(v[x.v->n] == nullptr, "the end of the vector was overwritten");
        }
        if (m.error) known_nonops = false;   // what is left then is not said
        else if (!m.nonops.empty())
        {
            nonops = m.nonops;
            known_nonops = true;
            with_non = true;
            CHECK(parser.nonOptions() >= v && parser.nonOptions() < v + x.v->n, "the non-options are not in the vector");
        }
        if (known_nonops)
        {
            CHECK(parser.nonOptionsCount() == (int)nonops.size(), parser.nonOptionsCount(), "non-options instead of", nonops.size());
            for (size_t i = 0; i < nonops.size(); ++i)
                CHECK(parser.nonOption((int)i) == nonops[i], "non-option", i, "is", vp::show(parser.nonOption((int)i)), "instead of", vp::show(nonops[i]));
        }
    }
    if (found >= 2 && (with_arg || with_non)) c.nontrivial();
}

VP_PROP(linked_options, 100000, 2000000, "histories over eight options: append of one that is in no list, at any element of a list, and copies; compared with lists in a model; non-trivial: a list of three")
{
    static const option::Descriptor D = {3, 7, "a", "aa", option::Arg::None, ""};
    const int N = 8;
    std::unique_ptr<option::Option[]> o(new option::Option[N]);
    std::vector<std::vector<int>> lists;
    for (int i = 0; i < N; ++i)
    {
        lists.push_back({i});
        o[i] = option::Option(&D, i % 2 ? "-a" : "b=", "x");
        CHECK(o[i].namelen == (i % 2 ? 2 : 1), "length of a name");
    }
    auto list_of = [&](int e) { for (size_t l = 0; l < lists.size(); ++l) for (int x : lists[l]) if (x == e) return l; return lists.size(); };
    size_t n = 1 + c.below(20);
    for (size_t s = 0; s < n; ++s)
    {
        int a = (int)c.below(N), b = (int)c.below(N);
        size_t la = list_of(a), lb = list_of(b);
        if (c.below(5) && la != lb && lists[lb].size() == 1)
        {
            o[a].append(&o[b]);
            lists[la].push_back(b);
            lists.erase(lists.begin() + lb);
            VP_LOG("append ", b, " to ", a);
        }
        else
        {
            option::Option copy(o[a]);
            CHECK(copy.isFirst() && copy.isLast() && copy.count() == 1 && copy.desc == o[a].desc && copy.name == o[a].name && copy.arg == o[a].arg && copy.namelen == o[a].namelen, "a copy is not an option of its own");
        }
        for (auto& l : lists)
        {
            if (l.size() >= 3) c.nontrivial();
            for (size_t i = 0; i < l.size(); ++i)
            {
                option::Option& e = o[l[i]];
                const option::Option& k = e;
                CHECK(e.count() == (int)l.size() && e.first() == &o[l[0]] && e.last() == &o[l.back()] && k.first() == &o[l[0]] && k.last() == &o[l.back()], "ends of a list");
                CHECK(e.next() == (i + 1 < l.size() ? &o[l[i + 1]] : nullptr) && e.prev() == (i ? &o[l[i - 1]] : nullptr) && k.next() == e.next(), "neighbours");
                CHECK(e.nextwrap() == &o[l[(i + 1) % l.size()]] && e.prevwrap() == &o[l[(i + l.size() - 1) % l.size()]] && k.prevwrap() == e.prevwrap(), "neighbours around the end");
                CHECK(e.isFirst() == (i == 0) && e.isLast() == (i + 1 == l.size()), "first or last");
            }
        }
    }
}

namespace {

// the characters that take two columns, as documented (all but U+303F)
const unsigned WIDE[][2] = {{0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0xA4C6}, {0xA960, 0xA97C}, {0xAC00, 0xD7FB}, {0xF900, 0xFAFF}, {0xFE10, 0xFE6B}, {0xFF01, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1B000, 0x10FFFF}};
int columns_of(unsigned ch)
{
    if (ch != 0x303F) for (auto& r : WIDE) if (r[0] <= ch && ch <= r[1]) return 2;
    return 1;
}
std::string utf8(unsigned ch)
{
    std::string s;
    if (ch < 0x800) { s += (char)(0xC0 | ch >> 6); }
    else
    {
        if (ch < 0x10000) s += (char)(0xE0 | ch >> 12);
        else { s += (char)(0xF0 | ch >> 18); s += (char)(0x80 | (ch >> 12 & 63)); }
        s += (char)(0x80 | (ch >> 6 & 63));
    }
    return s + (char)(0x80 | (ch & 63));
}
std::string gen_glyph(vp::Ctx& c)
{
    static const unsigned some[] = {0xE9, 0x20AC, 0x6F22, 0x1F600, 0x303F, 0x1100, 0x10FF, 0xFF01, 0xAC00, 0x2329, 0x232B, 0x304, 0x7FF, 0x800, 0xFFFF, 0x10000};
    unsigned ch = some[c.below(sizeof some / sizeof *some)];
    if (c.below(2))
    {
        // in a range, at its ends, or in the gap next to it
        auto& r = WIDE[c.below(sizeof WIDE / sizeof *WIDE)];
        switch (c.below(4))
        {
            case 0: ch = (unsigned)c.range(r[0], r[1]); break;
            case 1: ch = r[0] - (unsigned)c.below(2); break;
            case 2: ch = r[1] + (unsigned)c.below(2); break;
            default: ch = (unsigned)(c.below(2) ? r[1] + c.below(r[1] / 16) : r[0] - c.below(r[0] / 16));
        }
    }
    if (ch < 0x80 || ch > 0x10FFFF || (ch >= 0xD800 && ch < 0xE000)) ch = 0xE9;
    return utf8(ch);
}

// characters of a text with their widths
std::vector<std::pair<std::string, int>> chars_of(const std::string& s)
{
    std::vector<std::pair<std::string, int>> v;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char b = (unsigned char)s[i];
        size_t n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        unsigned ch = n == 1 ? b : b & (0xFFu >> (n + 1));
        for (size_t k = 1; k < n; ++k) ch = ch << 6 | ((unsigned char)s[i + k] & 63);
        v.push_back({s.substr(i, n), columns_of(ch)});
        i += n;
    }
    return v;
}
int width_of(const std::string& s) { int w = 0; for (auto& x : chars_of(s)) w += x.second; return w; }

// lines of at most the width, split at the last space that allows it
std::vector<std::string> wrapped(const std::string& text, int width)
{
    std::vector<std::string> lines;
    auto cs = chars_of(text);
    size_t at = 0;
    while (at < cs.size())
    {
        size_t end = at;
        int w = 0;
        while (end < cs.size() && w + cs[end].second <= width) w += cs[end++].second;
        size_t stop = end, go = end;
        if (end < cs.size())
        {
            for (size_t k = end + 1; k-- > at;)
                if (cs[k].first == " ")
                {
                    stop = k;
                    go = k + 1;
                    break;
                }
        }
        std::string l;
        for (size_t k = at; k < stop; ++k) l += cs[k].first;
        lines.push_back(l);
        at = go;
    }
    return lines;
}

std::vector<std::string> split(const std::string& s, char by)
{
    std::vector<std::string> v(1);
    for (char ch : s)
        if (ch == by) v.emplace_back();
        else v.back() += ch;
    return v;
}

struct Row { std::vector<std::vector<std::string>> cells; bool plain; size_t lines = 1; };   // cells of parts

// what the wrapper of a column prints for the parts it is given line by line, then the rest
struct Queue
{
    int width;
    std::vector<std::string> q;
    size_t most = 0;
    std::string step(const std::string& part)
    {
        for (auto& l : wrapped(part, width)) q.push_back(l);
        most = std::max(most, q.size());
        std::string r;
        if (!q.empty())
        {
            r = q.front();
            q.erase(q.begin());
        }
        return r;
    }
};

std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

struct Layout { std::vector<std::string> lines; bool overlong = false, own = false, wraps = false; bool deep = false; };

Layout layout(const std::vector<std::vector<std::string>>& tables, int width, int min_pc, int own_pc)
{
    Layout out;
    if (width < 1) width = 80;
    if (width > 10000) width = 10000;
    int min_w = (width * min_pc + 50) / 100, own_w = (width * own_pc + 50) / 100;
    if (own_w == 0) own_w = 1;
    for (auto& table : tables)
    {
        std::vector<Row> rows;
        size_t last = 0;
        for (auto& help : table)
            for (auto& line : split(help, '\n'))
            {
                Row r;
                r.plain = line.find('\t') == std::string::npos && line.find('\v') == std::string::npos;
                for (auto& cell : split(line, '\t'))
                {
                    r.cells.push_back(split(cell, '\v'));
                    r.lines = std::max(r.lines, r.cells.back().size());
                }
                if (r.cells.size() > 8) r.cells.resize(8);   // more columns are not shown
                last = std::max(last, r.cells.size() - 1);
                rows.push_back(r);
            }
        int limit = 10000, left;
        std::vector<int> w;
        do
        {
            w.assign(8, 0);
            for (auto& r : rows)
                for (size_t k = 0; k < r.cells.size(); ++k)
                    for (auto& p : r.cells[k])
                        if (!r.plain && width_of(p) < limit) w[k] = std::max(w[k], width_of(p));
            left = 0;
            int widest = 0;
            for (size_t k = 0; k < last; ++k)
            {
                left += w[k];
                widest = std::max(widest, w[k]);
            }
            if (left > width) out.overlong = true;
            limit = widest;
        } while (left > width);
        int right = width - left;
        bool own = last > 0 && right < min_w && (w[last] == 0 || right < w[last]);
        if (own) right = own_w;
        out.own = out.own || own;
        int at = width - right;
        for (auto& r : rows)
        {
            Queue last_q{std::max(2, right)}, plain_q{std::max(2, width)};
            auto part = [&](size_t k, size_t l) { return l < r.cells[k].size() ? r.cells[k][l] : std::string(); };
            if (last == 0 || r.plain)
            {
                for (size_t l = 0; l < r.lines; ++l) out.lines.push_back(plain_q.step(part(0, l)));
                if (plain_q.q.size()) out.wraps = true;
                if (plain_q.most > 15) out.deep = true;
                for (auto& q : plain_q.q) out.lines.push_back(q);
                continue;
            }
            bool has_last = r.cells.size() == last + 1;
            for (size_t l = 0; l < r.lines; ++l)
            {
                std::string line;
                int x = 0, stop = 0;
                for (size_t k = 0; k < r.cells.size(); ++k)
                {
                    if (x > stop)
                    {
                        out.lines.push_back(line);
                        line.clear();
                        x = 0;
                    }
                    line += std::string((size_t)(stop - x), ' ');
                    x = stop;
                    if (k < last)
                    {
                        line += part(k, l);
                        x += width_of(part(k, l));
                        stop += w[k];
                    }
                    else if (!own) line += last_q.step(part(k, l));
                }
                out.lines.push_back(line);
            }
            if (own && has_last)
                for (size_t l = 0; l < r.lines; ++l) out.lines.push_back(std::string((size_t)at, ' ') + last_q.step(part(last, l)));
            if (last_q.q.size()) out.wraps = true;
            if (last_q.most > 15) out.deep = true;
            for (auto& q : last_q.q) out.lines.push_back(std::string((size_t)at, ' ') + q);
        }
    }
    return out;
}

std::string* sink;
void by_function(const char* s, int n) { sink->append(s, (size_t)n); }
long by_call(int fd, const char* s, int n) { CHECK(fd == 5, "another file"); sink->append(s, (size_t)n); return n; }
struct Temp { void write(const char* s, size_t n) const { sink->append(s, n); } };
struct Functor { void operator()(const char* s, size_t n) { sink->append(s, n); } };
size_t by_stream(const char* s, size_t size, size_t n, std::string* to) { to->append(s, size * n); return n; }

} // namespace

VP_PROP(usage_text, 120000, 2400000, "tables of rows with cells and lines in them (tabs, vertical tabs, line feeds, breaks between tables, plain rows among them, up to ten columns), words of letters, accented and wide characters, widths from 1 to 120 and nonsense ones, the two percentages; printed through every kind of output and compared with a reference layout (without spaces at the ends of lines; blank lines aside where a cell does not fit); non-trivial: something is wrapped, set on a line of its own, or aligned over two rows")
{
    std::vector<option::Descriptor> usage;
    std::vector<std::unique_ptr<std::string>> texts;
    std::vector<std::vector<std::string>> tables;
    bool open = false, multi = false;
    size_t n = c.below(7);
    bool unicode = c.below(3) == 0;
    size_t maxword = 1 + c.below(c.below(4) ? 8 : 30);
    auto text = [&]
    {
        std::string s;
        size_t words = c.below(c.below(6) ? 4 : 25);
        for (size_t k = 0; k < words; ++k)
        {
            if (k) s += c.below(8) ? " " : "  ";
            size_t len = c.below(maxword + 1);
            for (size_t j = 0; j < len; ++j)
                if (unicode && c.below(3) == 0) s += gen_glyph(c);
                else s += (char)('a' + c.below(26));
        }
        return s;
    };
    size_t maxcells = 1 + c.below(c.below(5) ? 4 : 10);
    for (size_t i = 0; i < n; ++i)
    {
        if (c.below(6) == 0)
        {
            usage.push_back({0, 0, "", "", option::Arg::None, nullptr});
            open = false;
            continue;
        }
        std::string help;
        size_t rows = 1 + (c.below(3) ? 0 : c.below(3));
        for (size_t r = 0; r < rows; ++r)
        {
            if (r) help += '\n';
            size_t cells = c.below(4) ? 1 + c.below(maxcells) : 1;
            if (cells > 1) multi = true;
            for (size_t k = 0; k < cells; ++k)
            {
                if (k) help += '\t';
                size_t parts = c.below(4) ? 1 : 1 + c.below(3);
                for (size_t p = 0; p < parts; ++p)
                {
                    if (p) help += '\v';
                    help += text();
                }
            }
        }
        texts.emplace_back(new std::string(help));
        usage.push_back({(unsigned)i, 0, c.below(2) ? "a" : "", c.below(2) ? "long" : "", option::Arg::None, texts.back()->c_str()});
        if (!open) tables.emplace_back();
        open = true;
        tables.back().push_back(help);
    }
    usage.push_back({0, 0, nullptr, nullptr, nullptr, nullptr});
    int width = (int)c.below(120) + 1;
    if (c.below(20) == 0) width = c.below(2) ? -(int)c.below(3) : 10000 + (int)c.below(3);
    int min_pc = c.below(2) ? 50 : (int)c.below(101), own_pc = c.below(2) ? 75 : (int)c.below(101);
    for (auto& t : tables) { VP_LOG("table:"); for (auto& h : t) VP_LOG("  ", vp::show(h)); }
    VP_LOG("width ", width, " minimum ", min_pc, "% own line ", own_pc, "%");

    std::string got, other;
    sink = &got;
    option::printUsage(by_function, usage.data(), width, min_pc, own_pc);
    sink = &other;
    switch (c.below(5))
    {
        case 0: { std::ostringstream o; option::printUsage(o, usage.data(), width, min_pc, own_pc); other = o.str(); break; }
        case 1: option::printUsage(Temp(), usage.data(), width, min_pc, own_pc); break;
        case 2: { Functor f; option::printUsage(&f, usage.data(), width, min_pc, own_pc); break; }
        case 3: option::printUsage(by_call, 5, usage.data(), width, min_pc, own_pc); break;
        default: option::printUsage(by_stream, &other, usage.data(), width, min_pc, own_pc); break;
    }
    CHECK(got == other, "another output gets another text:", vp::show(other), "instead of", vp::show(got));

    Layout l = layout(tables, width, min_pc, own_pc);
    CHECK(got.empty() || got.back() == '\n', "the last line is not ended");
    std::vector<std::string> lines = split(got, '\n'), want;
    lines.pop_back();
    for (auto& x : lines) x = rstrip(x);
    for (auto& x : l.lines) want.push_back(rstrip(x));
    if (l.overlong || l.deep)
    {
        lines.erase(std::remove(lines.begin(), lines.end(), ""), lines.end());
        want.erase(std::remove(want.begin(), want.end(), ""), want.end());
    }
    if (l.deep)   // more lines wait than are kept: what stands beside them may differ
    {
        auto flat = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) for (char ch : x) if (ch != ' ') s += ch; std::sort(s.begin(), s.end()); return s; };
        CHECK(flat(lines) == flat(want), "text was lost:", vp::show(got));
    }
    else
    {
        for (size_t i = 0; i < std::min(lines.size(), want.size()); ++i)
            CHECK(lines[i] == want[i], "line", i, "is", vp::show(lines[i]), "instead of", vp::show(want[i]), "in", vp::show(got));
        CHECK(lines.size() == want.size(), lines.size(), "lines instead of", want.size(), "in", vp::show(got));
    }
    if (l.wraps || l.own || (multi && n >= 2)) c.nontrivial();
}
