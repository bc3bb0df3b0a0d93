// C52 the log macros of Log.hpp. Under asan they are compiled as in a build that logs information, in the plain
// flavour as in one that does not, and under tsan as in a build for debugging the library itself, that does not either.
#if __has_feature(address_sanitizer)
#define FASTDDS_ENFORCE_LOG_INFO 1
#elif __has_feature(thread_sanitizer)
#define __INTERNALDEBUG 1
#ifndef NDEBUG
#define NDEBUG 1
#endif
#endif
#include "vp.hpp"
#include <iostream>
#include <memory>
#include <sstream>
#include <cpp_utils/Log.hpp>

using namespace eprosima;
using vp::i64;

namespace {

struct Seen { std::string text, category; utils::Log::Kind kind; int line; std::string function; };
struct Keeper : utils::LogConsumer
{
    std::vector<Seen>* to;
    explicit Keeper(std::vector<Seen>* t) : to(t) {}
    void Consume(const utils::Log::Entry& e) override { to->push_back({e.message, e.context.category, e.kind, e.context.line, e.context.function}); }
};

// an operand that counts how often it is evaluated
struct Value
{
    std::string s;
    int* count;
    const std::string& operator ()() const { ++*count; return s; }
};

enum { DEBUG, DEVERROR, USER, ERROR, NMACROS };
const char* const NAMES[] = {"logDebug", "logDevError", "logUser", "logError"};

// several sites of each macro: alone, streamed, in a branch, in a loop
void site(int macro, int form, const Value& v, int n)
{
    switch (form)
    {
        case 0:
            switch (macro)
            {
                case DEBUG: logDebug(VERIF_CAT_A, v()); break;
                case DEVERROR: logDevError(VERIF_CAT_A, v()); break;
                case USER: logUser(VERIF_CAT_A, v()); break;
                default: logError(VERIF_CAT_A, v()); break;
            }
            break;
        case 1:
            switch (macro)
            {
                case DEBUG: logDebug(VERIF_CAT_B, "n " << n << " and " << v() << "."); break;
                case DEVERROR: logDevError(VERIF_CAT_B, "n " << n << " and " << v() << "."); break;
                case USER: logUser(VERIF_CAT_B, "n " << n << " and " << v() << "."); break;
                default: logError(VERIF_CAT_B, "n " << n << " and " << v() << "."); break;
            }
            break;
        case 2:
            if (macro == DEBUG) logDebug(VERIF_CAT_C, v() << std::hex << 255 + n << std::dec);
            if (macro == DEVERROR) logDevError(VERIF_CAT_C, v() << std::hex << 255 + n << std::dec);
            if (macro == USER) logUser(VERIF_CAT_C, v() << std::hex << 255 + n << std::dec);
            if (macro == ERROR) logError(VERIF_CAT_C, v() << std::hex << 255 + n << std::dec);
            break;
        default:
            for (int i = 0; i < n; ++i)
            {
                if (macro == DEBUG) { logDebug(VERIF_CAT_D, i << v()); }
                else if (macro == DEVERROR) { logDevError(VERIF_CAT_D, i << v()); }
                else if (macro == USER) { logUser(VERIF_CAT_D, i << v()); }
                else { logError(VERIF_CAT_D, i << v()); }
            }
    }
}

std::vector<std::string> texts(int form, const std::string& s, int n)
{
    switch (form)
    {
        case 0: return {s};
        case 1: return {vp::cat("n ", n, " and ", s, ".")};
        case 2: { std::ostringstream o; o << s << std::hex << 255 + n; return {o.str()}; }
        default:
        {
            std::vector<std::string> v;
            for (int i = 0; i < n; ++i) v.push_back(vp::cat(i, s));
            return v;
        }
    }
}

} // namespace

VP_PROP(log_macros, 60000, 1000000, "sequences of log statements of every macro, at sites of several shapes, with changes of verbosity between them; every consumer gets exactly the entries the verbosity admits, and messages not admitted are not evaluated; non-trivial: debug statements were made at a verbosity that admits information and at one that does not")
{
#ifdef FASTDDS_ENFORCE_LOG_INFO
    const bool info = true;
#else
    const bool info = false;
#endif
    static const char* const cats[] = {"VERIF_CAT_A", "VERIF_CAT_B", "VERIF_CAT_C", "VERIF_CAT_D"};
    std::vector<Seen> got, other;
    utils::Log::Reset();
    utils::Log::RegisterConsumer(std::unique_ptr<utils::LogConsumer>(new Keeper(&got)));
    bool two = c.below(2);
    if (two) utils::Log::RegisterConsumer(std::unique_ptr<utils::LogConsumer>(new Keeper(&other)));
    std::ostringstream out;
    struct Restore { std::streambuf* b; ~Restore() { std::cout.rdbuf(b); utils::Log::Reset(); utils::Log::KillThread(); } } restore{std::cout.rdbuf(out.rdbuf())};
    int verbosity = 0;
    bool yes = false, no = false;
    std::string printed;
    size_t at = 0;
    for (unsigned k = 1 + (unsigned)c.size(12); k; --k)
    {
        if (c.below(3) == 0)
        {
            verbosity = (int)c.below(3);
            utils::Log::SetVerbosity((utils::Log::Kind)verbosity);
            VP_LOG("verbosity ", verbosity);
        }
        int macro = (int)c.below(NMACROS), form = (int)c.below(4), n = (int)c.below(5), count = 0;
        std::string s = c.str("ab %{}\"\n", 6);
        VP_LOG(NAMES[macro], " form ", form, " n ", n, " ", vp::show(s));
        Value v{s, &count};
        site(macro, form, v, n);
        utils::Log::Flush();
        auto want = texts(form, s, n);
        bool queued = macro == ERROR || (macro != USER && info && verbosity >= 2);
        if (macro == DEBUG) (verbosity >= 2 ? yes : no) = true;
        VP_CHECK(count == (queued || macro == USER ? (int)want.size() : 0), "the message of ", NAMES[macro], " was evaluated ", count, " times");
        if (macro == USER) for (auto& t : want) printed += t + "\n";
        if (queued)
            for (auto& t : want)
            {
                VP_CHECK(at < got.size(), NAMES[macro], " emitted no entry for ", vp::show(t));
                auto& g = got[at++];
                bool ends = g.text.size() >= t.size() && !g.text.compare(g.text.size() - t.size(), t.size(), t);
                VP_CHECK(macro == ERROR ? g.text == t : ends && g.text.size() < t.size() + 20, NAMES[macro], " emitted ", vp::show(g.text), " instead of ", vp::show(t));
                VP_CHECK(g.category == cats[form], NAMES[macro], " emitted category ", g.category);
                VP_CHECK(g.function == "site", NAMES[macro], " emitted function ", g.function);
                VP_CHECK(macro == DEBUG ? g.kind == utils::Log::Kind::Info : macro == ERROR ? g.kind == utils::Log::Kind::Error : g.kind != utils::Log::Kind::Error, NAMES[macro], " emitted kind ", (int)g.kind);
            }
        VP_CHECK(got.size() == at, NAMES[macro], " emitted ", got.size() - at, " entries too many, the last one ", vp::show(got.back().text));
        VP_CHECK(out.str() == printed, "printed ", vp::show(out.str()), " instead of ", vp::show(printed));
    }
    VP_CHECK(!two || other.size() == got.size(), "two consumers got ", got.size(), " and ", other.size(), " entries");
    if (yes && no) c.nontrivial();
}
