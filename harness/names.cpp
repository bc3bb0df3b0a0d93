// C41 robot names, C42 quality-of-service names, C43 log filters.
#include "vp.hpp"
#include <cstring>
#include <iostream>
#include <set>
#include <sstream>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>
#include <cpp_utils/qos/qos_utils.hpp>
#include <cpp_utils/ros2_mangling.hpp>

using namespace eprosima::utils;
using vp::i64;
using vp::u64;

namespace {

bool starts(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
std::string swap_sep(const std::string& s, const std::string& from, const std::string& to)
{
    std::string r;
    for (size_t i = 0; i < s.size();)
    {
        if (s.compare(i, from.size(), from) == 0) { r += to; i += from.size(); }
        else r += s[i++];
    }
    return r;
}

// valid name segments, near the words that mangling adds
std::string segment(vp::Ctx& c)
{
    static const std::vector<std::string> words = {"rt", "rq", "rr", "msgs", "Request", "Reply", "Response", "std_msgs", "dds", "srvs", "a", "hello", "helloRequest", "xReply", "msg", "r", "rtx", "x_y", "Request_x", "rosout", "Requestx"};
    if (c.chance(1, 2)) return c.pick(words);
    std::string s = c.str("abcXYZr", 5);
    if (s.empty()) s = "n";
    if (c.chance(1, 4)) s += "_" + c.str("abc019", 3) + "z";
    return s;
}
std::string topic(vp::Ctx& c, unsigned& segs)
{
    segs = 1 + (unsigned)c.below(4);
    std::string t;
    for (unsigned i = 0; i < segs; ++i) t += "/" + segment(c);
    return t;
}
// as a package and its namespaces: nothing that is a keyword of the mangling
std::string package(vp::Ctx& c)
{
    std::string p;
    unsigned n = 1 + (unsigned)c.weighted({5, 2, 1});
    for (unsigned i = 0; i < n; ++i)
    {
        std::string s = segment(c);
        if (s == "msg" || s == "srv") s += "s";
        p += (i ? "/" : "") + s;
    }
    return p;
}
std::string near_name(vp::Ctx& c)
{
    static const std::vector<std::string> bits = {"rt", "rq", "rr", "/", "/", "::", "msg", "srv", "/msg/", "/srv/", "dds_::", "dds_", "::dds_::", "_", "Request", "Reply", "_Request_", "_Response_", "a", "B", "std_msgs", ":", "rt/", "rq/", "rr/", "_Response", "Request_", std::string(1, '\0'), "\xc3\xb1"};
    std::string s;
    for (unsigned n = (unsigned)c.below(8); n; --n) s += c.pick(bits);
    return s;
}
size_t count(const std::string& s, const std::string& w)
{
    size_t n = 0;
    for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) ++n;
    return n;
}
#define EQ(call, want) do { std::string got_ = call; VP_CHECK(got_ == (want), #call " is '", got_, "' instead of '", want, "'"); } while (0)

} // namespace

VP_PROP(ros_round_trip, 40000, 1500000, "valid topic, service and type names of 1-4 segments, many of them words of the mangling; mangled names are compared with the documented form and demangled back; non-trivial: several segments or a segment that is a word of the mangling")
{
    unsigned segs = 0;
    std::string t = topic(c, segs);
    VP_LOG("topic ", t);
    EQ(mangle_if_ros_topic(t), "rt" + t);
    EQ(add_ros_topic_prefix(t), "rt" + t);
    EQ(add_ros_service_requester_prefix(t), "rq" + t);
    EQ(add_ros_service_response_prefix(t), "rr" + t);
    EQ(demangle_if_ros_topic("rt" + t), t);
    EQ(demangle_ros_topic_prefix_from_topic("rt" + t), t);
    EQ(mangle_ros_service_request_prefix_in_topic(t), "rq" + t + "Request");
    EQ(mangle_ros_service_reply_prefix_in_topic(t), "rr" + t + "Reply");
    EQ(demangle_ros_service_request_prefix_from_topic("rq" + t + "Request"), t);
    EQ(demangle_ros_service_reply_prefix_from_topic("rr" + t + "Reply"), t);
    EQ(demangle_ros_service_prefix_from_topic("rq" + t + "Request"), t);
    EQ(demangle_ros_service_prefix_from_topic("rr" + t + "Reply"), t);
    EQ(demangle_ros_service_reply_prefix_from_topic("rq" + t + "Request"), "");
    EQ(demangle_ros_service_request_prefix_from_topic("rr" + t + "Reply"), "");
    EQ(demangle_ros_topic_prefix_from_topic("rq" + t), "");

    std::string p = package(c), n = segment(c);
    VP_LOG("type ", p, " ", n);
    std::string dp = swap_sep(p, "/", "::");
    EQ(mangle_if_ros_type(p + "/msg/" + n), dp + "::msg::dds_::" + n + "_");
    EQ(demangle_if_ros_type(dp + "::msg::dds_::" + n + "_"), p + "/msg/" + n);
    bool rq = c.below(2);
    std::string s = std::string(rq ? "rq/" : "rr/") + (c.below(2) ? p + "/" : "") + "srv/" + n;
    std::string d = swap_sep(s.substr(0, s.size() - n.size()), "/", "::") + "dds_::" + n + (rq ? "_Request_" : "_Response_");
    EQ(mangle_service_type_only(s), d);
    EQ(demangle_service_type_only(d), s);
    if (segs > 1 || p.find('/') != std::string::npos || n.find("Re") != std::string::npos) c.nontrivial();
}

VP_PROP(ros_any_text, 60000, 2000000, "texts concatenated of the words of the mangling, separators and other bytes, of 0-7 pieces, given to every function and compared with a model of the documented forms; non-trivial: some function takes it for mangled or manglable")
{
    std::string x = near_name(c);
    VP_LOG("'", x, "'");
    bool hit = false;
    auto pre = [&](const std::string& p) { return starts(x, p + "/") ? x.substr(p.size()) : std::string(); };
    std::string found, removed = x;
    for (auto p : {"rt", "rq", "rr"}) if (starts(x, std::string(p) + "/")) { found = p; removed = x.substr(2); }
    EQ(get_ros_prefix_if_exists(x), found);
    EQ(remove_ros_prefix_if_exists(x), removed);
    EQ(demangle_if_ros_topic(x), removed);
    EQ(demangle_ros_topic_prefix_from_topic(x), pre("rt"));
    EQ(mangle_if_ros_topic(x), starts(x, "/") ? "rt" + x : x);
    std::string y = near_name(c);
    EQ(remove_prefix(x, y), starts(x, y + "/") ? x.substr(y.size()) : std::string());
    EQ(add_prefix(x, y), y + x);
    EQ(add_suffix(x, y), x + y);
    EQ(mangle_ros_service_request_prefix_in_topic(x), starts(x, "/") ? "rq" + x + "Request" : std::string());
    EQ(mangle_ros_service_reply_prefix_in_topic(x), starts(x, "/") ? "rr" + x + "Reply" : std::string());
    auto service = [&](const std::string& p, const std::string& suf)
    {
        std::string r = pre(p);
        return ends(r, suf) ? r.substr(0, r.size() - suf.size()) : std::string();
    };
    EQ(demangle_ros_service_request_prefix_from_topic(x), service("rq", "Request"));
    EQ(demangle_ros_service_reply_prefix_from_topic(x), service("rr", "Reply"));
    EQ(demangle_ros_service_prefix_from_topic(x), !service("rr", "Reply").empty() ? service("rr", "Reply") : service("rq", "Request"));
    hit |= !found.empty() || starts(x, "/");

    size_t dds = x.find("dds_::");
    std::string t = demangle_if_ros_type(x);
    if (!ends(x, "_") || dds == std::string::npos) VP_CHECK(t == x, "demangle_if_ros_type changes a name that is not mangled into '", t, "'");
    else if (count(x, "dds_::") == 1)
    {
        hit = true;
        EQ(t, swap_sep(x.substr(0, dds), "::", "/") + x.substr(dds + 6, x.size() - 1 - dds - 6));
    }
    size_t msg = x.find("/msg/");
    std::string m = mangle_if_ros_type(x);
    if (msg == std::string::npos || msg + 5 == x.size()) VP_CHECK(m == x, "mangle_if_ros_type changes a name that is no type into '", m, "'");
    else if (count(x, "/msg/") == 1 && x.find('/', msg + 5) == std::string::npos)
    {
        hit = true;
        EQ(m, swap_sep(x.substr(0, msg + 5), "/", "::") + "dds_::" + x.substr(msg + 5) + "_");
    }
    std::string s = demangle_service_type_only(x);
    size_t suf = ends(x, "_Request_") ? 9 : ends(x, "_Response_") ? 10 : 0;
    if (dds == std::string::npos || !suf) VP_CHECK(s == "", "demangle_service_type_only makes '", s, "' of a name that is no mangled service type");
    else if (count(x, "dds_::") == 1 && dds + 6 < x.size() - suf)
    {
        hit = true;
        EQ(s, swap_sep(x.substr(0, dds), "::", "/") + x.substr(dds + 6, x.size() - suf - dds - 6));
    }
    size_t srv = x.find("/srv/");
    std::string z = mangle_service_type_only(x);
    bool rq = starts(x, "rq/"), rr = starts(x, "rr/");
    if (srv == std::string::npos || (!rq && !rr)) VP_CHECK(z == "", "mangle_service_type_only makes '", z, "' of a name that is no service type");
    else if (count(x, "/srv/") == 1 && srv + 5 < x.size() && x.find('/', srv + 5) == std::string::npos)
    {
        hit = true;
        EQ(z, swap_sep(x.substr(0, srv + 5), "/", "::") + "dds_::" + x.substr(srv + 5) + (rq ? "_Request_" : "_Response_"));
    }
    const auto& all = get_all_ros_prefixes();
    VP_CHECK((std::set<std::string>(all.begin(), all.end()) == std::set<std::string>{"rt", "rq", "rr"} && all.size() == 3), "the set of prefixes");
    if (hit) c.nontrivial();
}

// ---------------------------------------------------------------------------------------------------------- QoS
VP_PROP(qos_masks, 20000, 400000, "masks of every single policy, of all, and random ones of any density; non-trivial: two or more policies")
{
    using namespace eprosima::fastdds::dds;
    static const char* expected[] = {"user data", "durability", "presentation", "deadline", "latency budget", "ownership", "ownership strength", "liveliness", "time based filter", "partition", "reliability", "destination order", "history", "resource limits", "entity factory", "writer data lifecycle", "reader data lifecycle", "topic data", "group data", "transport priority", "lifespan", "durability service", "data representation", "type consistency enforcement", "disable positive acks", "participant resource limits", "property policy", "publish mode", "reader resource limits", "rtps endpoint", "rtps reliable reader", "rtps reliable writer", "transport config", "type consistency", "wire protocol config", "writer resource limits"};
    constexpr unsigned N = (unsigned)NEXT_QOS_POLICY_ID;
    static_assert(sizeof(expected) / sizeof(*expected) == N - 1, "names");
    auto norm = [](std::string s)
    {
        for (auto& ch : s) { if (ch == '-') ch = ' '; if (ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32); }
        return s;
    };
    std::vector<std::string> names(N);
    std::set<std::string> seen;
    for (unsigned i = 0; i < N; ++i)
    {
        names[i] = qos_policy_id_to_string((QosPolicyId_t)i);
        VP_CHECK(seen.insert(names[i]).second, "two policies have the name ", names[i]);
        VP_CHECK(names[i].find(',') == std::string::npos && !names[i].empty(), "name of policy ", i);
        if (i) VP_CHECK(norm(names[i]) == expected[i - 1], "policy ", i, " is called ", names[i], " and not ", expected[i - 1]);
    }
    VP_CHECK(qos_policy_id_to_string((QosPolicyId_t)(N + c.below(1000))) == names[0], "an unknown policy has the name of a policy");
    PolicyMask m;
    switch (c.weighted({1, 2, 2, 5}))
    {
        case 0: break;
        case 1: m.set(1 + c.below(N - 1)); break;
        case 2: m.set(1 + c.below(N - 1)); m.set(1 + c.below(N - 1)); break;
        default:
        {
            unsigned den = 1 + (unsigned)c.below(8);
            for (unsigned i = 1; i < N; ++i) if (c.chance(1, den)) m.set(i);
            if (c.chance(1, 8)) m.set(0);
        }
    }
    std::string want;
    for (unsigned i = 0; i < N; ++i) if (m.test(i)) want += (want.empty() ? "" : ", ") + names[i];
    if (m.none()) want = names[0];
    VP_LOG(m);
    EQ(qos_policy_mask_to_string(m), want);
    if (m.count() > 1) c.nontrivial();
}

// ---------------------------------------------------------------------------------------------------------- log
namespace {

struct Re        // a regular expression and what it matches, without the library's help
{
    enum Kind { LIT, ANY, SET, SEQ, ALT, STAR, OPT, BOL, EOL } k;
    char ch = 0;
    std::string set;
    std::vector<Re> sub;

    std::string text() const
    {
        switch (k)
        {
            case LIT: return std::string(strchr(".*+?()[]{}|^$\\", ch) ? "\\" : "") + ch;
            case ANY: return ".";
            case SET: return "[" + set + "]";
            case SEQ: { std::string s; for (auto& x : sub) s += x.k == ALT ? "(" + x.text() + ")" : x.text(); return s; }
            case ALT: { std::string s; for (size_t i = 0; i < sub.size(); ++i) s += (i ? "|" : "") + sub[i].text(); return s; }
            case STAR: return "(" + sub[0].text() + ")*";
            case OPT: return "(" + sub[0].text() + ")?";
            case BOL: return "^";
            default: return "$";
        }
    }
    // positions reachable from p
    std::set<size_t> ends(const std::string& s, size_t p) const
    {
        switch (k)
        {
            case LIT: if (p < s.size() && s[p] == ch) return {p + 1}; return {};
            case ANY: if (p < s.size() && s[p] != '\n' && s[p] != '\r') return {p + 1}; return {};
            case SET: if (p < s.size() && set.find(s[p]) != std::string::npos) return {p + 1}; return {};
            case SEQ:
            {
                std::set<size_t> now = {p};
                for (auto& x : sub)
                {
                    std::set<size_t> nx;
                    for (size_t q : now) for (size_t e : x.ends(s, q)) nx.insert(e);
                    now.swap(nx);
                }
                return now;
            }
            case ALT: { std::set<size_t> r; for (auto& x : sub) for (size_t e : x.ends(s, p)) r.insert(e); return r; }
            case STAR:
            {
                std::set<size_t> r = {p};
                std::vector<size_t> todo = {p};
                while (!todo.empty())
                {
                    size_t q = todo.back();
                    todo.pop_back();
                    for (size_t e : sub[0].ends(s, q)) if (r.insert(e).second) todo.push_back(e);
                }
                return r;
            }
            case OPT: { auto r = sub[0].ends(s, p); r.insert(p); return r; }
            case BOL: if (p == 0) return {p}; return {};
            default: if (p == s.size()) return {p}; return {};
        }
    }
    bool search(const std::string& s) const
    {
        for (size_t p = 0; p <= s.size(); ++p) if (!ends(s, p).empty()) return true;
        return false;
    }
};
const char LETTERS[] = "abcDAB_ .(";
Re atom(vp::Ctx& c, unsigned depth)
{
    Re r{Re::LIT};
    switch (c.weighted({10, 2, 2, depth ? 2u : 0u, depth ? 1u : 0u}))
    {
        case 0: r.ch = LETTERS[c.below(sizeof(LETTERS) - 1)]; break;
        case 1: r.k = Re::ANY; break;
        case 2: r.k = Re::SET; r.set = c.pick({"ab", "aD", "bc_", "D", "AB", "Ac"}); break;
        case 3: r.k = c.below(2) ? Re::STAR : Re::OPT; r.sub.push_back(atom(c, 0)); break;
        default:
            r.k = Re::ALT;
            for (unsigned n = 2; n; --n) { Re q{Re::SEQ}; for (unsigned m = 1 + (unsigned)c.below(3); m; --m) q.sub.push_back(atom(c, 0)); r.sub.push_back(q); }
    }
    return r;
}
Re regex(vp::Ctx& c)
{
    Re r{Re::SEQ};
    if (c.chance(1, 5)) return r;
    bool b = c.chance(1, 4), e = c.chance(1, 4);
    if (b) r.sub.push_back(Re{Re::BOL});
    for (unsigned n = (unsigned)c.below(4); n; --n) r.sub.push_back(atom(c, 1));
    if (e) r.sub.push_back(Re{Re::EOL});
    return r;
}

class Spy : public StdLogConsumer
{
public:
    using StdLogConsumer::StdLogConsumer;
    bool accepts(const Log::Entry& e) { return accept_entry_(e); }
};

struct Redirect
{
    std::ostream& s;
    std::ostringstream o;
    std::streambuf* old;
    explicit Redirect(std::ostream& os) : s(os), old(os.rdbuf(o.rdbuf())) {}
    ~Redirect() { s.rdbuf(old); }
    std::string take() { std::string t = o.str(); o.str(""); return t; }
};

const VerbosityKind KINDS[] = {VerbosityKind::Error, VerbosityKind::Warning, VerbosityKind::Info};
const char* const KIND_NAMES[] = {"Error", "Warning", "Info"};

} // namespace

VP_PROP(log_consumer, 20000, 500000, "histories of setting verbosity and per-kind regular expressions of any fuzzy level, then a consumer and 1-10 entries of every kind whose category and message are near the filters; regexes of a small grammar are matched by an own matcher; non-trivial: entries accepted and rejected, one of them by its filter")
{
    BaseLogConfiguration conf;
    Formatter err;
    VerbosityKind verb = VerbosityKind::Warning;
    FuzzyLevelType vlevel = FuzzyLevelValues::fuzzy_level_default, flevel[3];
    Re filt[3] = {Re{Re::SEQ}, Re{Re::SEQ}, Re{Re::SEQ}};
    std::string text[3];
    for (auto& f : flevel) f = FuzzyLevelValues::fuzzy_level_default;
    VP_CHECK(conf.verbosity == verb && conf.is_valid(err), "default configuration");
    const std::vector<FuzzyLevelType> levels = {FuzzyLevelValues::fuzzy_level_unset, FuzzyLevelValues::fuzzy_level_default, FuzzyLevelValues::fuzzy_level_fuzzy, FuzzyLevelValues::fuzzy_level_set, FuzzyLevelValues::fuzzy_level_hard};
    for (unsigned n = (unsigned)c.below(5); n; --n)
    {
        if (c.chance(2, 5))
        {
            VerbosityKind k = KINDS[c.below(3)];
            FuzzyLevelType l = c.pick(levels);
            VP_LOG("verbosity ", KIND_NAMES[k], " level ", (int)l);
            conf.set(Fuzzy<VerbosityKind>(k, l));
            if (l > vlevel || (l == vlevel && conf.verbosity == k)) { verb = k; vlevel = l; }
        }
        else
        {
            LogFilter f;
            std::string d, t[3];
            Re r[3] = {Re{Re::SEQ}, Re{Re::SEQ}, Re{Re::SEQ}};
            FuzzyLevelType l[3];
            for (int k = 2; k >= 0; --k)
            {
                r[k] = regex(c);
                l[k] = c.pick(levels);
                t[k] = r[k].text();
                f[KINDS[k]] = Fuzzy<std::string>(t[k], l[k]);
                d += vp::cat(" ", KIND_NAMES[k], " '", t[k], "' level ", (int)l[k]);
            }
            VP_LOG("filter", d);
            conf.set(f);
            for (int k = 0; k < 3; ++k)       // of equal levels either may stay
                if (l[k] > flevel[k] || (l[k] == flevel[k] && conf.filter[KINDS[k]].get_reference() == t[k]))
                {
                    filt[k] = r[k];
                    text[k] = t[k];
                    flevel[k] = l[k];
                }
        }
        VP_CHECK(conf.verbosity == verb, "verbosity is ", KIND_NAMES[conf.verbosity], " instead of ", KIND_NAMES[verb]);
        for (int k = 0; k < 3; ++k)
            VP_CHECK(conf.filter[KINDS[k]].get_reference() == text[k] && conf.filter[KINDS[k]].get_level() == flevel[k],
                     "the filter of ", KIND_NAMES[k], " is '", conf.filter[KINDS[k]].get_reference(), "' instead of '", text[k], "'");
    }
    std::ostringstream printed;
    printed << conf.filter << conf.verbosity;
    for (auto& t : text) VP_CHECK(printed.str().find(t) != std::string::npos, "a filter is not printed");

    bool direct = c.below(2);
    Spy spy(&conf);
    bool acc = false, rej = false;
    {
        Redirect out(std::cout), er(std::cerr);
        if (!direct)
        {
            Log::Reset();
            Log::SetVerbosity(VerbosityKind::Info);
            Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new StdLogConsumer(&conf)));
        }
        struct Clean { bool on; ~Clean() { if (on) { Log::Reset(); Log::KillThread(); } } } clean{!direct};
        for (unsigned n = 1 + (unsigned)c.below(10); n; --n)
        {
            int k = (int)c.below(3);
            std::string cat = c.str(LETTERS, 5), msg = c.str(std::string(LETTERS) + "\n", 7);
            if (c.chance(1, 12)) msg += c.str(LETTERS, (size_t)c.range(60, 300));
            if (c.chance(1, 30)) cat += c.str(LETTERS, (size_t)c.range(30, 120));
            std::string tag = vp::cat("#", n, "#");
            std::string full = msg + tag;
            Log::Entry e{full, Log::Context{"file.cpp", 7, "f", cat.c_str()}, KINDS[k], "now"};
            bool by_filter = filt[k].search(cat) || filt[k].search(full);
            bool want = k <= verb && by_filter;
            std::string d = vp::cat(KIND_NAMES[k], " category '", cat, "' message '", full, "'");
            VP_LOG(d);
            VP_CHECK(spy.accepts(e) == want, d, want ? " is not accepted" : " is accepted");
            if (direct) spy.Consume(e);
            else { Log::QueueLog(full, e.context, KINDS[k]); Log::Flush(); }
            std::string o = out.take(), x = er.take();
            bool on_out = o.find(full) != std::string::npos, on_err = x.find(full) != std::string::npos;
            bool info = KINDS[k] == VerbosityKind::Info;
            VP_CHECK(on_out == (want && info) && on_err == (want && !info), d, " was printed to the wrong stream, or not, or should not: out '", o, "' err '", x, "'");
            VP_CHECK((o + x).empty() == !want, d, ": something was printed");
            if (want)
            {
                VP_CHECK((o + x).find(cat) != std::string::npos && (o + x).find(KIND_NAMES[k]) != std::string::npos && (o + x).back() == '\n', d, ": category, kind or line end is missing");
                acc = true;
            }
            else rej |= k <= verb;
        }
    }
    if (acc && rej) c.nontrivial();
}
