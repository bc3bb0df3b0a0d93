// C04, C05: the safe database.
#include "vp.hpp"
#include "hist.hpp"
#include <memory>
#include <optional>
#include <stdexcept>
#include <cpp_utils/collection/database/SafeDatabase.hpp>

using namespace eprosima::utils;
using vp::u64;
using vp::i64;

namespace {
using DB = SafeDatabase<int, std::string>;
using It = SafeDatabaseIterator<int, std::string>;
std::string val(int x) { return vp::cat("value ", x, " long enough to live on the heap"); }
int unval(const std::string& s)
{
    int x = -1;
    VP_CHECK(sscanf(s.c_str(), "value %d", &x) == 1 && s == val(x), "damaged value ", vp::show(s));
    return x;
}

struct St
{
    std::map<int, int> m;
    std::string key() const
    {
        std::string s;
        for (auto& kv : m) s += vp::cat(kv.first, "=", kv.second, ",");
        return s;
    }
};

enum { ADD, ADDC, MOD, AOM, AOMC, ERASE, IS, AT, SIZE, FIND, ALL, NOPS };
const char* names[] = {"add", "add(copy)", "modify", "add_or_modify", "add_or_modify(copy)", "erase", "is", "at", "size", "find", "iterate"};
struct Step { int what, k, v; };
std::string text(const Step& s)
{
    std::string r = names[s.what];
    if (s.what <= AOMC) return r + vp::cat("(", s.k, ",", s.v, ")");
    if (s.what == SIZE || s.what == ALL) return r;
    return r + vp::cat("(", s.k, ")");
}

void exec(DB& db, const Step& s, hist::Rec<St>& r)
{
    int k = s.k, v = s.v;
    const int ck = k;
    const std::string cv = val(v);
    switch (s.what)
    {
        case ADD:
        case ADDC:
        {
            bool b = s.what == ADD ? db.add(int(k), val(v)) : db.add(ck, cv);
            r.part(vp::cat(text(s), " -> ", b), [=](St& st) { return st.m.insert({k, v}).second == b; });
            break;
        }
        case MOD:
        {
            bool b = db.modify(ck, val(v));
            r.part(vp::cat(text(s), " -> ", b), [=](St& st) { if (!st.m.count(k)) return !b; st.m[k] = v; return b; });
            break;
        }
        case AOM:
        case AOMC:
        {
            bool b = s.what == AOM ? db.add_or_modify(int(k), val(v)) : db.add_or_modify(ck, cv);
            r.part(vp::cat(text(s), " -> ", b), [=](St& st) { bool added = !st.m.count(k); st.m[k] = v; return added == b; });
            break;
        }
        case ERASE: { bool b = db.erase(ck); r.part(vp::cat(text(s), " -> ", b), [=](St& st) { return (st.m.erase(k) == 1) == b; }); break; }
        case IS: { bool b = db.is(ck); r.part(vp::cat(text(s), " -> ", b), [=](St& st) { return (st.m.count(k) == 1) == b; }); break; }
        case AT:
        {
            int g = -1;
            try { g = unval(db.at(ck)); }
            catch (const std::out_of_range&) {}
            r.part(vp::cat(text(s), " -> ", g), [=](St& st) { auto i = st.m.find(k); return i == st.m.end() ? g == -1 : i->second == g; });
            break;
        }
        case SIZE: { unsigned n = db.size(); r.part(vp::cat("size -> ", n), [=](St& st) { return st.m.size() == n; }); break; }
        case FIND:
        {
            int g = -1;
            {
                auto i = db.find(ck);
                auto e = db.end();
                if (i != e) { VP_CHECK(i->first == k, "find(", k, ") points to key ", i->first); g = unval(i->second); }
            }
            r.part(vp::cat(text(s), " -> ", g), [=](St& st) { auto i = st.m.find(k); return i == st.m.end() ? g == -1 : i->second == g; });
            break;
        }
        case ALL:
        {
            std::vector<std::pair<int, int>> seen;
            {
                auto e = db.end();
                for (auto i = db.begin(); i != e; ++i)
                {
                    seen.push_back({i->first, unval((*i).second)});
                    VP_CHECK(seen.size() < 100, "the traversal does not end");
                }
            }
            std::string x = "iterate ->";
            for (auto& p : seen) x += vp::cat(" ", p.first, "=", p.second);
            r.part(x, [=](St& st) { return std::vector<std::pair<int, int>>(st.m.begin(), st.m.end()) == seen; });
            break;
        }
    }
}
} // namespace

VP_PROP(db_sequential, 60000, 1200000, "single-threaded histories of 1-60 calls of every operation with 8 keys against a map; non-trivial: a repeated add and an operation on a missing key")
{
    DB db;
    St m;
    unsigned steps = 1 + c.below(60), rep = 0, miss = 0;
    for (unsigned s = 0; s < steps; ++s)
    {
        Step st{(int)c.weighted({4, 3, 3, 3, 2, 3, 2, 3, 1, 2, 1}), (int)c.below(8), (int)s};
        if (st.what <= ADDC) rep += m.m.count(st.k);
        if (st.what == MOD || st.what >= ERASE) miss += !m.m.count(st.k);
        hist::Rec<St> r;
        exec(db, st, r);
        VP_LOG(r.call[0].text);
        St before = m;
        VP_CHECK(r.call[0].apply(m), "'", r.call[0].text, "' on {", before.key(), "}");
    }
    hist::Rec<St> r;
    exec(db, Step{ALL, 0, 0}, r);
    VP_CHECK(r.call[0].apply(m), "'", r.call[0].text, "' on {", m.key(), "}");
    if (rep && miss) c.nontrivial();
}

// move-only values and the interface
VP_PROP(db_move_only, 10000, 200000, "histories of add, modify, add_or_modify, erase and find with move-only values and string keys through the interface class, against a map; non-trivial: a repeated add and a modification")
{
    SafeDatabase<std::string, std::unique_ptr<int>> db;
    IModificableDatabase<std::string, std::unique_ptr<int>, SafeDatabaseIterator<std::string, std::unique_ptr<int>>>& i = db;
    std::map<std::string, int> m;
    unsigned steps = 1 + c.below(30), rep = 0, mods = 0;
    for (unsigned s = 0; s < steps; ++s)
    {
        std::string k(1 + c.below(3), (char)('a' + c.below(2)));
        std::unique_ptr<int> v(new int(s));
        switch (c.below(4))
        {
            case 0: { rep += m.count(k); bool b = i.add(std::string(k), std::move(v)); VP_CHECK(b == m.insert({k, s}).second, "add(", k, ") gave ", b); break; }
            case 1: { bool b = i.modify(k, std::move(v)); VP_CHECK(b == (m.count(k) == 1), "modify(", k, ") gave ", b); if (b) { m[k] = s; ++mods; } break; }
            case 2: { bool b = i.add_or_modify(std::string(k), std::move(v)); VP_CHECK(b == (m.count(k) == 0), "add_or_modify(", k, ") gave ", b); m[k] = s; break; }
            case 3: { bool b = i.erase(k); VP_CHECK(b == (m.erase(k) == 1), "erase(", k, ") gave ", b); break; }
        }
        VP_CHECK(db.size() == m.size(), "size is ", db.size(), ", expected ", m.size());
        auto e = i.end();
        auto it = i.begin();
        for (auto& kv : m)
        {
            VP_CHECK(it != e && it->first == kv.first && it->second && *it->second == kv.second, "the traversal does not show ", kv.first, " = ", kv.second);
            ++it;
            VP_CHECK(i.is(kv.first) && i.find(kv.first)->first == kv.first, "find or is misses ", kv.first);
        }
        VP_CHECK(it == e, "the traversal shows too much");
    }
    if (rep && mods) c.nontrivial();
}

VP_PROP(db_concurrent, 80000, 2000000, "2-4 threads with 1-4 operations each on 3 keys (all operations, whole traversals included) after a prefix, explained by one sequential order; non-trivial: at least two writers and overlapping calls")
{
    hist::Prog<St, Step> p;
    unsigned n = 2 + c.below(3), total = 0, writers = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        unsigned k = 1 + c.below(4);
        bool w = false;
        for (unsigned j = 0; j < k && total < 10; ++j)
        {
            Step s{(int)c.weighted({3, 2, 3, 3, 2, 3, 1, 2, 1, 2, 3}), (int)c.below(3), (int)++total};
            w |= s.what <= ERASE;
            t.steps.push_back(s);
        }
        writers += w;
    }
    St init;
    unsigned pre = c.below(4);
    for (unsigned i = 0; i < pre; ++i) init.m[(int)c.below(3)] = 100 + i;
    VP_LOG("initially {", init.key(), "}\n", p.describe(text));
    std::vector<lin::Op<St>> last;
    dsched::run([&]()
    {
        DB db;
        for (auto& kv : init.m) db.add(int(kv.first), val(kv.second));
        p.start([&db](const Step& s, unsigned, hist::Rec<St>& r) { exec(db, s, r); });
        p.join();
        p.snapshot();
        hist::Rec<St> r;
        exec(db, Step{ALL, 0, 0}, r);
        last.push_back(hist::observation<St>("at the end " + r.call[0].text, r.call[0].apply));
    });
    p.check(init, last);
    if (writers > 1 && p.overlapped()) c.nontrivial();
}

// ---------------------------------------------------------------- C05
VP_PROP(iterator_locks, 40000, 1000000, "histories of making (begin, end, find), copying, moving on, comparing and destroying up to 5 iterators; after each step a writer thread is tried: it must be held back exactly while an iterator lives, and proceed when the last one goes; non-trivial: an iterator is copied and a writer is held back")
{
    unsigned copies = 0, held = 0;
    dsched::run([&]()
    {
        DB db;
        std::map<int, int> m;
        unsigned n0 = c.below(5);
        for (unsigned i = 0; i < n0; ++i) { int k = (int)c.below(8); db.add(int(k), val(k)); m.insert({k, k}); }
        std::optional<It> it[5];
        std::thread writer;
        vp::Ghost wrote;
        int wkey = 0, wop = 0, wseq = 0;
        unsigned steps = 1 + c.below(14);
        auto alive = [&]() { unsigned a = 0; for (auto& i : it) a += (bool)i; return a; };
        auto finish = [&]()
        {
            if (!writer.joinable()) return;
            writer.join();
            if (wop == 0) m[wkey] = wseq;
            else if (wop == 1) m.erase(wkey);
            else m.insert({wkey, wseq});
        };
        for (unsigned s = 0; s < steps; ++s)
        {
            size_t i = c.below(5), j = c.below(5);
            switch (c.weighted({3, 2, 2, 4, 3, 4, 3}))
            {
                case 0: VP_LOG(i, " <- begin"); it[i].reset(); if (!alive()) finish(); it[i].emplace(db.begin()); break;
                case 1: VP_LOG(i, " <- end"); it[i].reset(); if (!alive()) finish(); it[i].emplace(db.end()); break;
                case 2: { int k = (int)c.below(8); VP_LOG(i, " <- find ", k); it[i].reset(); if (!alive()) finish(); it[i].emplace(db.find(k)); break; }
                case 3: if (it[j] && i != j) { VP_LOG(i, " <- copy of ", j); it[i].reset(); it[i].emplace(*it[j]); copies++; } break;
                case 4: if (it[j] && i != j) { VP_LOG(i, " <- moved ", j); it[i].reset(); it[i].emplace(std::move(*it[j])); it[j].reset(); } break;
                case 5: VP_LOG("drop ", i); it[i].reset(); break;
                case 6:
                    if (writer.joinable()) break;
                    wkey = (int)c.below(8);
                    wop = (int)c.below(3);
                    wseq = 1000 + (int)s;
                    VP_LOG("writer: ", wop == 0 ? "add_or_modify " : wop == 1 ? "erase " : "add ", wkey);
                    wrote.set(0);
                    writer = std::thread([&db, &wrote, wop, wkey, wseq]()
                    {
                        if (wop == 0) db.add_or_modify(int(wkey), val(wseq));
                        else if (wop == 1) db.erase(wkey);
                        else db.add(int(wkey), val(wseq));
                        wrote.set(1);
                    });
                    break;
            }
            dsched::dsched_settle();
            if (writer.joinable())
            {
                if (wrote.get())
                {
                    // it may only have finished while nobody iterated: the iterators then show the new content
                    finish();
                    VP_CHECK(!alive(), "a writer changed the collection while an iterator was alive");
                }
                else
                {
                    held++;
                    VP_CHECK(alive(), "a writer is held back although no iterator is alive");
                }
            }
            // a traversal from a new iterator sees the model, also with the writer pending
            if (alive())
            {
                auto e = db.end();
                std::map<int, int> seen;
                for (auto k = db.begin(); k != e; ++k)
                {
                    VP_CHECK(seen.insert({k->first, unval(k->second)}).second, "key ", k->first, " is visited twice");
                    VP_CHECK(seen.rbegin()->first == k->first, "the traversal is not in key order");
                    VP_CHECK(seen.size() < 50, "the traversal does not end");
                }
                VP_CHECK(seen == m, "a traversal under an iterator shows another content");
                for (auto& x : it)
                {
                    if (!x) continue;
                    // every live iterator still points into the collection
                    if (*x != e)
                    {
                        VP_CHECK(m.count((*x)->first) && m[(*x)->first] == unval((*x)->second), "an iterator points to something else");
                        if (c.below(3) == 2) ++*x;
                    }
                    for (auto& y : it)
                        if (y) VP_CHECK((*x == *y) == (*x == e ? *y == e : *y != e && (*x)->first == (*y)->first), "iterator comparison");
                }
            }
        }
        for (auto& x : it) x.reset();
        if (writer.joinable())
        {
            dsched::dsched_settle();
            VP_CHECK(wrote.get(), "a writer is held back after the last iterator is gone");
            writer.join();
        }
        // nothing is left locked, and nothing was unlocked too often: a writer in this thread and a lock count of zero
        db.add_or_modify(int(1), val(1));
        {
            std::optional<It> b;
            b.emplace(db.begin());
            vp::Ghost w2;
            std::thread t([&]() { db.erase(1); w2.set(1); });
            dsched::dsched_settle();
            VP_CHECK(!w2.get(), "a writer is not held back by an iterator");
            b.reset();
            t.join();
        }
    });
    if (copies && held) c.nontrivial();
}

VP_PROP(iterator_traversals, 60000, 1500000, "1-2 threads traverse the collection (whole, or from find, with copies of the iterator) while 1-2 threads write; each traversal equals the content at one instant; non-trivial: a traversal overlaps a write")
{
    hist::Prog<St, Step> p;
    unsigned nr = 1 + c.below(2), nw = 1 + c.below(2), total = 0;
    for (unsigned i = 0; i < nr; ++i)
    {
        auto& t = p.add();
        for (unsigned k = 1 + c.below(2); k; --k) t.steps.push_back(Step{ALL, (int)c.below(4), (int)c.below(4)});
    }
    for (unsigned i = 0; i < nw; ++i)
    {
        auto& t = p.add();
        for (unsigned k = 1 + c.below(4); k; --k) t.steps.push_back(Step{(int)c.weighted({3, 1, 2, 2, 1, 3}), (int)c.below(4), (int)++total});
    }
    St init;
    unsigned pre = c.below(5);
    for (unsigned i = 0; i < pre; ++i) init.m[(int)c.below(4)] = 100 + i;
    VP_LOG("initially {", init.key(), "}\n", p.describe(text));
    dsched::run([&]()
    {
        DB db;
        for (auto& kv : init.m) db.add(int(kv.first), val(kv.second));
        p.start([&db](const Step& s, unsigned, hist::Rec<St>& r)
        {
            if (s.what != ALL) { exec(db, s, r); return; }
            std::vector<std::pair<int, int>> seen, again;
            {
                std::unique_ptr<It> cur(new It(s.v == 0 ? db.find(s.k) : db.begin()));
                It e = db.end();
                It first(*cur);
                while (*cur != e)
                {
                    seen.push_back({(*cur)->first, unval((*cur)->second)});
                    if (s.v == 2) { std::unique_ptr<It> nx(new It(*cur)); ++*nx; cur = std::move(nx); }
                    else ++*cur;
                    VP_CHECK(seen.size() < 50, "the traversal does not end");
                }
                for (; first != e; ++first) again.push_back({first->first, unval(first->second)});
            }
            VP_CHECK(seen == again, "two traversals under one iterator differ");
            int from = s.v == 0 ? s.k : -1;
            std::string x = vp::cat("traverse from ", from, " ->");
            for (auto& q : seen) x += vp::cat(" ", q.first, "=", q.second);
            r.part(x, [=](St& st)
            {
                auto b = from < 0 ? st.m.begin() : st.m.find(from);
                return std::vector<std::pair<int, int>>(b, st.m.end()) == seen;
            });
        });
        p.join();
        p.snapshot();
    });
    p.check(init);
    bool ov = false;
    for (auto& a : p.ck.ops)
        for (auto& b : p.ck.ops)
            if (a.text.find("traverse") != std::string::npos && b.text.find("traverse") == std::string::npos && a.inv < b.res && b.inv < a.res) ov = true;
    if (ov) c.nontrivial();
}
