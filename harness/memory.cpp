// C01 owner/lessee lifetime on schedules, C02 ownership histories, C03 heritable values.
#include "vp.hpp"
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/memory/owner_ptr.hpp>
#include <cpp_utils/memory/Heritable.hpp>

using namespace eprosima::utils;
using vp::u64;
using vp::i64;

// ---------------------------------------------------------------- C01
namespace {

struct Track
{
    vp::Ghost destroyed, users, released;   // times destroyed; guards and calls in progress; owner's release returned
};

struct Obj
{
    Track* t;
    int id;
    std::string data;
    Obj(Track* tr, int i) : t(tr), id(i), data("object number " + std::to_string(i) + " with a heap part") {}
    ~Obj()
    {
        VP_CHECK(t->users.get() == 0, "object ", id, " is destroyed while ", t->users.get(), " guards or calls are using it");
        VP_CHECK(t->destroyed.add(1) == 1, "object ", id, " is destroyed twice");
    }
    size_t touch() const
    {
        VP_CHECK(t->destroyed.get() == 0, "a call is made into object ", id, ", which was destroyed");
        t->users.add(1);
        dsched::dsched_yield();
        size_t n = data.size();
        dsched::dsched_yield();
        t->users.add(-1);
        VP_CHECK(t->destroyed.get() == 0, "object ", id, " was destroyed during a call into it");
        return n;
    }
};

void check_valid(const Obj* o)
{
    VP_CHECK(o->t->destroyed.get() == 0, "object ", o->id, " is reachable although it was destroyed");
}

struct UserStep { int what; int a; };
const char* ustep[] = {"lock", "lock twice", "call", "lock_with_exception", "bool", "copy", "take new lease", "lock and move guard", "move lessee", "drop", "reassign guard", "call in call"};
struct OwnerStep { int what; };
const char* ostep[] = {"reset()", "reset(new)", "move-assign new owner", "move to another owner", "publish lease", "destroy and make again", "use"};

void lifetime(vp::Ctx& c)
{
    unsigned nt = 1 + c.below(3);
    unsigned nos = 1 + c.below(4);
    std::vector<int> osteps;
    std::vector<std::vector<int>> usteps(nt);
    for (unsigned i = 0; i < nos; ++i) osteps.push_back((int)c.weighted({3, 2, 1, 1, 2, 1, 1}));
    std::string d = "owner:";
    for (int s : osteps) d += vp::cat(" ", ostep[s], ";");
    for (unsigned i = 0; i < nt; ++i)
    {
        unsigned k = 1 + c.below(4);
        d += vp::cat("\nT", i + 1, ":");
        for (unsigned j = 0; j < k; ++j)
        {
            usteps[i].push_back((int)c.weighted({3, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1}));
            d += vp::cat(" ", ustep[usteps[i].back()], ";");
        }
    }
    bool custom = c.below(2);
    VP_LOG(d, custom ? "\ncustom deleter" : "");
    std::vector<std::unique_ptr<Track>> tracks;
    vp::Ghost hits, misses;
    // room for every object made, so that the vector never moves
    for (unsigned i = 0; i < 2 * nos + 4; ++i) tracks.emplace_back(new Track());
    unsigned made = 0;
    dsched::run([&]()
    {
        std::mutex slot_mutex;
        LesseePtr<Obj> slot;
        auto make = [&]()
        {
            Obj* o = new Obj(tracks[made].get(), (int)made);
            made++;
            return o;
        };
        std::function<void(Obj*)> del = [](Obj* o)
        {
            VP_CHECK(o->t->users.get() == 0, "the deleter of object ", o->id, " runs while guards or calls are using it");
            delete o;
        };
        {
            std::unique_ptr<OwnerPtr<Obj>> owner(custom ? new OwnerPtr<Obj>(make(), del) : new OwnerPtr<Obj>(make()));
            LesseePtr<Obj> first = owner->lease();
            slot = first;
            std::vector<std::thread> th;
            for (unsigned i = 0; i < nt; ++i)
            {
                const std::vector<int>* my = &usteps[i];
                th.emplace_back([my, &first, &slot, &slot_mutex, &hits, &misses]()
                {
                    LesseePtr<Obj> l = first;    // concurrent copies of one lessee
                    bool gone = false;
                    auto seen = [&](const GuardedPtr<Obj>& g)
                    {
                        if (g)
                        {
                            VP_CHECK(!gone, "a lessee that reported its data as gone locks it again");
                            check_valid(g.get());
                            VP_CHECK(g.operator ->() == g.get() && &*g == g.get(), "the accesses of a guard disagree");
                            VP_CHECK(!(g == nullptr) && !(nullptr == g), "a valid guard compares equal to null");
                            hits.add(1);
                        }
                        else
                        {
                            VP_CHECK(g == nullptr && nullptr == g, "an invalid guard compares different from null");
                            gone = true;
                            misses.add(1);
                        }
                        return (bool)g;
                    };
                    auto use = [](const GuardedPtr<Obj>& g)
                    {
                        g->t->users.add(1);
                        VP_CHECK(g->t->destroyed.get() == 0, "the guard holds a destroyed object");
                        dsched::dsched_yield();
                        VP_CHECK(g->data.size() > 10, "damaged object");
                        dsched::dsched_yield();
                        VP_CHECK(g->t->destroyed.get() == 0, "object destroyed under a guard");
                        g->t->users.add(-1);
                    };
                    for (int s : *my)
                    {
                        switch (s)
                        {
                            case 0: { auto g = l.lock(); if (seen(g)) use(g); break; }
                            case 1:
                            {
                                auto g = l.lock();
                                bool v = seen(g);
                                if (v) g->t->users.add(1);
                                auto h = l.lock();
                                VP_CHECK((bool)h == v, "a second lock disagrees with the one held");
                                if (v)
                                {
                                    VP_CHECK(h.get() == g.get(), "two guards of one lessee hold different objects");
                                    use(h);
                                    g->t->users.add(-1);
                                }
                                break;
                            }
                            case 2:
                            case 11:
                                try
                                {
                                    if (s == 11)
                                    {
                                        auto g = l.lock_with_exception();
                                        g->t->users.add(1);
                                        l->touch();
                                        g->t->users.add(-1);
                                    }
                                    else l->touch();
                                    VP_CHECK(!gone, "a call goes through a lessee that reported its data as gone");
                                    hits.add(1);
                                }
                                catch (const ValueAccessException&) { gone = true; misses.add(1); }
                                break;
                            case 3:
                                try { auto g = l.lock_with_exception(); VP_CHECK(g, "lock_with_exception gave an invalid guard"); seen(g); use(g); }
                                catch (const ValueAccessException&) { gone = true; misses.add(1); }
                                break;
                            case 4:
                            {
                                bool b = l;
                                VP_CHECK(!(b && gone), "a lessee that reported its data as gone reports it valid again");
                                if (!b) gone = true;
                                break;
                            }
                            case 5: { LesseePtr<Obj> m(l); auto g = m.lock(); if (seen(g)) use(g); l = m; break; }
                            case 6: { std::lock_guard<std::mutex> k(slot_mutex); l = slot; gone = false; break; }
                            case 7:
                            {
                                auto g = l.lock();
                                if (seen(g))
                                {
                                    g->t->users.add(1);
                                    GuardedPtr<Obj> h(std::move(g));
                                    use(h);
                                    h->t->users.add(-1);
                                }
                                break;
                            }
                            case 8: { LesseePtr<Obj> m(std::move(l)); l = std::move(m); break; }
                            case 9: { LesseePtr<Obj> e; VP_CHECK(!e && !e.lock(), "an empty lessee is valid"); l = e; gone = false;
                                      std::lock_guard<std::mutex> k(slot_mutex); l = slot; break; }
                            case 10:
                            {
                                // the guard held is replaced by another one
                                auto g = l.lock();
                                LesseePtr<Obj> m;
                                { std::lock_guard<std::mutex> k(slot_mutex); m = slot; }
                                g = m.lock();
                                if (g) { check_valid(g.get()); use(g); }
                                break;
                            }
                        }
                    }
                });
            }
            std::unique_ptr<OwnerPtr<Obj>> other;
            auto released = [&](Obj* o, Track* t)
            {
                (void)o;
                VP_CHECK(t->destroyed.get() == 1, "the owner let its object go, which was destroyed ", t->destroyed.get(), " times");
                t->released.set(1);
            };
            for (int s : osteps)
            {
                Track* t = *owner ? (*owner)->t : nullptr;
                LesseePtr<Obj> mine = owner->lease();
                bool lets_go = true;
                switch (s)
                {
                    case 0: owner->reset(); VP_CHECK(!*owner, "the owner is valid after reset()"); break;
                    case 1: custom ? owner->reset(make(), del) : owner->reset(make()); VP_CHECK(*owner, "the owner is invalid after reset(new)"); break;
                    case 2: { OwnerPtr<Obj> n(make()); *owner = std::move(n); break; }
                    case 3: { std::unique_ptr<OwnerPtr<Obj>> n(new OwnerPtr<Obj>(std::move(*owner))); owner = std::move(n); lets_go = false; break; }
                    case 4: { LesseePtr<Obj> n = owner->lease(); std::lock_guard<std::mutex> k(slot_mutex); slot = n; lets_go = false; break; }
                    case 5: owner.reset(); owner.reset(new OwnerPtr<Obj>(make())); break;
                    case 6: if (*owner) { (*owner)->touch(); (**owner).touch(); } lets_go = false; break;
                }
                if (lets_go)
                {
                    if (t) released(nullptr, t);
                    VP_CHECK(!mine && !mine.lock(), "a lessee still finds the object its owner let go");
                }
                else VP_CHECK((t != nullptr) == (bool)mine.lock(), "a lessee's view differs from its owner's");
            }
            Track* t = *owner ? (*owner)->t : nullptr;
            owner.reset();
            if (t) released(nullptr, t);
            for (auto& x : th) x.join();
        }
        for (unsigned i = 0; i < made; ++i) VP_CHECK(tracks[i]->destroyed.get() == 1, "object ", i, " was destroyed ", tracks[i]->destroyed.get(), " times");
    });
    if (hits.get() && misses.get()) c.nontrivial();
}

} // namespace

VP_PROP(lifetime_schedules, 60000, 1500000, "an owner thread resets, replaces, moves and leases while 1-3 threads lock, guard, copy, move and call through lessees; non-trivial: some access found the object and some found it gone")
{
    lifetime(c);
}
// The access through operator* of a lessee, alone: documented to lock the data while it is used.
VP_PROP(lifetime_star_calls, 2000, 20000, "one thread calls once through operator* of a lessee while the owner resets; non-trivial: the call was made")
{
    Track t;
    bool called = false;
    dsched::run([&]()
    {
        OwnerPtr<Obj> owner(new Obj(&t, 0));
        LesseePtr<Obj> l = owner.lease();
        std::thread th([&]()
        {
            try { (*l).touch(); called = true; }
            catch (const ValueAccessException&) {}
        });
        owner.reset();
        th.join();
    });
    VP_CHECK(t.destroyed.get() == 1, "the object was destroyed ", t.destroyed.get(), " times");
    if (called) c.nontrivial();
}

// ---------------------------------------------------------------- C02
VP_PROP(ownership_history, 60000, 1200000, "histories of 1-60 constructions, resets, leases, copies, moves, locks and drops over 3 owners, 4 lessees and 3 guards against an ownership model; non-trivial: a guard is taken, an object is released while a lessee refers to it, and that lessee is used afterwards")
{
    bool guarded = false, gone_used = false;
    // under the scheduler a blocked release is a deadlock at once
    dsched::run([&]()
    {
    struct Thing { int id; std::string s; };
    struct Life { int destroyed = 0; int del = 0; bool alive = true; };
    std::map<int, Life> life;
    std::map<const Thing*, int> where;
    int next = 0;
    OwnerPtr<Thing> own[3];
    int mo[3] = {-1, -1, -1};                   // object owned
    LesseePtr<Thing> les[4];
    int ml[4] = {-1, -1, -1, -1};               // object leased (may be gone)
    std::optional<GuardedPtr<Thing>> gua[3];
    int mg[3] = {-1, -1, -1};                   // object guarded, -1 none or invalid
    auto make = [&](int& id)
    {
        id = ++next;
        Thing* t = new Thing{id, "thing " + std::to_string(id) + " has a long enough text"};
        life[id] = Life();
        return t;
    };
    int last_deleter = 0;
    auto deleter = [&](int tag)
    {
        return [&life, &last_deleter, tag](Thing* t)
        {
            Life& l = life.at(t->id);
            VP_CHECK(l.alive, "object ", t->id, " is deleted twice");
            l.alive = false;
            l.del = tag;
            l.destroyed++;
            last_deleter = tag;
            delete t;
        };
    };
    std::map<int, int> tag_of;
    auto drop_guards = [&](int id)
    {
        if (id < 0) return;
        for (int k = 0; k < 3; ++k) if (mg[k] == id) { gua[k].reset(); mg[k] = -1; VP_LOG("drop guard ", k); }
    };
    auto gone = [&](int id)
    {
        if (id < 0) return;
        VP_CHECK(!life[id].alive && life[id].destroyed == 1, "object ", id, " was let go by its owner but destroyed ", life[id].destroyed, " times");
        VP_CHECK(life[id].del == tag_of[id], "object ", id, " was destroyed with another object's deleter");
    };
    unsigned steps = 1 + c.below(60);
    for (unsigned s = 0; s < steps; ++s)
    {
        int i = (int)c.below(3), j = (int)c.below(4), k = (int)c.below(3), i2 = (int)c.below(3), j2 = (int)c.below(4), k2 = (int)c.below(3);
        switch (c.weighted({8, 3, 2, 1, 8, 3, 2, 5, 2, 8, 2, 1, 1, 1}))
        {
            case 0:
            {
                int id, tag = 1 + (int)c.below(100);
                drop_guards(mo[i]);
                Thing* t = make(id);
                tag_of[id] = tag;
                VP_LOG("own", i, ".reset(new ", id, ")");
                own[i].reset(t, deleter(tag));
                gone(mo[i]);
                mo[i] = id;
                break;
            }
            case 1:
                drop_guards(mo[i]);
                VP_LOG("own", i, ".reset()");
                own[i].reset();
                gone(mo[i]);
                mo[i] = -1;
                break;
            case 2:
                if (i == i2) break;
                drop_guards(mo[i]);
                VP_LOG("own", i, " = move(own", i2, ")");
                own[i] = std::move(own[i2]);
                gone(mo[i]);
                mo[i] = mo[i2];
                mo[i2] = -1;
                break;
            case 3:
            {
                VP_LOG("move construction of own", i, " and back");
                OwnerPtr<Thing> n(std::move(own[i]));
                VP_CHECK(!own[i] && (bool)n == (mo[i] >= 0), "move construction of an owner");
                own[i] = std::move(n);
                break;
            }
            case 4: VP_LOG("les", j, " = own", i, ".lease()"); les[j] = own[i].lease(); ml[j] = mo[i]; break;
            case 5: VP_LOG("les", j, " = les", j2); les[j] = les[j2]; ml[j] = ml[j2]; break;
            case 6:
                if (j == j2) break;
                VP_LOG("les", j, " = move(les", j2, ")");
                les[j] = std::move(les[j2]);
                ml[j] = ml[j2];
                ml[j2] = -1;
                break;
            case 7:
            {
                VP_LOG("guard", k, " <- les", j, ".lock()");
                bool ok = ml[j] >= 0 && life[ml[j]].alive;
                if (gua[k] && c.below(2)) *gua[k] = les[j].lock();
                else { gua[k].reset(); gua[k].emplace(les[j].lock()); }
                mg[k] = ok ? ml[j] : -1;
                guarded |= ok;
                break;
            }
            case 8: VP_LOG("drop guard ", k); gua[k].reset(); mg[k] = -1; break;
            case 9:
            {
                bool ok = ml[j] >= 0 && life[ml[j]].alive;
                VP_LOG("use les", j);
                try
                {
                    int id;
                    switch (c.below(3))
                    {
                        case 0: id = les[j]->id; break;
                        case 1: id = (*les[j]).id; break;
                        default: id = les[j].lock_with_exception()->id; break;
                    }
                    VP_CHECK(ok, "access through lessee ", j, ", whose object is gone, did not fail");
                    VP_CHECK(id == ml[j], "lessee ", j, " reaches object ", id, " instead of ", ml[j]);
                }
                catch (const ValueAccessException&)
                {
                    VP_CHECK(!ok, "access through a valid lessee failed");
                    if (ml[j] >= 0) gone_used = true;
                }
                break;
            }
            case 10:
                if (k == k2 || !gua[k] || !gua[k2]) break;
                VP_LOG("guard", k, " = move(guard", k2, ")");
                *gua[k] = std::move(*gua[k2]);
                mg[k] = mg[k2];
                mg[k2] = -1;
                break;
            case 11:
                if (!gua[k]) break;
                VP_LOG("move construction of guard ", k);
                {
                    GuardedPtr<Thing> g(std::move(*gua[k]));
                    VP_CHECK((bool)g == (mg[k] >= 0), "a moved guard lost its object");
                    gua[k].reset();
                    gua[k].emplace(std::move(g));
                }
                break;
            case 12:
            {
                drop_guards(mo[i]);
                VP_LOG("own", i, ".reset(nullptr)");
                int old = mo[i];
                bool thrown = false;
                try { own[i].reset(nullptr); } catch (const InitializationException&) { thrown = true; }
                VP_CHECK(thrown, "an owner of nothing is set without error");
                if (!own[i]) { gone(old); mo[i] = -1; }
                thrown = false;
                try { OwnerPtr<Thing> x(nullptr); } catch (const InitializationException&) { thrown = true; }
                VP_CHECK(thrown, "an owner of nothing is made without error");
                break;
            }
            case 13: VP_LOG("les", j, " = {}"); les[j] = LesseePtr<Thing>(); ml[j] = -1; break;
        }
        // the whole state agrees with the model
        for (int x = 0; x < 3; ++x)
        {
            VP_CHECK((bool)own[x] == (mo[x] >= 0), "owner ", x, " is ", (bool)own[x] ? "valid" : "null", " but the model owns ", mo[x]);
            VP_CHECK((own[x] == nullptr) == (mo[x] < 0) && (nullptr == own[x]) == (mo[x] < 0), "comparison of owner ", x, " with null is wrong");
            if (mo[x] >= 0)
            {
                VP_CHECK(life[mo[x]].alive, "object ", mo[x], " was destroyed but is still owned");
                VP_CHECK(own[x]->id == mo[x] && (*own[x]).id == mo[x] && own[x].get()->id == mo[x], "owner ", x, " reaches the wrong object");
            }
            if (gua[x])
            {
                VP_CHECK((bool)*gua[x] == (mg[x] >= 0), "guard ", x, " is ", (bool)*gua[x] ? "valid" : "null", " but the model guards ", mg[x]);
                VP_CHECK((*gua[x] == nullptr) == (mg[x] < 0) && (nullptr == *gua[x]) == (mg[x] < 0), "comparison of guard ", x, " with null is wrong");
                if (mg[x] >= 0) VP_CHECK((*gua[x])->id == mg[x] && (**gua[x]).id == mg[x] && gua[x]->get()->id == mg[x], "guard ", x, " reaches the wrong object");
            }
        }
        for (int x = 0; x < 4; ++x)
            VP_CHECK((bool)les[x] == (ml[x] >= 0 && life[ml[x]].alive), "lessee ", x, " of object ", ml[x], " is ", (bool)les[x] ? "valid" : "null");
    }
    for (int x = 0; x < 3; ++x) { gua[x].reset(); mg[x] = -1; }
    {
        // destruction of an owner is a release
        OwnerPtr<Thing> last(std::move(own[0]));
    }
    gone(mo[0]);
    for (int x = 1; x < 3; ++x) { own[x].reset(); gone(mo[x]); }
    for (auto& l : life) VP_CHECK(l.second.destroyed == 1, "object ", l.first, " was destroyed ", l.second.destroyed, " times in all");
    for (int x = 0; x < 4; ++x) VP_CHECK(!les[x] && !les[x].lock(), "a lessee is valid although every owner is gone");
    });
    if (guarded && gone_used) c.nontrivial();
}

// ---------------------------------------------------------------- C03
namespace {
int g_alive = 0;
struct Animal
{
    int v;
    Animal(int x) : v(x) { g_alive++; }
    Animal(const Animal& o) : v(o.v) { g_alive++; }
    virtual ~Animal() { g_alive--; }
    virtual std::string name() const { return "animal" + std::to_string(v); }
    bool operator ==(const Animal& o) const { return v == o.v; }
    bool operator <(const Animal& o) const { return v < o.v; }
};
// a second base first, so that conversions move the pointer
struct Extra { virtual ~Extra() {} long pad = 77; };
struct Dog : public Extra, public Animal
{
    int w;
    Dog(int x, int y = 5) : Animal(x), w(y) {}
    std::string name() const override { return "dog" + std::to_string(v) + "/" + std::to_string(w); }
};
struct Puppy : public Dog
{
    std::string toy;
    Puppy(int x) : Dog(x, x + 1), toy("a toy with a name that is quite long " + std::to_string(x)) {}
    std::string name() const override { return "puppy" + std::to_string(v) + "/" + toy; }
};
std::ostream& operator <<(std::ostream& os, const Animal& a) { return os << a.name(); }

struct Model { int v; int type; std::string name() const { return type == 0 ? "animal" + std::to_string(v) : type == 1 ? "dog" + std::to_string(v) + "/" : "puppy" + std::to_string(v) + "/"; } };
} // namespace

VP_PROP(heritable_history, 60000, 1200000, "histories of 1-40 constructions (from pointers to base and derived, in place), copies, moves, assignments, conversions, changes, comparisons, casts and printing over holders of a three-level hierarchy with a moving base pointer; non-trivial: a derived object is shared by two holders and changed through one")
{
    g_alive = 0;
    {
        using HA = Heritable<Animal>;
        using HD = Heritable<Dog>;
        using HP = Heritable<Puppy>;
        std::vector<std::unique_ptr<HA>> a(4);
        std::vector<std::unique_ptr<HD>> d(2);
        std::vector<std::unique_ptr<HP>> p(2);
        using M = std::shared_ptr<Model>;
        std::vector<M> ma(4), md(2), mp(2);      // null: no holder or moved-from
        std::vector<std::weak_ptr<Model>> all;
        auto mk = [&](int v, int t) { M m(new Model{v, t}); all.push_back(m); return m; };
        unsigned steps = 1 + c.below(40);
        bool shared_change = false;
        for (unsigned s = 0; s < steps; ++s)
        {
            size_t i = c.below(4), i2 = c.below(4), j = c.below(2), k = c.below(2);
            int v = (int)c.range(-3, 3);
            switch (c.below(16))
            {
                case 0:
                {
                    int t = (int)c.below(4);
                    VP_LOG("a", i, " <- new type ", t, " value ", v);
                    if (t == 0) { a[i].reset(new HA(new Animal(v))); ma[i] = mk(v, 0); }
                    else if (t == 1) { a[i].reset(new HA(new Dog(v))); ma[i] = mk(v, 1); }
                    else if (t == 2) { a[i].reset(new HA(new Puppy(v))); ma[i] = mk(v, 2); }
                    else { a[i].reset(new HA(HA::make_heritable(v))); ma[i] = mk(v, 0); }
                    break;
                }
                case 1: VP_LOG("d", j, " <- dog ", v); d[j].reset(new HD(HD::make_heritable(v, 9))); md[j] = mk(v, 1); break;
                case 2: VP_LOG("p", k, " <- puppy ", v); p[k].reset(new HP(HP::make_heritable(v))); mp[k] = mk(v, 2); break;
                case 3: if (ma[i2]) { VP_LOG("a", i, " <- copy of a", i2); if (i != i2) a[i].reset(new HA(*a[i2])); ma[i] = ma[i2]; } break;
                case 4: if (ma[i2] && a[i]) { VP_LOG("a", i, " = a", i2); *a[i] = *a[i2]; ma[i] = ma[i2]; } break;
                case 5: if (ma[i2] && a[i] && i != i2) { VP_LOG("a", i, " = move a", i2); *a[i] = std::move(*a[i2]); ma[i] = ma[i2]; ma[i2].reset(); } break;
                case 6: if (ma[i2] && i != i2) { VP_LOG("a", i, " <- moved a", i2); a[i].reset(new HA(std::move(*a[i2]))); ma[i] = ma[i2]; ma[i2].reset(); } break;
                case 7: if (md[j]) { VP_LOG("a", i, " <- copy of d", j); a[i].reset(new HA(*d[j])); ma[i] = md[j]; } break;
                case 8: if (mp[k]) { VP_LOG("a", i, " <- copy of p", k); a[i].reset(new HA(*p[k])); ma[i] = mp[k]; } break;
                case 9: if (mp[k]) { VP_LOG("d", j, " <- moved p", k); d[j].reset(new HD(std::move(*p[k]))); md[j] = mp[k]; mp[k].reset(); p[k].reset(); } break;
                case 10: if (md[j]) { VP_LOG("a", i, " <- moved d", j); a[i].reset(new HA(std::move(*d[j]))); ma[i] = md[j]; md[j].reset(); d[j].reset(); } break;
                case 11: VP_LOG("drop a", i); a[i].reset(); ma[i].reset(); break;
                case 12: VP_LOG("drop d", j, " p", k); d[j].reset(); md[j].reset(); p[k].reset(); mp[k].reset(); break;
                case 13: if (ma[i]) { VP_LOG("a", i, "->v = ", v); switch (c.below(3)) { case 0: (*a[i])->v = v; break; case 1: (**a[i]).v = v; break; default: a[i]->get_reference().v = v; break; }
                                      ma[i]->v = v; shared_change |= ma[i].use_count() > 1 && ma[i]->type > 0; } break;
                case 14: if (md[j]) { VP_LOG("d", j, "->v = ", v); (*d[j])->v = v; md[j]->v = v; shared_change |= md[j].use_count() > 1; } break;
                case 15: if (mp[k]) { VP_LOG("p", k, "->v = ", v); (*p[k])->v = v; mp[k]->v = v; shared_change |= mp[k].use_count() > 1; } break;
            }
            auto pre = [](const std::string& x, const std::string& y) { return x.compare(0, y.size(), y) == 0; };
            for (size_t x = 0; x < 4; ++x)
            {
                if (!ma[x]) continue;
                const HA& h = *a[x];
                const Model& m = *ma[x];
                int v0 = m.v;
                VP_CHECK(h->v == v0 && (*h).v == v0, "holder a", x, " has value ", h->v, ", the model ", v0);
                if (m.type == 0) VP_CHECK(h->name() == m.name(), "holder a", x, " acts as ", h->name());
                VP_CHECK(pre(h->name(), m.type == 0 ? "animal" : m.type == 1 ? "dog" : "puppy"), "holder a", x, " acts as ", h->name(), " instead of ", m.name());
                VP_CHECK(h.can_cast<Animal>() && h.can_cast<Dog>() == (m.type >= 1) && h.can_cast<Puppy>() == (m.type >= 2), "can_cast disagrees with the dynamic type ", m.type);
                bool bad = false;
                try { Dog& g = h.dyn_cast<Dog>(); VP_CHECK(static_cast<Animal*>(&g) == &*h, "dyn_cast gives another object"); VP_CHECK(g.pad == 77, "dyn_cast gives a misplaced object"); }
                catch (const std::bad_cast&) { bad = true; }
                VP_CHECK(bad == (m.type < 1), "dyn_cast to Dog on type ", m.type, bad ? " fails" : " succeeds");
                std::ostringstream os;
                os << h;
                VP_CHECK(os.str() == "{" + h->name() + "}", "printed ", os.str());
                for (size_t y = 0; y < 4; ++y)
                {
                    if (!ma[y]) continue;
                    const HA& g = *a[y];
                    VP_CHECK((h == g) == (ma[x]->v == ma[y]->v), "== between values ", ma[x]->v, " and ", ma[y]->v);
                    VP_CHECK((h < g) == (ma[x]->v < ma[y]->v), "< between values ", ma[x]->v, " and ", ma[y]->v);
                    VP_CHECK((h == *g) == (ma[x]->v == ma[y]->v) && (h < *g) == (ma[x]->v < ma[y]->v), "comparison with a plain object");
                    VP_CHECK((&*h == &*g) == (ma[x] == ma[y]), "holders share an object although the model says otherwise, or the reverse");
                }
            }
            for (size_t x = 0; x < 2; ++x)
            {
                if (md[x]) VP_CHECK((*d[x])->v == md[x]->v && (*d[x])->pad == 77, "holder d", x, " holds ", (*d[x])->name());
                if (mp[x]) VP_CHECK((*p[x])->v == mp[x]->v && (*p[x])->toy.size() > 10, "holder p", x, " holds ", (*p[x])->name());
            }
            int alive = 0;
            for (auto& w : all) alive += !w.expired();
            VP_CHECK(g_alive == alive, g_alive, " objects exist, the model has ", alive);
        }
        if (shared_change) c.nontrivial();
    }
    VP_CHECK(g_alive == 0, g_alive, " objects are left after all holders are gone");
}
