// Concurrent histories: a small program of threads and steps, executed under the controlled scheduler, recorded as
// operations for the linearizability checker.
#pragma once
#include "lin.hpp"
#include <memory>
#include <thread>

namespace hist {

template <typename St>
struct Rec
{
    using Op = lin::Op<St>;
    std::vector<Op> ops;              // written by its thread only
    std::vector<Op> call;             // parts of the call being recorded

    // the parts of one call happen in this order, all of them within the call
    void part(const std::string& text, std::function<bool(St&)> apply)
    {
        Op o;
        o.text = text;
        o.apply = std::move(apply);
        call.push_back(std::move(o));
    }
};

template <typename St, typename Step>
struct Prog
{
    using Op = lin::Op<St>;
    using Exec = std::function<void(const Step&, unsigned who, Rec<St>&)>;
    struct Thread
    {
        std::vector<Step> steps;
        Rec<St> rec;
        vp::Ghost nops, at{-1}, finished;
        std::thread th;
        size_t kept = 0;
    };
    std::vector<std::unique_ptr<Thread>> ts;
    lin::Checker<St> ck;

    Thread& add()
    {
        ts.emplace_back(new Thread());
        return *ts.back();
    }
    template <typename Text>
    std::string describe(Text text) const
    {
        std::string d;
        for (size_t i = 0; i < ts.size(); ++i)
        {
            d += vp::cat(i ? "\n" : "", "T", i + 1, ":");
            for (auto& s : ts[i]->steps) d += " " + text(s) + ";";
        }
        return d;
    }
    void start(const Exec& exec)
    {
        for (unsigned i = 0; i < ts.size(); ++i)
        {
            Thread* t = ts[i].get();
            t->th = std::thread([t, i, exec]()
            {
                for (size_t j = 0; j < t->steps.size(); ++j)
                {
                    t->rec.call.clear();
                    vp::u64 inv = vp::vp_seq();
                    t->at.set((vp::i64)j);
                    exec(t->steps[j], i + 1, t->rec);
                    t->at.set(-1);
                    vp::u64 res = vp::vp_seq();
                    for (size_t k = 0; k < t->rec.call.size(); ++k)
                    {
                        Op o = t->rec.call[k];
                        o.inv = inv;
                        o.res = res;
                        o.text = vp::cat("T", i + 1, " ", o.text);
                        o.after = k ? (int)t->rec.ops.size() - 1 : -1;   // index in this thread, see check()
                        t->rec.ops.push_back(std::move(o));
                    }
                    t->nops.set((vp::i64)t->rec.ops.size());
                }
                t->finished.set(1);
            });
        }
    }
    // what the threads completed until now is the history (with dsched::Settled: until all are blocked or done)
    void snapshot()
    {
        for (auto& t : ts) t->kept = (size_t)t->nops.get();
    }
    // the step a thread is inside of, or null
    const Step* inside(size_t i) const
    {
        vp::i64 a = ts[i]->at.get();
        return a < 0 ? nullptr : &ts[i]->steps[(size_t)a];
    }
    bool finished(size_t i) const { return ts[i]->finished.get() != 0; }
    bool all_finished() const
    {
        for (size_t i = 0; i < ts.size(); ++i) if (!finished(i)) return false;
        return true;
    }
    void join()
    {
        for (auto& t : ts) if (t->th.joinable()) t->th.join();
    }
    // after join (or settle, for the part before it)
    void check(const St& init, const std::vector<Op>& extra = {})
    {
        ck.ops.clear();
        for (auto& t : ts)
        {
            int base = (int)ck.ops.size();
            for (size_t j = 0; j < t->kept; ++j)
            {
                Op o = t->rec.ops[j];
                if (o.after >= 0) o.after += base;
                ck.ops.push_back(std::move(o));
            }
        }
        for (auto& o : extra) ck.ops.push_back(o);
        std::string r = ck.check(init);
        VP_CHECK(r.empty(), r);
    }
    // some call overlapped one of another thread
    bool overlapped() const
    {
        for (auto& a : ck.ops)
            for (auto& b : ck.ops)
                if (&a != &b && a.inv < b.inv && b.inv < a.res) return true;
        return false;
    }
};

template <typename St>
lin::Op<St> observation(const std::string& text, std::function<bool(St&)> apply)
{
    lin::Op<St> o;
    o.inv = o.res = vp::vp_seq();
    o.text = text;
    o.apply = std::move(apply);
    return o;
}

} // namespace hist
