// Linearizability: is there an order of the operations, respecting real time, in which each has the result it had?
#pragma once
#include "vp.hpp"
#include <algorithm>
#include <unordered_set>

namespace lin {

constexpr vp::u64 PENDING = ~0ull;

template <typename State>
struct Op
{
    vp::u64 inv = 0, res = PENDING;         // sequence numbers of invocation and response
    std::function<bool(State&)> apply;      // false: impossible in this state
    std::string text;
    int after = -1;                         // index of an op that must come first (parts of one call)
};

// State needs: std::string key() const.
template <typename State>
struct Checker
{
    std::vector<Op<State>> ops;
    std::unordered_set<std::string> seen;
    std::vector<int> best;

    bool dfs(std::vector<bool>& done, size_t ndone, const State& st, std::vector<int>& order)
    {
        if (order.size() > best.size()) best = order;
        bool left = false;
        vp::u64 min_res = PENDING;
        for (size_t i = 0; i < ops.size(); ++i)
            if (!done[i])
            {
                if (ops[i].res != PENDING) left = true;
                if (ops[i].res < min_res) min_res = ops[i].res;
            }
        if (!left) return true;
        std::string key(done.begin(), done.end());
        key += st.key();
        if (!seen.insert(key).second) return false;
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (done[i] || ops[i].inv > min_res) continue;
            if (ops[i].after >= 0 && !done[ops[i].after]) continue;
            State s2 = st;
            if (!ops[i].apply(s2)) continue;
            done[i] = true;
            order.push_back(i);
            if (dfs(done, ndone + 1, s2, order)) return true;
            order.pop_back();
            done[i] = false;
        }
        return false;
    }

    // "" if linearizable, else a description
    std::string check(const State& init)
    {
        seen.clear();
        best.clear();
        std::vector<bool> done(ops.size(), false);
        std::vector<int> order;
        if (dfs(done, 0, init, order)) return "";
        std::string s = "no sequential order explains the history:";
        std::vector<std::pair<vp::u64, std::string>> ev;
        for (auto& o : ops)
        {
            ev.push_back({o.inv, "call " + o.text});
            if (o.res != PENDING) ev.push_back({o.res, "return " + o.text});
        }
        std::sort(ev.begin(), ev.end());
        for (auto& e : ev) s += "\n  " + e.second;
        return s;
    }
};

} // namespace lin
