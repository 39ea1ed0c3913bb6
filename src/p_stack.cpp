// C02: the undo history is a bounded stack shared by all kernels (model based, online).
#include "ops.hpp"
#include <deque>
using namespace mk;

namespace
{
    struct Entry
    {
        int id;
        std::string name;
        Snap before, after;
    };
    struct Model
    {
        std::deque<Entry> done, undone;
        int maxSize = 50;
        std::set<int> alive;
        int countDone(int id) const
        {
            return static_cast<int>(std::count_if(done.begin(), done.end(), [&](auto& e)
                                                  { return e.id == id; }));
        }
        int countUndone(int id) const
        {
            return static_cast<int>(std::count_if(undone.begin(), undone.end(), [&](auto& e)
                                                  { return e.id == id; }));
        }
    };

    void checkCounts(Ctx& c, const Model& m, const std::string& after)
    {
        int a = -5, b = -5;
        OK(c, "undo_state_count", mkernel_undo_state_count(a, b));
        if (a != static_cast<int>(m.done.size()))
            c.fail("committed-count:" + after, "after %s: %d undo entries reported, %zu expected (maximum %d)", after.c_str(), a, m.done.size(), m.maxSize);
        if (b != static_cast<int>(m.undone.size()))
            c.fail("restored-count:" + after, "after %s: %d redo entries reported, %zu expected", after.c_str(), b, m.undone.size());
        std::set<int> ids = m.alive;
        ids.insert(-1);
        ids.insert(9999);
        for (auto& e : m.done)
            ids.insert(e.id);
        for (int id : ids)
        {
            OK(c, "undo_state_count_for_id", mkernel_undo_state_count_for_id(id, a, b));
            int wa = m.alive.count(id) ? m.countDone(id) : 0, wb = m.alive.count(id) ? m.countUndone(id) : 0;
            if (a != wa || b != wb)
                c.fail("count-for-id:" + after, "after %s: kernel %d has %d/%d undo/redo entries, expected %d/%d", after.c_str(), id, a, b, wa, wb);
        }
        Hash h;
        for (auto& e : m.done)
            h.add(e.id).str(e.name);
        h.add(-7);
        for (auto& e : m.undone)
            h.add(e.id).str(e.name);
        h.add(m.maxSize);
        if (!m.done.empty() || !m.undone.empty())
            c.observed(h.h);
    }

    void caseC02(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        Model m;
        std::map<int, Snap> cur;
        m.maxSize = r.p(0.5) ? r.i(1, 6) : r.i(7, 30);
        OK(c, "set_undo_size", mkernel_set_undo_size(m.maxSize));
        c.op("set_undo_size %d", m.maxSize);
        auto& ops = allOps();
        auto newKernel = [&]
        {
            int proj = r.p(0.85) ? 0 : 1;
            int id = allocate(proj);
            c.op("allocate_state %d -> %d", proj, id);
            if (id < 0 || m.alive.count(id) || cur.count(id))
                c.fail("id-reused", "allocate_state returned id %d which was handed out before", id);
            m.alive.insert(id);
            cur[id] = snap(id);
        };
        int nk = r.i(1, 3);
        while (nk--)
            newKernel();
        checkCounts(c, m, "allocate_state");
        int steps = r.i(8, c.thorough ? 60 : 30);
        for (int s = 0; s < steps; ++s)
        {
            double u = r.u();
            if (u < 0.2)
            {
                bool un = true;
                int id = -77;
                c.op("undo");
                OK(c, "undo_state", mkernel_undo_state(un, id));
                if (un != !m.done.empty())
                    c.fail("undone-flag", "undo with %zu entries reported undone=%d", m.done.size(), un);
                if (un)
                {
                    Entry e = m.done.back();
                    if (id != e.id)
                        c.fail("undo-id", "undo reported kernel %d, the last change was made in kernel %d (%s)", id, e.id, e.name.c_str());
                    m.done.pop_back();
                    cur[e.id] = e.before;
                    Snap x = snap(e.id);
                    if (!(x == e.before))
                        c.fail("undo-state:" + e.name, "%s", x.diff(e.before).c_str());
                    m.undone.push_back(e);
                    c.count("undo");
                }
                else
                {
                    c.count("undo_on_empty");
                    for (auto& k : m.alive)
                        if (Snap x = snap(k); !(x == cur[k]))
                            c.fail("empty-undo-changed", "%s", x.diff(cur[k]).c_str());
                }
                checkCounts(c, m, "undo");
                continue;
            }
            if (u < 0.32)
            {
                bool re = true;
                int id = -77;
                c.op("redo");
                OK(c, "redo_state", mkernel_redo_state(re, id));
                if (re != !m.undone.empty())
                    c.fail("redone-flag", "redo with %zu entries reported redone=%d", m.undone.size(), re);
                if (re)
                {
                    Entry e = m.undone.back();
                    if (id != e.id)
                        c.fail("redo-id", "redo reported kernel %d, expected %d (%s)", id, e.id, e.name.c_str());
                    m.undone.pop_back();
                    cur[e.id] = e.after;
                    Snap x = snap(e.id);
                    if (!(x == e.after))
                        c.fail("redo-state:" + e.name, "%s", x.diff(e.after).c_str());
                    m.done.push_back(e);
                    while (static_cast<int>(m.done.size()) > m.maxSize)
                        m.done.pop_front();
                    c.count("redo");
                }
                else
                    c.count("redo_on_empty");
                checkCounts(c, m, "redo");
                continue;
            }
            if (u < 0.36)
            {
                int old = m.maxSize;
                m.maxSize = r.p(0.15) ? 0 : r.i(1, 12);
                c.op("set_undo_size %d", m.maxSize);
                OK(c, "set_undo_size", mkernel_set_undo_size(m.maxSize));
                if (m.maxSize == 0)
                {
                    m.done.clear();
                    m.undone.clear();
                }
                while (static_cast<int>(m.done.size()) > m.maxSize)
                    m.done.pop_front();
                (void)old;
                checkCounts(c, m, "set_undo_size");
                c.count("set_undo_size");
                continue;
            }
            if (u < 0.375)
            {
                c.op("clear_undo_state");
                OK(c, "clear_undo_state", mkernel_clear_undo_state());
                m.done.clear();
                m.undone.clear();
                checkCounts(c, m, "clear_undo_state");
                c.count("clear");
                continue;
            }
            if (u < 0.41)
            {
                int id = r.pick(std::vector<int>(m.alive.begin(), m.alive.end()));
                bool expunge = r.p(0.4) && m.alive.size() > 1;
                c.op("%s %d", expunge ? "expunge_state" : "clear_undo_state_for_id", id);
                if (expunge)
                {
                    OK(c, "expunge_state", mkernel_expunge_state(id));
                    m.alive.erase(id);
                    bool v = true;
                    OK(c, "is_valid_state", mkernel_is_valid_state(id, v));
                    if (v)
                        c.fail("expunged-still-valid", "kernel %d is still valid after it was expunged", id);
                }
                else
                    OK(c, "clear_undo_state_for_id", mkernel_clear_undo_state_for_id(id));
                auto gone = [id](const Entry& e)
                { return e.id == id; };
                std::erase_if(m.done, gone);
                std::erase_if(m.undone, gone);
                checkCounts(c, m, expunge ? "expunge_state" : "clear_undo_state_for_id");
                c.count(expunge ? "expunge" : "clear_for_id");
                for (auto& k : m.alive)
                    if (Snap x = snap(k); !(x == cur[k]))
                        c.fail("clear-changed-state", "%s", x.diff(cur[k]).c_str());
                continue;
            }
            if (u < 0.44 && m.alive.size() < 4)
            {
                newKernel();
                checkCounts(c, m, "allocate_state");
                continue;
            }
            int id = r.pick(std::vector<int>(m.alive.begin(), m.alive.end()));
            Env e(c, id);
            e.refresh();
            const OpDef* o = nullptr;
            for (int t = 0; t < 80 && !o; ++t)
            {
                const OpDef& q = r.pick(ops);
                if (!(q.kind & Tracked) || (q.kind & Session))
                    continue;
                if (e.m2.numNodes() == 0 && std::string(q.name) != "mesh2d_set" && r.p(0.7))
                    continue;
                if (q.applies(e))
                    o = &q;
            }
            if (!o)
                continue;
            int rc = o->run(e);
            if (rc == -1)
                continue;
            Snap after = snap(id);
            if (rc != 0)
            {
                if (!(after == cur[id]))
                    return; // failure atomicity is judged elsewhere
                int a, b;
                mkernel_undo_state_count(a, b);
                if (a != static_cast<int>(m.done.size()) || b != static_cast<int>(m.undone.size()))
                    c.fail(std::string("failed-call-recorded:") + o->name, "%s failed and changed nothing but the history changed: %d/%d, expected %zu/%zu", o->name, a, b, m.done.size(), m.undone.size());
                c.count("failed_calls");
                continue;
            }
            c.evals++;
            c.count("modifications");
            int a, b;
            mkernel_undo_state_count(a, b);
            bool changed = !(after == cur[id]);
            if (!changed && a == static_cast<int>(m.done.size()) && b == static_cast<int>(m.undone.size()))
            {
                c.count("call_without_effect");
                if (m.maxSize > 0 && static_cast<int>(m.done.size()) == m.maxSize)
                {
                    // a full history looks the same whether or not the call was recorded: start a new one
                    mkernel_clear_undo_state();
                    m.done.clear();
                    m.undone.clear();
                }
                continue;
            }
            if (m.maxSize > 0)
            {
                std::erase_if(m.undone, [id](const Entry& q)
                              { return q.id == id; });
                m.done.push_back({id, o->name, cur[id], after});
                while (static_cast<int>(m.done.size()) > m.maxSize)
                {
                    m.done.pop_front();
                    c.count("dropped_oldest");
                }
            }
            cur[id] = after;
            checkCounts(c, m, o->name);
        }
        mkernel_set_undo_size(50);
        m.maxSize = 50;
        // drain: everything recorded must come back in reverse order, never more
        while (!m.done.empty())
        {
            Entry e = m.done.back();
            bool un = false;
            int id = -77;
            OK(c, "undo_state", mkernel_undo_state(un, id));
            if (!un || id != e.id)
                c.fail("drain", "undone=%d kernel=%d, expected kernel %d (%s)", un, id, e.id, e.name.c_str());
            Snap x = snap(id);
            if (!(x == e.before))
                c.fail("undo-state:" + e.name, "%s", x.diff(e.before).c_str());
            m.done.pop_back();
            m.undone.push_back(e);
            c.count("undo");
        }
        bool un = true;
        int id;
        OK(c, "undo_state", mkernel_undo_state(un, id));
        if (un)
            c.fail("drain-extra", "undo reported success with an empty history");
        checkCounts(c, m, "drain");
    }
    Reg r2("C02", caseC02, 8800, 80000);
} // namespace
