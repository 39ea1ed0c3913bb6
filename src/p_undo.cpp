// C01 undo/redo restores the observable state exactly; C02 undo stack accounting.
#include "ops.hpp"
#include <list>
using namespace mk;

namespace
{
    struct Entry
    {
        int id;
        std::string name;
        int n; // number of undo actions in this group
        Snap before, after;
    };

    struct World
    {
        Ctx& c;
        std::vector<int> ids;
        std::map<int, Snap> cur;
        std::vector<Entry> done, undone;
        explicit World(Ctx& ctx) : c(ctx) {}
        void counts(int& a, int& b) { mkernel_undo_state_count(a, b); }
    };

    int insertGroup(Env& e)
    {
        Box b = boxOf(e.m2);
        P2 p = e.hasMesh() ? b.rnd(e.r, 0.4) : P2{0, 0};
        double h = e.hasMesh() ? e.cell() : 1.0;
        int n[3] = {-1, -1, -1}, k;
        e.c.op("insert group (3 nodes, 3 edges) at %.17g %.17g", p.x, p.y);
        P2 q[3] = {p, p + P2{h, 0}, p + P2{0.3 * h, h}};
        for (int i = 0; i < 3; ++i)
            if (int rc = mkernel_mesh2d_insert_node(e.id, q[i].x, q[i].y, n[i]))
                return rc;
        for (int i = 0; i < 3; ++i)
            if (int rc = mkernel_mesh2d_insert_edge(e.id, n[i], n[(i + 1) % 3], k))
                return rc;
        return 0;
    }
    const OpDef insertOp{"mesh2d_insert_nodes_and_edges", Tracked | Mesh2 | Session, nullptr, insertGroup};

    void compareAll(World& w, const std::string& key, int touched, const Snap& want, const char* what)
    {
        for (int id : w.ids)
        {
            Snap s = snap(id);
            const Snap& ref = id == touched ? want : w.cur[id];
            w.c.evals++;
            if (!(s == ref))
            {
                if (id == touched)
                    w.c.fail(key, "%s does not give back the state (kernel %d):%s", what, id, s.diff(ref).c_str());
                else
                    w.c.fail("other-kernel-changed:" + key, "%s changed another kernel (%d):%s", what, id, s.diff(ref).c_str());
            }
            w.cur[id] = ref;
        }
    }

    void doUndo(World& w)
    {
        if (w.done.empty())
            return;
        Entry e = w.done.back();
        w.c.op("undo x%d (%s, kernel %d)", e.n, e.name.c_str(), e.id);
        for (int k = 0; k < e.n; ++k)
        {
            bool un = false;
            int id = -77;
            int rc = mkernel_undo_state(un, id);
            w.c.evals++;
            if (rc != 0 || !un)
                w.c.fail("undo-failed:" + e.name, "undo returned %d undone=%d: %s", rc, un, lastError().c_str());
        }
        compareAll(w, "undo-mismatch:" + e.name, e.id, e.before, "undo");
        w.c.count("undo_verified");
        w.c.observed(Hash().str(e.name).str("undo").add(e.before.hash()).h);
        w.done.pop_back();
        w.undone.push_back(e);
    }
    void doRedo(World& w)
    {
        if (w.undone.empty())
            return;
        Entry e = w.undone.back();
        w.c.op("redo x%d (%s, kernel %d)", e.n, e.name.c_str(), e.id);
        for (int k = 0; k < e.n; ++k)
        {
            bool re = false;
            int id = -77;
            int rc = mkernel_redo_state(re, id);
            w.c.evals++;
            if (rc != 0 || !re)
                w.c.fail("redo-failed:" + e.name, "redo returned %d redone=%d: %s", rc, re, lastError().c_str());
        }
        compareAll(w, "redo-mismatch:" + e.name, e.id, e.after, "redo");
        w.c.count("redo_verified");
        w.c.observed(Hash().str(e.name).str("redo").add(e.after.hash()).h);
        w.undone.pop_back();
        w.done.push_back(e);
    }

    void caseC01(Ctx& c)
    {
        mkernel_clear_state();
        mkernel_set_undo_size(200);
        World w(c);
        int nk = c.rng.p(0.3) ? 2 : 1;
        for (int k = 0; k < nk; ++k)
        {
            int proj = c.rng.p(0.8) ? 0 : c.rng.i(1, 2);
            int id = allocate(proj);
            c.op("allocate_state proj=%d -> %d", proj, id);
            w.ids.push_back(id);
        }
        auto& ops = allOps();
        // give some kernels initial content
        for (int id : w.ids)
        {
            Env e(c, id);
            e.refresh();
            for (auto& o : ops)
                if ((std::string(o.name) == "mesh2d_set" && c.rng.p(0.85)) || (std::string(o.name) == "curvilinear_set" && c.rng.p(0.5)) || (std::string(o.name) == "mesh1d_set" && c.rng.p(0.4)))
                    o.run(e);
        }
        mkernel_clear_undo_state();
        for (int id : w.ids)
            w.cur[id] = snap(id);
        int focus = c.rng.i(0, 3); // 0: everything 1: mesh2d 2: curvilinear 3: everything
        int steps = c.rng.i(4, c.thorough ? 40 : 16);
        for (int s = 0; s < steps; ++s)
        {
            double u = c.rng.u();
            if (u < 0.25)
            {
                int k = c.rng.i(1, 3);
                while (k--)
                    doUndo(w);
                continue;
            }
            if (u < 0.4)
            {
                int k = c.rng.i(1, 3);
                while (k--)
                    doRedo(w);
                continue;
            }
            int id = c.rng.pick(w.ids);
            Env e(c, id);
            e.refresh();
            const OpDef* o = nullptr;
            for (int t = 0; t < 60 && !o; ++t)
            {
                const OpDef& q = c.rng.pick(ops);
                if (focus == 1 && !(q.kind & Mesh2))
                    continue;
                if (focus == 2 && !(q.kind & Curvi))
                    continue;
                if (q.applies(e))
                    o = &q;
            }
            if (c.rng.p(0.04) && focus != 2 && e.projection == 0)
                o = &insertOp;
            if (!o)
                continue;
            int a0, b0, a1, b1;
            w.counts(a0, b0);
            int rc = o->run(e);
            if (rc == -1)
                continue;
            c.evals++;
            w.counts(a1, b1);
            Snap after = snap(id);
            if (rc != 0)
            {
                c.count("op_failed");
                if (a1 != a0 || b1 != b0 || !(after == w.cur[id]))
                    return; // judged by the failure atomicity property, not here
                continue;
            }
            c.count(std::string("op:") + o->name);
            int delta = a1 - a0;
            if (delta == 0)
            {
                if (!(after == w.cur[id]))
                    c.fail(std::string("untracked-change:") + o->name, "%s changed the state but cannot be undone:%s", o->name, after.diff(w.cur[id]).c_str());
                if (b1 != b0)
                    return;
                continue;
            }
            w.undone.clear();
            Entry en{id, o->name, delta, w.cur[id], after};
            w.done.push_back(en);
            w.cur[id] = after;
            // other kernels must be untouched
            for (int other : w.ids)
                if (other != id)
                {
                    Snap x = snap(other);
                    if (!(x == w.cur[other]))
                        c.fail(std::string("other-kernel-changed:") + o->name, "%s", x.diff(w.cur[other]).c_str());
                }
            if (c.rng.p(0.5))
            {
                doUndo(w);
                doRedo(w);
            }
        }
        // unwind the full history, then replay part of it
        while (!w.done.empty())
            doUndo(w);
        int k = c.rng.i(0, static_cast<int>(w.undone.size()));
        while (k--)
            doRedo(w);
    }
    Reg r1("C01", caseC01, 8800, 80000);
} // namespace
