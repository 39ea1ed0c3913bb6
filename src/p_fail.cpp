// C04: a call that reports an error has no effect; calls stay within the kernel they address; queries change nothing.
#include "fuzz.hpp"
using namespace mk;

namespace
{
    struct Watch
    {
        Ctx& c;
        std::vector<int> ids;
        std::map<int, Snap> cur;
        int un = 0, re = 0;
        explicit Watch(Ctx& ctx) : c(ctx) {}
        void take()
        {
            for (int id : ids)
                cur[id] = snap(id);
            mkernel_undo_state_count(un, re);
        }
    };
    void caseC04(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        mkernel_set_undo_size(200);
        Watch w(c);
        int nk = r.p(0.4) ? 2 : 1;
        for (int k = 0; k < nk; ++k)
        {
            int proj = r.p(0.8) ? 0 : r.i(1, 2);
            int id = allocate(proj);
            c.op("allocate_state proj=%d -> %d", proj, id);
            w.ids.push_back(id);
        }
        int dead = allocate(0); // an id that is no longer in use
        mkernel_deallocate_state(dead);
        mkernel_expunge_state(dead);
        for (int id : w.ids)
        {
            Env e(c, id);
            e.refresh();
            for (auto& o : allOps())
                if ((std::string(o.name) == "mesh2d_set" && r.p(0.85)) || (std::string(o.name) == "curvilinear_set" && r.p(0.6)) || (std::string(o.name) == "mesh1d_set" && r.p(0.4)))
                    o.run(e);
        }
        int warm = r.i(0, 5);
        for (int s = 0; s < warm; ++s)
        {
            Env e(c, r.pick(w.ids));
            e.refresh();
            randomStep(e, Mesh2 | Curvi | Mesh1 | Cont, {"deallocate_state"});
        }
        if (r.p(0.4))
        {
            bool b;
            int k;
            c.op("undo");
            mkernel_undo_state(b, k);
        }
        w.take();
        auto& api = allApi();
        auto& ops = allOps();
        int steps = r.i(6, c.thorough ? 40 : 18);
        for (int s = 0; s < steps; ++s)
        {
            int id = r.pick(w.ids);
            Env e(c, id);
            e.refresh();
            std::string name;
            int rc = 0;
            bool query = false, badId = false, session = false;
            if (r.p(0.25))
            {
                const OpDef* o = nullptr;
                for (int t = 0; t < 40 && !o; ++t)
                {
                    const OpDef& q = r.pick(ops);
                    if (q.applies(e) && std::string(q.name) != "deallocate_state")
                        o = &q;
                }
                if (!o)
                    continue;
                rc = o->run(e);
                if (rc == -1)
                    continue;
                name = o->name;
                session = o->kind & Session;
            }
            else
            {
                const ApiFn& fn = r.pick(api);
                if (!fn.hasId || fn.name.find("undo") != std::string::npos || fn.name.find("state") != std::string::npos)
                    continue;
                Fuzz f(e, id);
                f.hostile = r.p(0.5) ? 0.3 : 0.8;
                if (r.p(0.15))
                {
                    static const int odd[] = {-1, -1000, 999999, 2147483647};
                    f.id = r.p(0.5) ? dead : odd[r.i(0, 3)];
                    badId = true;
                    f.plain = r.p(0.5);
                }
                // growing a grid from arbitrary splines is not bounded in time, the workload above has suitable ones
                if (!badId && fn.name.find("orthogonal_grid_from_splines") != std::string::npos)
                    continue;
                name = fn.name;
                query = isQuery(name);
                rc = fuzzCall(f, fn);
            }
            c.evals++;
            if (badId)
            {
                c.count("calls_with_unused_id");
                // polygon and spline tools only use the id for the coordinate system; every call needs an existing one
                if (rc == 0)
                    c.fail("unused-id-accepted:" + name, "%s with a kernel id that is not in use reports success", name.c_str());
            }
            if (rc < 0)
                c.fail("exit-code:" + name, "%s returned exit code %d", name.c_str(), rc);
            int un, re;
            mkernel_undo_state_count(un, re);
            if (rc != 0)
            {
                c.op("   -> %d", rc);
                c.count("failed_calls");
                if (lastError().empty())
                    c.fail("no-message:" + name, "%s failed with %d and no error message is available", name.c_str(), rc);
            }
            bool frozen = (rc != 0 || query) && !session;
            for (int k : w.ids)
            {
                Snap x = snap(k);
                if (k != id || badId)
                {
                    if (!(x == w.cur[k]))
                        c.fail("other-kernel-changed:" + name, "%s on kernel %d changed kernel %d:%s", name.c_str(), badId ? -1 : id, k, x.diff(w.cur[k]).c_str());
                }
                else if (frozen && !(x == w.cur[k]))
                    c.fail((rc ? "failed-call-changed:" : "query-changed:") + name, "%s %s but changed the state:%s", name.c_str(), rc ? "reported an error" : "is a query", x.diff(w.cur[k]).c_str());
                else
                    w.cur[k] = x;
            }
            if (frozen)
            {
                if (un != w.un || re != w.re)
                    c.fail((rc ? "failed-call-undo:" : "query-undo:") + name, "%s %s but the number of actions to undo/redo went from %d/%d to %d/%d", name.c_str(), rc ? "reported an error" : "is a query", w.un, w.re, un, re);
                c.count(rc ? "fail:" + name : "query:" + name);
                c.observed(Hash().str(name).add(rc).add(w.cur[id].hash()).h);
            }
            w.un = un;
            w.re = re;
            if (w.cur[id].m2.numNodes() > 1500 || w.cur[id].cg.m * w.cur[id].cg.n > 1500)
                return;
            if (!session && rc == 0 && !query)
                c.count("op:" + name);
        }
    }
    Reg r4("C04", caseC04, 3600, 40000);
} // namespace
