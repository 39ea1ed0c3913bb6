// C05: no sequence of calls makes the library crash, read or write outside its memory, run into undefined behaviour,
// hang or leak. The oracle is the instrumentation (address, undefined-behaviour and leak sanitizers, libstdc++ assertions,
// the progress watchdog of check.py) plus the allocation balance below; the workload deliberately does not look at the
// meshes between calls, so that every call may meet tables left behind by the previous one.
#include "fuzz.hpp"
using namespace mk;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();
#define HAVE_SAN 1
#endif

namespace
{
    void caseC05(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        mkernel_set_undo_size(r.p(0.3) ? r.i(0, 6) : 100);
        std::vector<int> ids;
        std::map<int, std::unique_ptr<Env>> envs;
        auto add = [&]
        {
            int proj = r.p(0.7) ? 0 : r.i(1, 2);
            int id = allocate(proj);
            c.op("allocate_state proj=%d -> %d", proj, id);
            ids.push_back(id);
            auto e = std::make_unique<Env>(c, id);
            e->refresh();
            for (auto& o : allOps())
                if ((std::string(o.name) == "mesh2d_set" && r.p(0.85)) || (std::string(o.name) == "curvilinear_set" && r.p(0.5)) || (std::string(o.name) == "mesh1d_set" && r.p(0.4)))
                    o.run(*e);
            e->refresh();
            e->lazy = true;
            e->wild = r.p(0.4);
            envs[id] = std::move(e);
        };
        int nk = r.p(0.25) ? 2 : 1;
        for (int k = 0; k < nk; ++k)
            add();
        auto& api = allApi();
        auto& ops = allOps();
        int steps = r.i(8, c.thorough ? 60 : 24);
        double opShare = r.p(0.5) ? 0.8 : 0.35;
        for (int s = 0; s < steps; ++s)
        {
            int id = r.pick(ids);
            Env& e = *envs[id];
            double u = r.u();
            if (u < 0.1)
            {
                bool b;
                int k;
                bool redo = r.p(0.4);
                c.op(redo ? "redo" : "undo");
                redo ? mkernel_redo_state(b, k) : mkernel_undo_state(b, k);
                c.evals++;
                c.count(redo ? "op:redo" : "op:undo");
                continue;
            }
            if (u < 0.12)
            {
                c.op("deallocate %d", id);
                mkernel_deallocate_state(id);
                if (r.p(0.6))
                {
                    c.op("expunge %d", id);
                    mkernel_expunge_state(id);
                    ids.erase(std::find(ids.begin(), ids.end(), id));
                    envs.erase(id);
                    if (ids.empty())
                        add();
                }
                c.evals++;
                continue;
            }
            if (u < 0.3)
            {
                e.lazy = false;
                e.refresh();
                e.lazy = true;
                if (e.m2.numNodes() > 1500 || e.cg.m * e.cg.n > 1500)
                    return;
            }
            mkernel_get_projection(id, e.projection);
            obsMesh1d(id, e.m1); // masks must have one entry per node
            std::string name;
            int rc = 0;
            if (r.p(opShare))
            {
                const OpDef* o = nullptr;
                for (int t = 0; t < 40 && !o; ++t)
                {
                    const OpDef& q = r.pick(ops);
                    if (q.applies(e) && std::string(q.name) != "deallocate_state")
                        o = &q;
                }
                if (!o)
                    continue;
                rc = o->run(e);
                if (rc == -1)
                    continue;
                name = o->name;
            }
            else
            {
                const ApiFn& fn = r.pick(api);
                if (fn.name.find("orthogonal_grid_from_splines") != std::string::npos || fn.name.find("_state") != std::string::npos)
                    continue;
                Fuzz f(e, id);
                f.hostile = r.p(0.5) ? 0.2 : 0.7;
                if (r.p(0.03))
                    f.id = r.i(-3, 5);
                name = fn.name;
                rc = fuzzCall(f, fn);
            }
            c.evals++;
            if (name.find("convert_projection") != std::string::npos)
            {
                // coordinates outside the domain of the projection are beyond the claim
                e.lazy = false;
                e.refresh();
                e.lazy = true;
                for (auto* v : {&e.m2.nx, &e.m2.ny, &e.cg.x, &e.cg.y})
                    for (double q : *v)
                        if (!std::isfinite(q) || std::abs(q) > 1e8)
                            return;
            }
            if (rc)
                c.op("   -> %d", rc);
            c.count((rc ? "err:" : "ok:") + name);
            c.observed(Hash().str(name).add(rc).add((uint64_t)e.m2.numNodes()).add((uint64_t)e.cg.m).h);
        }
        mkernel_clear_state();
#ifdef HAVE_SAN
        static const bool leakChecks = getenv("MK_LEAKS") != nullptr;
        if (leakChecks)
        {
            c.count("leak_checks");
            if (__lsan_do_recoverable_leak_check())
                c.fail("leak", "memory allocated by the calls of this case is neither released nor reachable any more");
        }
        static size_t base = 0;
        static int warm = 0;
        size_t now = __sanitizer_get_current_allocated_bytes();
        if (++warm == 15)
            base = now;
        c.count("allocation_balance_checks");
        if (warm > 15 && now > base + (64u << 20))
            c.fail("memory-kept", "%zu MB more allocated after discarding all kernels than at the start", (now - base) >> 20);
#endif
    }
    Reg r5("C05", caseC05, 3200, 60000);
} // namespace
