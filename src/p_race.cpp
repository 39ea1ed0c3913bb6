// C20: the parallel loops are free of data races and the results do not depend on the number of threads.
#include "pcommon.hpp"
extern "C" void omp_set_num_threads(int);

namespace
{
    uint64_t stateHash(int id)
    {
        Hash h;
        M2 m;
        if (obsMesh2d(id, m) == 0)
            h.add(m.hash());
        for (int prop : {0, 1}) // measures that use circumcentres
        {
            int n = 0;
            if (mkernel_mesh2d_get_property_dimension(id, prop, n) == 0 && n > 0)
            {
                GL g((size_t)n, 0.0);
                if (mkernel_mesh2d_get_property(id, prop, g()) == 0)
                    for (double v : g.v)
                        h.add(v);
            }
        }
        return h.h;
    }
    struct Run
    {
        std::vector<uint64_t> states;
        std::vector<std::string> names;
    };
    Run history(Ctx& c, uint64_t seed, int threads)
    {
        c.rng = Rng(seed);
        Rng& r = c.rng;
        omp_set_num_threads(threads);
        c.op("history with %d threads", threads);
        mkernel_clear_state();
        const int proj = r.p(0.6) ? 0 : r.i(1, 2);
        int id = allocate(proj);
        Run run;
        RawMesh m;
        if (r.p(0.5))
        {
            double h = proj ? 0.05 : 10;
            m = latticeMesh(r, r.i(2, 14), r.i(2, 14), h, {h * r.i(0, 5), h * r.i(0, 5)}, r.p(0.5) ? 0 : 0.4, r.p(0.5) ? 0 : 0.1);
            if (m.edges.empty())
                c.skip();
            for (auto& p : m.nodes)
                p = p + P2{h * r.d(-0.2, 0.2), h * r.d(-0.2, 0.2)};
            OK(c, "mesh2d_set", setMesh2d(id, m));
        }
        else
            for (auto& o : allOps())
                if (std::string(o.name) == "mesh2d_set")
                {
                    Env e(c, id);
                    e.refresh();
                    o.run(e);
                }
        Env e(c, id);
        e.refresh();
        run.states.push_back(stateHash(id));
        run.names.push_back("mesh2d_set");
        int steps = r.i(1, 5);
        for (int s = 0; s < steps && e.hasMesh(); ++s)
        {
            int w = r.i(0, 9);
            std::string name;
            if (w < 4)
            {
                meshkernel::OrthogonalizationParameters p;
                p.outer_iterations = r.i(1, 2);
                p.boundary_iterations = r.i(1, 4);
                p.inner_iterations = r.i(1, 4);
                p.orthogonalization_to_smoothing_factor = r.d(0, 1);
                p.orthogonalization_to_smoothing_factor_at_boundary = r.d(0, 1);
                p.areal_to_angle_smoothing_factor = r.d(0, 1);
                PolySet ps = r.p(0.3) ? genPolySet(r, boxOf(e.m2), false, false) : PolySet{};
                GL pg = ps.list(), lb;
                name = "compute_orthogonalization";
                mkernel_mesh2d_compute_orthogonalization(id, r.p(0.3), p, pg(), lb());
            }
            else if (w == 4 && e.projection == 0)
            {
                name = "rotate";
                mkernel_mesh2d_rotate(id, r.d(-100, 100), r.d(-100, 100), r.d(-180, 180));
            }
            else if (w == 5 && e.projection == 0)
            {
                name = "translate";
                mkernel_mesh2d_translate(id, r.d(-100, 100), r.d(-100, 100));
            }
            else if (w == 6)
            {
                name = "convert_projection";
                mkernel_mesh2d_convert_projection(id, e.projection == 0 ? 1 : 0, "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31");
            }
            else if (w == 7)
            {
                name = "refine";
                meshkernel::MeshRefinementParameters p;
                p.max_num_refinement_iterations = 1;
                p.refinement_type = 2;
                p.min_edge_size = 1e-9;
                PolySet ps = genPolySet(r, boxOf(e.m2), false, false);
                GL pg = ps.list();
                if (e.m2.numFaces() < 300)
                    mkernel_mesh2d_refine_based_on_polygon(id, pg(), p);
            }
            else
            {
                name = "random step";
                randomStep(e, Mesh2);
            }
            e.refresh();
            run.states.push_back(stateHash(id));
            run.names.push_back(name);
            c.count(name);
        }
        return run;
    }
    void runCase(Ctx& c)
    {
        const uint64_t seed = c.rng.next();
        const int k = 2 + (int)(seed % 7);
        Run one = history(c, seed, 1);
        Run many = history(c, seed, k);
        c.evals += one.states.size();
        for (size_t i = 0; i < std::min(one.states.size(), many.states.size()); ++i)
        {
            c.observed(one.states[i]);
            if (one.states[i] != many.states[i])
                c.fail("thread-dependent:" + one.names[i], "the mesh or its measures after %s differ between one and %d threads", one.names[i].c_str(), k);
        }
        if (one.states.size() != many.states.size())
            c.fail("thread-dependent:length", "histories differ in length");
        c.count("threads_" + std::to_string(k));
    }
    Reg r20("C20", runCase, 4000, 40000);
} // namespace
