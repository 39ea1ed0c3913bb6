// C03: the exported 2D topology is consistent after every history, and its faces are the enclosed regions.
#include "ops.hpp"
#include "topo.hpp"
using namespace mk;

namespace
{
    void judge(Ctx& c, Env& e, const std::string& after)
    {
        M2 raw;
        OK(c, "mesh2d_get_data", obsMesh2d(e.id, raw));
        checkTables(c, raw, after, e.projection == 0);
        M2 again;
        OK(c, "mesh2d_get_data", obsMesh2d(e.id, again));
        if (!(again == raw))
            c.fail("topology:unstable:" + after, "reading the mesh twice gives different data");
        // nodes and edges alone
        Mesh2D d{};
        OK(c, "mesh2d_get_dimensions", mkernel_mesh2d_get_dimensions(e.id, d));
        std::vector<double> nx(d.num_nodes), ny(d.num_nodes);
        std::vector<int> en(2 * d.num_edges);
        d.node_x = nx.data();
        d.node_y = ny.data();
        d.edge_nodes = en.data();
        if (d.num_edges > 0)
            OK(c, "mesh2d_get_node_edge_data", mkernel_mesh2d_get_node_edge_data(e.id, d));
        if (d.num_edges > 0 && (nx != raw.nx || ny != raw.ny || en != raw.en))
            c.fail("topology:node-edge-data:" + after, "the node and edge data differ from the full data");
        c.observed(raw.hash());
        if (e.projection != 0)
            return;
        M2 m = raw.compact();
        Planar p = planarRegions(m);
        if (p.usable)
            checkTables(c, raw, after, true, true);
        if (!p.usable)
        {
            c.count("not_planar");
            return;
        }
        std::set<std::vector<int>> want, opt, have;
        for (size_t k = 0; k < p.regions.size(); ++k)
            (p.shares[k] ? opt : want).insert(p.regions[k]);
        for (auto& f : m.faces())
            have.insert(canon(f));
        c.evals++;
        for (auto& w : want)
            if (!have.count(w))
                c.fail("topology:missing-face:" + after, "the region of %zu edges around nodes %d,%d,%d.. is not a face", w.size(), w[0], w[1], w[2]);
        for (auto& f : have)
            if (!want.count(f) && !opt.count(f))
            {
                // edges that protrude from one of its nodes into the region do not prevent it from being a face
                int protrude = 0;
                for (size_t i = 0; i < f.size(); ++i)
                {
                    int n = f[i], nx = f[(i + 1) % f.size()], pv = f[(i + f.size() - 1) % f.size()];
                    P2 u = m.node(nx) - m.node(n), w = m.node(pv) - m.node(n);
                    auto ang = [&](P2 q)
                    { double a = std::atan2(cross(u, q), dot(u, q)); return a < 0 ? a + 2 * M_PI : a; };
                    bool in = false;
                    for (int k = 0; k < m.numEdges(); ++k)
                        for (int q = 0; q < 2; ++q)
                            if (m.en[2 * k + q] == n && m.en[2 * k + 1 - q] != nx && m.en[2 * k + 1 - q] != pv)
                                in = in || ang(m.node(m.en[2 * k + 1 - q]) - m.node(n)) < ang(w);
                    protrude += in;
                }
                if (protrude == 1)
                {
                    c.count("face_with_protruding_edge");
                    continue;
                }
                c.fail("topology:extra-face:" + after, "face with nodes %d,%d,%d.. (%zu) is not a region enclosed by edges", f[0], f[1], f[2], f.size());
            }
        c.count("planar_complete");
        c.count("planar_faces", static_cast<long long>(want.size()));
    }

    void caseC03(Ctx& c)
    {
        int proj = c.rng.p(0.85) ? 0 : c.rng.i(1, 2);
        mkernel_clear_state();
        int id = allocate(proj);
        c.op("allocate_state proj=%d -> %d", proj, id);
        Env e(c, id);
        e.wild = c.rng.p(0.15);
        e.refresh();
        int steps = c.rng.i(2, c.thorough ? 20 : 9);
        for (int s = 0; s < steps; ++s)
        {
            if (s == 0)
            {
                GenOpt o;
                o.h = proj ? 0.1 : 10;
                o.blocks2Prob = 0.15;
                o.holeProb = c.rng.d(0, 0.35);
                o.triProb = c.rng.d(0, 1);
                auto m = genMesh(c.rng, o);
                c.op("mesh2d_set nodes=%zu", m.nodes.size());
                OK(c, "mesh2d_set", setMesh2d(id, m, c.rng.p(0.3)));
                e.refresh();
                judge(c, e, "mesh2d_set");
                if (!proj)
                { // the generated subdivision is known: nothing may get lost
                    M2 x = e.m2.compact();
                    if (x.numNodes() != static_cast<int>(m.nodes.size()) || x.numEdges() != static_cast<int>(m.edges.size()))
                        c.fail("topology:set-loses", "set %zu nodes %zu edges, got %d nodes %d edges", m.nodes.size(), m.edges.size(), x.numNodes(), x.numEdges());
                    std::set<std::vector<int>> have;
                    for (auto& f : e.m2.faces())
                        have.insert(canon(f));
                    for (auto& f : m.faces)
                        if (!have.count(canon(f)))
                            c.fail("topology:set-face", "face %d,%d,%d.. of the mesh that was set is missing", f[0], f[1], f[2]);
                }
                continue;
            }
            std::string name;
            if (c.rng.p(0.15))
            {
                bool b;
                int k;
                bool un = c.rng.p(0.6);
                c.op(un ? "undo" : "redo");
                un ? mkernel_undo_state(b, k) : mkernel_redo_state(b, k);
                int st = 0;
                e.refresh();
                name = un ? "undo" : "redo";
                (void)st;
            }
            else
            {
                auto o = randomStep(e, Mesh2, {"deallocate_state"});
                if (!o)
                    continue;
                name = o->name;
            }
            judge(c, e, name);
        }
    }
    Reg r("C03", caseC03, 13200, 150000);
} // namespace
