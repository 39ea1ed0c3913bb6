#include "ops.hpp"
using namespace mk;
using meshkernel::CurvilinearParameters;
using meshkernel::MakeGridParameters;
using meshkernel::MeshRefinementParameters;
using meshkernel::OrthogonalizationParameters;
using meshkernel::SplinesToCurvilinearParameters;

int allocate(int projection)
{
    int id = -1;
    if (mkernel_allocate_state(projection, id) != 0)
        return -1;
    return id;
}

void Env::refresh()
{
    obsMesh2d(id, m2);
    obsMesh1d(id, m1);
    obsCurvi(id, cg);
    mkernel_get_projection(id, projection);
}
int Env::rndNode()
{
    for (int t = 0; t < 50 && m2.numNodes() > 0; ++t)
    {
        int n = r.i(0, m2.numNodes() - 1);
        if (m2.nodeValid(n))
            return n;
    }
    return -1;
}
int Env::rndEdge()
{
    for (int t = 0; t < 50 && m2.numEdges() > 0; ++t)
    {
        int n = r.i(0, m2.numEdges() - 1);
        if (m2.edgeValid(n))
            return n;
    }
    return -1;
}
double Env::cell() const
{
    double s = 0;
    int k = 0;
    for (int e = 0; e < m2.numEdges() && k < 50; ++e)
        if (m2.edgeValid(e))
        {
            s += dist(m2.node(m2.en[2 * e]), m2.node(m2.en[2 * e + 1]));
            k++;
        }
    return k ? s / k : 1.0;
}

namespace
{
    bool always(const Env&) { return true; }
    bool needMesh(const Env& e) { return e.hasMesh(); }
    bool needSmallMesh(const Env& e) { return e.hasMesh() && e.m2.nValidNodes < 600; }
    bool cartMesh(const Env& e) { return e.hasMesh() && e.projection == 0; }
    bool cartSmallMesh(const Env& e) { return e.hasMesh() && e.projection == 0 && e.m2.nValidNodes < 600; }
    bool cart(const Env& e) { return e.projection == 0; }
    bool needGrid(const Env& e) { return e.hasGrid(); }
    bool cartGrid(const Env& e) { return e.hasGrid() && e.projection == 0; }
    bool smallCartGrid(const Env& e) { return e.hasGrid() && e.projection == 0 && e.cg.m * e.cg.n < 600; }
    bool bothMeshes(const Env& e) { return e.hasMesh() && e.m1.numNodes() > 1 && e.projection == 0; }

    double H(const Env& e) { return e.projection == 0 ? 10.0 : 0.1; }

    // where a new, separate part of the mesh can be placed
    P2 freeSpot(Env& e, double h)
    {
        if (e.wild || !e.hasMesh() || e.projection != 0)
            return {e.r.d(-20, 20) * h, e.r.d(-20, 20) * h};
        Box b = boxOf(e.m2);
        return {b.x1 + e.r.d(2, 6) * h, b.y0 + e.r.d(-3, 3) * h};
    }
    RawMesh newMesh(Env& e)
    {
        GenOpt o;
        o.h = H(e);
        o.maxN = 5;
        o.blocks2Prob = 0.1;
        o.origin = freeSpot(e, o.h);
        return genMesh(e.r, o);
    }
    P2 gridPt(Env& e, int n, int m) { return e.cg.at(n, m); }
    // two random valid grid nodes, lower-left first
    bool gridBlock(Env& e, P2& a, P2& b, int minSpan = 1, int* idx = nullptr)
    {
        for (int t = 0; t < 40; ++t)
        {
            int n0 = e.r.i(0, e.cg.n - 1), n1 = e.r.i(0, e.cg.n - 1), m0 = e.r.i(0, e.cg.m - 1), m1 = e.r.i(0, e.cg.m - 1);
            if (n0 > n1)
                std::swap(n0, n1);
            if (m0 > m1)
                std::swap(m0, m1);
            if (n1 - n0 < minSpan || m1 - m0 < minSpan || !e.cg.valid(n0, m0) || !e.cg.valid(n1, m1))
                continue;
            a = gridPt(e, n0, m0);
            b = gridPt(e, n1, m1);
            if (idx)
            {
                idx[0] = n0;
                idx[1] = m0;
                idx[2] = n1;
                idx[3] = m1;
            }
            return true;
        }
        return false;
    }
    bool gridLine(Env& e, P2& a, P2& b, int minSpan = 1)
    {
        for (int t = 0; t < 40; ++t)
        {
            bool alongM = e.r.p(0.5);
            int n0, n1, m0, m1;
            if (alongM)
            {
                n0 = n1 = e.r.i(0, e.cg.n - 1);
                m0 = e.r.i(0, e.cg.m - 1);
                m1 = e.r.i(0, e.cg.m - 1);
                if (m0 > m1)
                    std::swap(m0, m1);
                if (m1 - m0 < minSpan)
                    continue;
            }
            else
            {
                m0 = m1 = e.r.i(0, e.cg.m - 1);
                n0 = e.r.i(0, e.cg.n - 1);
                n1 = e.r.i(0, e.cg.n - 1);
                if (n0 > n1)
                    std::swap(n0, n1);
                if (n1 - n0 < minSpan)
                    continue;
            }
            if (!e.cg.valid(n0, m0) || !e.cg.valid(n1, m1))
                continue;
            a = gridPt(e, n0, m0);
            b = gridPt(e, n1, m1);
            return true;
        }
        return false;
    }
    P2 rndGridNode(Env& e)
    {
        for (int t = 0; t < 50; ++t)
        {
            int n = e.r.i(0, e.cg.n - 1), m = e.r.i(0, e.cg.m - 1);
            if (e.cg.valid(n, m))
                return e.cg.at(n, m);
        }
        return {0, 0};
    }

    MakeGridParameters gridParams(Env& e)
    {
        MakeGridParameters p;
        p.num_columns = e.r.i(1, 7);
        p.num_rows = e.r.i(1, 7);
        p.angle = e.r.p(0.5) ? 0.0 : e.r.d(-60, 60);
        P2 q = freeSpot(e, H(e));
        if (e.hasMesh() && e.projection == 0 && !e.wild)
            q.x += 12 * H(e); // room for a rotated grid
        p.origin_x = q.x;
        p.origin_y = q.y;
        p.block_size_x = H(e) * e.r.d(0.5, 2);
        p.block_size_y = H(e) * e.r.d(0.5, 2);
        p.upper_right_x = p.origin_x + H(e) * e.r.d(3, 8);
        p.upper_right_y = p.origin_y + H(e) * e.r.d(3, 8);
        return p;
    }
    GL closedPoly(Env& e, double scale = 1.0)
    {
        P2 c = freeSpot(e, H(e)) + P2{4 * H(e) * scale, 0};
        return GL(starPolygon(e.r, c, 1.5 * H(e) * scale, 3.5 * H(e) * scale, e.r.i(4, 9)));
    }
    GL selPoly(Env& e, double pEmpty = 0.3, bool holes = true)
    {
        if (e.r.p(pEmpty))
            return GL();
        return genPolySet(e.r, boxOf(e.m2), holes && e.r.p(0.5), e.r.p(0.5)).list();
    }
    GL landBoundary(Env& e, const Box& b)
    {
        GL g;
        int n = e.r.i(3, 8);
        bool horiz = e.r.p(0.5);
        double off = horiz ? (e.r.p(0.5) ? b.y0 : b.y1) : (e.r.p(0.5) ? b.x0 : b.x1);
        for (int k = 0; k < n; ++k)
        {
            double t = -0.1 + 1.2 * k / (n - 1), w = e.r.d(-0.5, 0.5) * H(e);
            g.add(horiz ? P2{b.x0 + t * b.w(), off + w} : P2{off + w, b.y0 + t * b.ht()});
        }
        return g;
    }
    MeshRefinementParameters refPar(Env& e)
    {
        MeshRefinementParameters p;
        p.max_num_refinement_iterations = e.r.i(1, 2);
        p.refine_intersected = e.r.i(0, 1);
        p.use_mass_center_when_refining = e.r.i(0, 1);
        p.min_edge_size = e.cell() * e.r.d(0.1, 0.9);
        if (e.projection != 0)
            p.min_edge_size *= 111000;
        p.refinement_type = e.r.i(1, 3);
        p.connect_hanging_nodes = e.r.p(0.75) ? 1 : 0;
        p.account_for_samples_outside = e.r.i(0, 1);
        p.smoothing_iterations = e.r.i(0, 3);
        p.max_courant_time = e.r.d(1, 200);
        p.directional_refinement = 0;
        return p;
    }
    GL splinesGrid(Env& e, int nu, int nv)
    {
        // nu horizontal and nv vertical splines crossing each other
        GL g;
        double h = H(e) * 10;
        P2 o{e.r.d(-5, 5) * h, e.r.d(-5, 5) * h};
        bool first = true;
        auto sep = [&]
        {
            if (!first)
                g.add({MISSING, MISSING});
            first = false;
        };
        for (int j = 0; j < nu; ++j)
        {
            sep();
            for (int k = 0; k < 4; ++k)
                g.add({o.x + h * (-0.3 + (nv - 1 + 0.6) * k / 3.0), o.y + h * (j + e.r.d(-0.1, 0.1))});
        }
        for (int i = 0; i < nv; ++i)
        {
            sep();
            for (int k = 0; k < 3; ++k)
                g.add({o.x + h * (i + e.r.d(-0.05, 0.05)), o.y + h * (-0.3 + (nu - 1 + 0.6) * k / 2.0)});
        }
        return g;
    }
    OrthogonalizationParameters orthoPar(Env& e)
    {
        OrthogonalizationParameters p;
        p.outer_iterations = e.r.i(1, 2);
        p.boundary_iterations = e.r.i(1, 5);
        p.inner_iterations = e.r.i(1, 5);
        p.orthogonalization_to_smoothing_factor = e.r.d(0, 1);
        p.orthogonalization_to_smoothing_factor_at_boundary = e.r.d(0, 1);
        p.areal_to_angle_smoothing_factor = e.r.d(0, 1);
        return p;
    }
    std::vector<int> mask1d(Env& e, double p)
    {
        std::vector<int> m(std::max(1, e.m1.numNodes()));
        for (auto& v : m)
            v = e.r.p(p) ? 1 : 0;
        return m;
    }
    void network(Env& e, GL& g, int nl)
    {
        Box b;
        if (e.hasMesh())
            b = boxOf(e.m2);
        else
        {
            b.add({0, 0});
            b.add({H(e) * 5, H(e) * 5});
        }
        for (int k = 0; k < nl; ++k)
        {
            if (k)
                g.add({MISSING, MISSING});
            P2 p = b.rnd(e.r);
            int n = e.r.i(2, 5);
            double a = e.r.d(0, 6.28);
            for (int i = 0; i < n; ++i)
            {
                g.add(p);
                a += e.r.d(-0.7, 0.7);
                p = p + P2{std::cos(a), std::sin(a)} * (H(e) * e.r.d(0.5, 2));
            }
        }
    }

    std::vector<OpDef> makeOps()
    {
        std::vector<OpDef> v;
        auto A = [&](const char* n, int k, bool (*ap)(const Env&), int (*f)(Env&))
        { v.push_back({n, k, ap, f}); };

        A("mesh2d_set", Tracked | Mesh2, always, [](Env& e)
          { auto m = newMesh(e); bool wf = e.r.p(0.3); e.c.op("mesh2d_set nodes=%zu edges=%zu faces=%d", m.nodes.size(), m.edges.size(), wf); return setMesh2d(e.id, m, wf); });
        A("mesh2d_add", Tracked | Mesh2, [](const Env& e)
          { return e.m2.nValidNodes < 400; }, [](Env& e)
          { auto m = newMesh(e); e.c.op("mesh2d_add nodes=%zu", m.nodes.size()); return addMesh2d(e.id, m); });
        A("mesh2d_make_rectangular_mesh", Tracked | Mesh2, [](const Env& e)
          { return e.m2.nValidNodes < 400; }, [](Env& e)
          { auto p = gridParams(e); e.c.op("make_rectangular_mesh %dx%d angle=%.3g", p.num_columns, p.num_rows, p.angle); return mkernel_mesh2d_make_rectangular_mesh(e.id, p); });
        A("mesh2d_make_rectangular_mesh_from_polygon", Tracked | Mesh2, [](const Env& e)
          { return e.m2.nValidNodes < 400; }, [](Env& e)
          { auto p = gridParams(e); auto g = closedPoly(e); e.c.op("make_rectangular_mesh_from_polygon np=%zu", g.size()); return mkernel_mesh2d_make_rectangular_mesh_from_polygon(e.id, p, g()); });
        A("mesh2d_make_rectangular_mesh_on_extension", Tracked | Mesh2, [](const Env& e)
          { return e.m2.nValidNodes < 400; }, [](Env& e)
          { auto p = gridParams(e); e.c.op("make_rectangular_mesh_on_extension"); return mkernel_mesh2d_make_rectangular_mesh_on_extension(e.id, p); });
        A("mesh2d_make_triangular_mesh_from_polygon", Tracked | Mesh2, [](const Env& e)
          { return e.m2.nValidNodes < 400 && e.projection == 0; }, [](Env& e)
          { auto g = closedPoly(e); e.c.op("make_triangular_mesh_from_polygon np=%zu", g.size()); return mkernel_mesh2d_make_triangular_mesh_from_polygon(e.id, g()); });
        A("mesh2d_make_triangular_mesh_from_samples", Tracked | Mesh2, [](const Env& e)
          { return e.m2.nValidNodes < 400 && e.projection == 0; }, [](Env& e)
          { Box b; b.add(freeSpot(e, 10)); b.add({b.x0+60, b.y0+60}); auto g = genSamples(e.r, b, e.r.i(4, 40), 0, 1); e.c.op("make_triangular_mesh_from_samples n=%zu", g.size()); return mkernel_mesh2d_make_triangular_mesh_from_samples(e.id, g()); });
        A("mesh2d_make_global", Tracked | Mesh2, [](const Env& e)
          { return e.projection != 0 && e.m2.nValidNodes < 100; }, [](Env& e)
          { int a = e.r.i(8, 20), b = e.r.i(4, 10); e.c.op("make_global %d %d", a, b); return mkernel_mesh2d_make_global(e.id, a, b); });
        A("mesh2d_delete", Tracked | Mesh2, needMesh, [](Env& e)
          { auto g = selPoly(e, 0.05); int opt = e.r.i(0, 2), inv = e.r.p(0.25); e.c.op("mesh2d_delete opt=%d inv=%d np=%zu", opt, inv, g.size()); return mkernel_mesh2d_delete(e.id, g(), opt, inv); });
        A("mesh2d_delete_node", Tracked | Mesh2, needMesh, [](Env& e)
          { int n = e.rndNode(); if (n < 0) return -1; e.c.op("mesh2d_delete_node %d", n); return mkernel_mesh2d_delete_node(e.id, n); });
        A("mesh2d_delete_edge", Tracked | Mesh2, needMesh, [](Env& e)
          { Box b = boxOf(e.m2); P2 q = b.rnd(e.r); e.c.op("mesh2d_delete_edge %.17g %.17g", q.x, q.y); return mkernel_mesh2d_delete_edge(e.id, q.x, q.y, b.x0 - 1, b.y0 - 1, b.x1 + 1, b.y1 + 1); });
        A("mesh2d_delete_edge_by_index", Tracked | Mesh2, needMesh, [](Env& e)
          { int n = e.rndEdge(); if (n < 0) return -1; e.c.op("mesh2d_delete_edge_by_index %d", n); return mkernel_mesh2d_delete_edge_by_index(e.id, n); });
        A("mesh2d_insert_edge", Tracked | Mesh2, needMesh, [](Env& e)
          {
            int a = -1, b = -1, k = -1;
            if (e.wild && e.r.p(0.3)) { a = e.rndNode(); b = e.rndNode(); }
            else // a diagonal of a face
                for (int t = 0; t < 20 && a < 0; ++t)
                {
                    auto fs = e.m2.faces();
                    if (fs.empty()) return -1;
                    auto& f = fs[e.r.i(0, static_cast<int>(fs.size()) - 1)];
                    if (f.size() < 4) continue;
                    int s = e.r.i(0, static_cast<int>(f.size()) - 1);
                    a = f[s]; b = f[(s + 2) % f.size()];
                }
            if (a < 0 || b < 0 || a == b) return -1;
            e.c.op("mesh2d_insert_edge %d %d", a, b); return mkernel_mesh2d_insert_edge(e.id, a, b, k); });
        A("mesh2d_insert_edge_from_coordinates", Tracked | Mesh2, needMesh, [](Env& e)
          {
            Box b = boxOf(e.m2); double h = e.cell(); P2 p, q; int i, j, k;
            if (e.wild && e.r.p(0.5)) { p = b.rnd(e.r, 0.3); q = b.rnd(e.r, 0.3); int n = e.rndNode(); if (n >= 0 && e.r.p(0.6)) q = e.m2.node(n); }
            else
            { // outwards from an extreme node, or completely outside
                int n = -1; for (int w = 0; w < e.m2.numNodes(); ++w) if (e.m2.nodeValid(w) && (n < 0 || e.m2.nx[w] > e.m2.nx[n])) n = w;
                p = e.m2.node(n); q = p + P2{h * e.r.d(0.6, 1.5), h * e.r.d(-0.4, 0.4)};
                if (e.r.p(0.3)) { p = p + P2{3 * h, 0}; q = q + P2{3 * h, 0}; }
                if (e.r.p(0.5)) std::swap(p, q);
            }
            e.c.op("insert_edge_from_coordinates %.17g %.17g %.17g %.17g", p.x, p.y, q.x, q.y); return mkernel_mesh2d_insert_edge_from_coordinates(e.id, p.x, p.y, q.x, q.y, i, j, k); });
        A("mesh2d_move_node", Tracked | Mesh2 | Geo, needMesh, [](Env& e)
          { int n = e.rndNode(); if (n < 0) return -1; double h = e.cell() * e.r.d(0.02, e.wild ? 1.5 : 0.2), a = e.r.d(0, 6.28); P2 q = e.m2.node(n) + P2{h * std::cos(a), h * std::sin(a)}; e.c.op("mesh2d_move_node %d -> %.17g %.17g", n, q.x, q.y); return mkernel_mesh2d_move_node(e.id, q.x, q.y, n); });
        A("mesh2d_merge_nodes", Tracked | Mesh2, needMesh, [](Env& e)
          { auto g = selPoly(e); e.c.op("mesh2d_merge_nodes np=%zu", g.size()); return mkernel_mesh2d_merge_nodes(e.id, g()); });
        A("mesh2d_merge_nodes_with_merging_distance", Tracked | Mesh2, needMesh, [](Env& e)
          { auto g = selPoly(e); double d = e.cell() * e.r.d(0.05, e.wild ? 1.2 : 0.4) * (e.projection ? 111000 : 1); e.c.op("merge_nodes_with_merging_distance %g np=%zu", d, g.size()); return mkernel_mesh2d_merge_nodes_with_merging_distance(e.id, g(), d); });
        A("mesh2d_merge_two_nodes", Tracked | Mesh2, needMesh, [](Env& e)
          { int k = e.rndEdge(); if (k < 0) return -1; int a = e.m2.en[2 * k], b = e.m2.en[2 * k + 1]; if (e.wild && e.r.p(0.2)) b = e.rndNode(); if (e.r.p(0.5)) std::swap(a, b); e.c.op("merge_two_nodes %d %d", a, b); return mkernel_mesh2d_merge_two_nodes(e.id, a, b); });
        A("mesh2d_refine_based_on_polygon", Tracked | Mesh2, needSmallMesh, [](Env& e)
          { auto g = selPoly(e, 0.2, false); auto p = refPar(e); p.max_num_refinement_iterations = 1; e.c.op("refine_based_on_polygon np=%zu", g.size()); return mkernel_mesh2d_refine_based_on_polygon(e.id, g(), p); });
        A("mesh2d_refine_based_on_samples", Tracked | Mesh2, cartSmallMesh, [](Env& e)
          { auto g = genSamples(e.r, boxOf(e.m2), e.r.i(3, 60), 0.1, 3); auto p = refPar(e); e.c.op("refine_based_on_samples n=%zu type=%d", g.size(), p.refinement_type); return mkernel_mesh2d_refine_based_on_samples(e.id, g(), 1.0, 1, p); });
        A("mesh2d_refine_based_on_gridded_samples", Tracked | Mesh2, cartSmallMesh, [](Env& e)
          { Box b = boxOf(e.m2); GriddedSamples s{}; s.num_x = e.r.i(4, 9); s.num_y = e.r.i(4, 9); s.x_origin = b.x0 - 1; s.y_origin = b.y0 - 1; s.cell_size = std::max(b.w(), b.ht()) / 3; std::vector<float> f(s.num_x * s.num_y); for (auto& q : f) q = static_cast<float>(e.r.d(0.5, 20)); s.values = f.data(); int ty; mkernel_get_interpolation_type_float(ty); s.value_type = ty; auto p = refPar(e); p.refinement_type = 1; e.c.op("refine_based_on_gridded_samples"); return mkernel_mesh2d_refine_based_on_gridded_samples(e.id, s, p, e.r.p(0.5)); });
        A("mesh2d_casulli_refinement", Tracked | Mesh2, [](const Env& e)
          { return e.hasMesh() && e.m2.nValidNodes < 250; }, [](Env& e)
          { e.c.op("casulli_refinement"); return mkernel_mesh2d_casulli_refinement(e.id); });
        A("mesh2d_casulli_refinement_on_polygon", Tracked | Mesh2, [](const Env& e)
          { return e.hasMesh() && e.m2.nValidNodes < 250; }, [](Env& e)
          { auto g = selPoly(e, 0.05, false); e.c.op("casulli_refinement_on_polygon np=%zu", g.size()); return mkernel_mesh2d_casulli_refinement_on_polygon(e.id, g()); });
        A("mesh2d_casulli_derefinement", Tracked | Mesh2, needSmallMesh, [](Env& e)
          { e.c.op("casulli_derefinement"); return mkernel_mesh2d_casulli_derefinement(e.id); });
        A("mesh2d_casulli_derefinement_on_polygon", Tracked | Mesh2, needSmallMesh, [](Env& e)
          { auto g = selPoly(e, 0.05, false); e.c.op("casulli_derefinement_on_polygon np=%zu", g.size()); return mkernel_mesh2d_casulli_derefinement_on_polygon(e.id, g()); });
        A("mesh2d_flip_edges", Tracked | Mesh2, cartSmallMesh, [](Env& e)
          { auto g = selPoly(e, 0.5, false); GL lb; int tri = e.r.i(0, 1); e.c.op("flip_edges tri=%d np=%zu", tri, g.size()); return mkernel_mesh2d_flip_edges(e.id, tri, 0, g(), lb()); });
        A("mesh2d_delete_hanging_edges", Tracked | Mesh2, needMesh, [](Env& e)
          { e.c.op("delete_hanging_edges"); return mkernel_mesh2d_delete_hanging_edges(e.id); });
        A("mesh2d_delete_small_flow_edges_and_small_triangles", Tracked | Mesh2, needMesh, [](Env& e)
          { double a = e.r.d(0.1, 1.2), b = e.r.d(0.05, 0.5); e.c.op("delete_small_flow_edges %g %g", a, b); return mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(e.id, a, b); });
        A("mesh2d_remove_disconnected_regions", Tracked | Mesh2, needMesh, [](Env& e)
          { e.c.op("remove_disconnected_regions"); return mkernel_mesh2d_remove_disconnected_regions(e.id); });
        A("mesh2d_rotate", Tracked | Mesh2 | Geo, needMesh, [](Env& e)
          { P2 q = boxOf(e.m2).rnd(e.r, 1); double t = e.r.d(-180, 180); e.c.op("rotate %g %g %g", q.x, q.y, t); return mkernel_mesh2d_rotate(e.id, q.x, q.y, t); });
        A("mesh2d_translate", Tracked | Mesh2 | Geo, needMesh, [](Env& e)
          { P2 q{e.r.d(-3, 3) * H(e), e.r.d(-3, 3) * H(e)}; e.c.op("translate %g %g", q.x, q.y); return mkernel_mesh2d_translate(e.id, q.x, q.y); });
        A("mesh2d_convert_projection", Tracked | Mesh2 | Geo, [](const Env& e)
          { if (!e.hasMesh()) return false; Box b = boxOf(e.m2); return e.projection == 0 ? b.x0 > -3e5 && b.x1 < 1.3e6 && b.y0 > -6e6 && b.y1 < 6e6 : b.x0 > -4 && b.x1 < 10 && b.y0 > -60 && b.y1 < 60; }, [](Env& e)
          { int to = e.projection == 0 ? 1 : 0; const char* z = "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"; e.c.op("convert_projection -> %d", to); return mkernel_mesh2d_convert_projection(e.id, to, z); });
        A("mesh2d_snap_to_landboundary", Tracked | Mesh2 | Geo, cartMesh, [](Env& e)
          { auto lb = landBoundary(e, boxOf(e.m2)); auto g = selPoly(e, 0.6, false); e.c.op("mesh2d_snap_to_landboundary nl=%zu np=%zu", lb.size(), g.size()); return mkernel_mesh2d_snap_to_landboundary(e.id, g(), lb()); });
        A("mesh2d_split_row", Tracked | Mesh2, needSmallMesh, [](Env& e)
          { int k = e.rndEdge(); if (k < 0) return -1; e.c.op("split_row %d %d", e.m2.en[2 * k], e.m2.en[2 * k + 1]); return mkernel_mesh2d_split_row(e.id, e.m2.en[2 * k], e.m2.en[2 * k + 1]); });
        A("mesh2d_connect_meshes", Tracked | Mesh2, cartSmallMesh, [](Env& e)
          {
            Box b = boxOf(e.m2); GenOpt o; o.h = 10 * e.r.d(0.4, 1.1); o.perturb = 0; o.triProb = 0; o.holeProb = 0; o.randomAffine = false; o.maxN = 6; o.origin = {b.x1 + e.r.d(0, 2), b.y0};
            auto m = genMesh(e.r, o); std::vector<double> x, y; std::vector<int> en; for (auto& p : m.nodes) { x.push_back(p.x); y.push_back(p.y); } for (auto& q : m.edges) { en.push_back(q[0]); en.push_back(q[1]); }
            Mesh2D d{}; d.num_nodes = static_cast<int>(x.size()); d.num_edges = static_cast<int>(en.size() / 2); d.node_x = x.data(); d.node_y = y.data(); d.edge_nodes = en.data();
            e.c.op("connect_meshes"); return mkernel_mesh2d_connect_meshes(e.id, d, 0.4); });
        A("mesh2d_compute_orthogonalization", Tracked | Mesh2 | Geo, cartSmallMesh, [](Env& e)
          { auto p = orthoPar(e); auto g = selPoly(e, 0.5, false); GL lb; int o = 0; if (e.r.p(0.3)) { lb = landBoundary(e, boxOf(e.m2)); o = e.r.i(1, 4); } e.c.op("compute_orthogonalization proj=%d np=%zu", o, g.size()); return mkernel_mesh2d_compute_orthogonalization(e.id, o, p, g(), lb()); });
        A("mesh2d_interactive_orthogonalization", Tracked | Mesh2 | Geo | Session, cartSmallMesh, [](Env& e)
          { auto p = orthoPar(e); auto g = selPoly(e, 0.6, false); GL lb; e.c.op("interactive orthogonalization"); int rc = mkernel_mesh2d_initialize_orthogonalization(e.id, 0, p, g(), lb()); if (rc) return rc;
            int k = e.r.i(1, 2); for (int i = 0; i < k && !rc; ++i) { rc = mkernel_mesh2d_prepare_outer_iteration_orthogonalization(e.id); if (!rc) rc = mkernel_mesh2d_compute_inner_ortogonalization_iteration(e.id); if (!rc) rc = mkernel_mesh2d_finalize_inner_ortogonalization_iteration(e.id); }
            int rc2 = mkernel_mesh2d_delete_orthogonalization(e.id); return rc ? rc : rc2; });
        A("mesh2d_convert_to_curvilinear", Tracked | Mesh2 | Curvi, cartMesh, [](Env& e)
          { P2 q = boxOf(e.m2).rnd(e.r); e.c.op("convert_to_curvilinear %.17g %.17g", q.x, q.y); return mkernel_mesh2d_convert_to_curvilinear(e.id, q.x, q.y); });

        // ---- 1D
        A("mesh1d_set", Tracked | Mesh1, always, [](Env& e)
          { Box b; if (e.hasMesh()) b = boxOf(e.m2); else { b.add({0, 0}); b.add({50, 50}); } int n = e.r.i(2, 8); std::vector<P2> p; std::vector<std::array<int, 2>> ed; for (int i = 0; i < n; ++i) p.push_back(b.rnd(e.r)); for (int i = 0; i + 1 < n; ++i) ed.push_back({i, i + 1}); e.c.op("mesh1d_set n=%d", n); return setMesh1d(e.id, p, ed); });
        A("mesh1d_add", Tracked | Mesh1, [](const Env& e)
          { return e.m1.numNodes() < 60; }, [](Env& e)
          { std::vector<double> x, y; std::vector<int> en; int n = e.r.i(2, 6); for (int i = 0; i < n; ++i) { x.push_back(e.r.d(0, 50)); y.push_back(e.r.d(0, 50)); if (i) { en.push_back(i - 1); en.push_back(i); } } Mesh1D d{}; d.num_nodes = n; d.num_edges = n - 1; d.num_valid_nodes = n; d.num_valid_edges = n - 1; d.node_x = x.data(); d.node_y = y.data(); d.edge_nodes = en.data(); e.c.op("mesh1d_add n=%d", n); return mkernel_mesh1d_add(e.id, d); });
        A("network1d_session", Tracked | Mesh1 | Session, [](const Env& e)
          { return e.m1.numNodes() < 100; }, [](Env& e)
          { GL g; int nl = e.r.i(1, 3); network(e, g, nl); e.c.op("network1d_set + chainages + to_mesh1d lines=%d", nl); int rc = mkernel_network1d_set(e.id, g()); if (rc) return rc; double off = H(e) * e.r.d(0.2, 1) * (e.projection ? 111000 : 1); rc = mkernel_network1d_compute_offsetted_chainages(e.id, off); if (rc) return rc; return mkernel_network1d_to_mesh1d(e.id, off * 0.01); });

        // ---- contacts
        A("contacts_compute_single", Tracked | Cont, bothMeshes, [](Env& e)
          { auto m = mask1d(e, 0.8); GL g = selPoly(e, 0.5, false); if (!g.size()) { Box b = boxOf(e.m2); g = GL(rectPolygon(b.x0 - 50, b.y0 - 50, b.x1 + 50, b.y1 + 50)); } e.c.op("contacts_compute_single"); return mkernel_contacts_compute_single(e.id, m.data(), g(), e.r.d(0, 2)); });
        A("contacts_compute_multiple", Tracked | Cont, bothMeshes, [](Env& e)
          { auto m = mask1d(e, 0.8); e.c.op("contacts_compute_multiple"); return mkernel_contacts_compute_multiple(e.id, m.data()); });
        A("contacts_compute_with_polygons", Tracked | Cont, bothMeshes, [](Env& e)
          { auto m = mask1d(e, 0.8); GL g = selPoly(e, 0, false); e.c.op("contacts_compute_with_polygons"); return mkernel_contacts_compute_with_polygons(e.id, m.data(), g()); });
        A("contacts_compute_with_points", Tracked | Cont, bothMeshes, [](Env& e)
          { auto m = mask1d(e, 0.8); GL g = genSamples(e.r, boxOf(e.m2), e.r.i(1, 10), 0, 1); e.c.op("contacts_compute_with_points"); return mkernel_contacts_compute_with_points(e.id, m.data(), g()); });
        A("contacts_compute_boundary", Tracked | Cont, bothMeshes, [](Env& e)
          { auto m = mask1d(e, 0.8); GL g = selPoly(e, 0.5, false); if (!g.size()) { Box b = boxOf(e.m2); g = GL(rectPolygon(b.x0 - 50, b.y0 - 50, b.x1 + 50, b.y1 + 50)); } e.c.op("contacts_compute_boundary"); return mkernel_contacts_compute_boundary(e.id, m.data(), g(), e.r.d(1, 30)); });

        // ---- curvilinear
        A("curvilinear_set", Tracked | Curvi, always, [](Env& e)
          { CG g = genCurvi(e.r, 1, 7, H(e), 0.15, {e.r.d(-5, 5) * H(e), e.r.d(-5, 5) * H(e)}); e.c.op("curvilinear_set %dx%d", g.m, g.n); return setCurvi(e.id, g); });
        A("curvilinear_compute_rectangular_grid", Tracked | Curvi, always, [](Env& e)
          { auto p = gridParams(e); p.num_columns++; p.num_rows++; e.c.op("curvilinear_compute_rectangular_grid %dx%d", p.num_columns, p.num_rows); return mkernel_curvilinear_compute_rectangular_grid(e.id, p); });
        A("curvilinear_compute_rectangular_grid_from_polygon", Tracked | Curvi, cart, [](Env& e)
          { auto p = gridParams(e); auto g = closedPoly(e); e.c.op("curvilinear_compute_rectangular_grid_from_polygon"); return mkernel_curvilinear_compute_rectangular_grid_from_polygon(e.id, p, g()); });
        A("curvilinear_compute_rectangular_grid_on_extension", Tracked | Curvi, always, [](Env& e)
          { auto p = gridParams(e); e.c.op("curvilinear_compute_rectangular_grid_on_extension"); return mkernel_curvilinear_compute_rectangular_grid_on_extension(e.id, p); });
        A("curvilinear_compute_circular_grid", Tracked | Curvi, cart, [](Env& e)
          { auto p = gridParams(e); p.num_columns = e.r.i(3, 10); p.num_rows = e.r.i(3, 8); p.radius_curvature = e.r.d(50, 200); p.angle = e.r.d(-45, 45); e.c.op("curvilinear_compute_circular_grid %dx%d", p.num_columns, p.num_rows); return mkernel_curvilinear_compute_circular_grid(e.id, p); });
        A("curvilinear_compute_transfinite_from_splines", Tracked | Curvi, cart, [](Env& e)
          { auto g = splinesGrid(e, e.r.i(2, 3), e.r.i(2, 3)); CurvilinearParameters p; p.m_refinement = e.r.i(2, 6); p.n_refinement = e.r.i(2, 6); e.c.op("curvilinear_compute_transfinite_from_splines"); return mkernel_curvilinear_compute_transfinite_from_splines(e.id, g(), p); });
        A("curvilinear_compute_grid_from_splines", Tracked | Curvi, cart, [](Env& e)
          { auto g = splinesGrid(e, e.r.i(2, 3), e.r.i(2, 3)); CurvilinearParameters p; p.m_refinement = e.r.i(2, 6); p.n_refinement = e.r.i(2, 6); e.c.op("curvilinear_compute_grid_from_splines"); return mkernel_curvilinear_compute_grid_from_splines(e.id, g(), p); });
        A("curvilinear_compute_orthogonal_grid_from_splines", Tracked | Curvi, cart, [](Env& e)
          { auto g = splinesGrid(e, 2, 1); CurvilinearParameters p; p.m_refinement = e.r.i(3, 8); p.n_refinement = e.r.i(3, 8); SplinesToCurvilinearParameters s; s.average_width = e.r.d(10, 40); s.aspect_ratio = e.r.d(0.3, 1); e.c.op("curvilinear_compute_orthogonal_grid_from_splines"); return mkernel_curvilinear_compute_orthogonal_grid_from_splines(e.id, g(), p, s); });
        A("curvilinear_compute_transfinite_from_polygon", Tracked | Curvi, cart, [](Env& e)
          { int a = e.r.i(1, 5), b = e.r.i(1, 5); std::vector<P2> p; double h = 10; for (int i = 0; i < a; ++i) p.push_back({i * h, e.r.d(-2, 2)}); for (int i = 0; i < b; ++i) p.push_back({a * h, i * h}); for (int i = 0; i < a; ++i) p.push_back({(a - i) * h, b * h}); for (int i = 0; i < b; ++i) p.push_back({0, (b - i) * h}); p.push_back(p[0]); GL g(p); e.c.op("curvilinear_compute_transfinite_from_polygon %d %d", a, b); return mkernel_curvilinear_compute_transfinite_from_polygon(e.id, g(), 0, a, a + b, e.r.i(0, 1)); });
        A("curvilinear_compute_transfinite_from_triangle", Tracked | Curvi, cart, [](Env& e)
          { int n = 2 * e.r.i(2, 4); std::vector<P2> p; P2 A0{0, 0}, B{100, e.r.d(-5, 5)}, C{50, 80}; for (int i = 0; i < n; ++i) p.push_back(A0 + (B - A0) * (double(i) / n)); for (int i = 0; i < n; ++i) p.push_back(B + (C - B) * (double(i) / n)); for (int i = 0; i < n; ++i) p.push_back(C + (A0 - C) * (double(i) / n)); p.push_back(p[0]); GL g(p); e.c.op("curvilinear_compute_transfinite_from_triangle n=%d", n); return mkernel_curvilinear_compute_transfinite_from_triangle(e.id, g(), 0, n, 2 * n); });
        A("curvilinear_refine", Tracked | Curvi, [](const Env& e)
          { return e.hasGrid() && e.cg.m * e.cg.n < 400; }, [](Env& e)
          { P2 a, b; if (!gridLine(e, a, b)) return -1; int k = e.r.i(2, 4); e.c.op("curvilinear_refine %d", k); return mkernel_curvilinear_refine(e.id, a.x, a.y, b.x, b.y, k); });
        A("curvilinear_full_refine", Tracked | Curvi, [](const Env& e)
          { return e.hasGrid() && e.cg.m * e.cg.n < 200; }, [](Env& e)
          { int a = e.r.i(1, 3), b = e.r.i(1, 3); e.c.op("curvilinear_full_refine %d %d", a, b); return mkernel_curvilinear_full_refine(e.id, a, b); });
        A("curvilinear_derefine", Tracked | Curvi, needGrid, [](Env& e)
          { P2 a, b; if (!gridLine(e, a, b)) return -1; e.c.op("curvilinear_derefine"); return mkernel_curvilinear_derefine(e.id, a.x, a.y, b.x, b.y); });
        A("curvilinear_smoothing", Tracked | Curvi, cartGrid, [](Env& e)
          { P2 a, b; if (!gridBlock(e, a, b, 1)) return -1; int k = e.r.i(1, 4); e.c.op("curvilinear_smoothing %d", k); return mkernel_curvilinear_smoothing(e.id, k, a.x, a.y, b.x, b.y); });
        A("curvilinear_smoothing_directional", Tracked | Curvi, cartGrid, [](Env& e)
          { P2 a, b, c, d; if (!gridBlock(e, a, b, 1) || !gridLine(e, c, d, 1)) return -1; int k = e.r.i(1, 4); e.c.op("curvilinear_smoothing_directional %d", k); return mkernel_curvilinear_smoothing_directional(e.id, k, c.x, c.y, d.x, d.y, a.x, a.y, b.x, b.y); });
        A("curvilinear_orthogonalize_session", Tracked | Curvi | Session, smallCartGrid, [](Env& e)
          { auto p = orthoPar(e); P2 a, b, c, d; if (!gridBlock(e, a, b, 1) || !gridLine(e, c, d, 1)) return -1; e.c.op("curvilinear orthogonalize session"); int rc = mkernel_curvilinear_initialize_orthogonalize(e.id, p); if (rc) return rc; rc = mkernel_curvilinear_set_block_orthogonalize(e.id, a.x, a.y, b.x, b.y); if (!rc && e.r.p(0.4)) rc = mkernel_curvilinear_set_frozen_lines_orthogonalize(e.id, c.x, c.y, d.x, d.y); if (!rc) rc = mkernel_curvilinear_orthogonalize(e.id); int rc2 = mkernel_curvilinear_finalize_orthogonalize(e.id); return rc ? rc : rc2; });
        A("curvilinear_line_shift_session", Tracked | Curvi | Session, smallCartGrid, [](Env& e)
          { P2 c, d, a, b; if (!gridLine(e, c, d, 1) || !gridBlock(e, a, b, 1)) return -1; e.c.op("curvilinear line shift session"); int rc = mkernel_curvilinear_initialize_line_shift(e.id); if (rc) return rc; rc = mkernel_curvilinear_set_line_line_shift(e.id, c.x, c.y, d.x, d.y); if (!rc) rc = mkernel_curvilinear_set_block_line_shift(e.id, a.x, a.y, b.x, b.y); if (!rc) rc = mkernel_curvilinear_move_node_line_shift(e.id, c.x, c.y, c.x + e.r.d(-3, 3), c.y + e.r.d(-3, 3)); if (!rc) rc = mkernel_curvilinear_line_shift(e.id); int rc2 = mkernel_curvilinear_finalize_line_shift(e.id); return rc ? rc : rc2; });
        A("curvilinear_insert_face", Tracked | Curvi, needGrid, [](Env& e)
          { P2 q = boxOf(e.cg).rnd(e.r, 0.15); e.c.op("curvilinear_insert_face %.17g %.17g", q.x, q.y); return mkernel_curvilinear_insert_face(e.id, q.x, q.y); });
        A("curvilinear_delete_node", Tracked | Curvi, needGrid, [](Env& e)
          { P2 q = rndGridNode(e); e.c.op("curvilinear_delete_node %.17g %.17g", q.x, q.y); return mkernel_curvilinear_delete_node(e.id, q.x, q.y); });
        A("curvilinear_move_node", Tracked | Curvi, needGrid, [](Env& e)
          { P2 q = rndGridNode(e); P2 t = q + P2{H(e) * e.r.d(-0.3, 0.3), H(e) * e.r.d(-0.3, 0.3)}; e.c.op("curvilinear_move_node"); return mkernel_curvilinear_move_node(e.id, q.x, q.y, t.x, t.y); });
        A("curvilinear_delete_interior", Tracked | Curvi, needGrid, [](Env& e)
          { P2 a, b; if (!gridBlock(e, a, b)) return -1; e.c.op("curvilinear_delete_interior"); return mkernel_curvilinear_delete_interior(e.id, a.x, a.y, b.x, b.y); });
        A("curvilinear_delete_exterior", Tracked | Curvi, needGrid, [](Env& e)
          { P2 a, b; if (!gridBlock(e, a, b)) return -1; e.c.op("curvilinear_delete_exterior"); return mkernel_curvilinear_delete_exterior(e.id, a.x, a.y, b.x, b.y); });
        A("curvilinear_line_attraction_repulsion", Tracked | Curvi, cartGrid, [](Env& e)
          { P2 a, b, c, d; if (!gridBlock(e, a, b) || !gridLine(e, c, d)) return -1; double f = e.r.d(-0.5, 0.5); e.c.op("curvilinear_line_attraction_repulsion %g", f); return mkernel_curvilinear_line_attraction_repulsion(e.id, f, c.x, c.y, d.x, d.y, a.x, a.y, b.x, b.y); });
        A("curvilinear_line_mirror", Tracked | Curvi, cartGrid, [](Env& e)
          { bool alongM = e.r.p(0.5), hi = e.r.p(0.5); int n0 = 0, n1 = e.cg.n - 1, m0 = 0, m1 = e.cg.m - 1; if (alongM) n0 = n1 = hi ? e.cg.n - 1 : 0; else m0 = m1 = hi ? e.cg.m - 1 : 0; if (!e.cg.valid(n0, m0) || !e.cg.valid(n1, m1)) return -1; P2 a = e.cg.at(n0, m0), b = e.cg.at(n1, m1); double f = e.r.d(0.5, 1.5); e.c.op("curvilinear_line_mirror %g alongM=%d hi=%d", f, alongM, hi); return mkernel_curvilinear_line_mirror(e.id, f, a.x, a.y, b.x, b.y); });
        A("curvilinear_snap_to_landboundary", Tracked | Curvi, cartGrid, [](Env& e)
          { P2 a, b; if (!gridLine(e, a, b)) return -1; auto g = landBoundary(e, boxOf(e.cg)); e.c.op("curvilinear_snap_to_landboundary"); return mkernel_curvilinear_snap_to_landboundary(e.id, g(), a.x, a.y, b.x, b.y); });
        A("curvilinear_snap_to_spline", Tracked | Curvi, cartGrid, [](Env& e)
          { P2 a, b; if (!gridLine(e, a, b)) return -1; auto g = landBoundary(e, boxOf(e.cg)); e.c.op("curvilinear_snap_to_spline"); return mkernel_curvilinear_snap_to_spline(e.id, g(), a.x, a.y, b.x, b.y); });
        A("curvilinear_convert_to_mesh2d", Tracked | Curvi | Mesh2, [](const Env& e)
          { return e.hasGrid() && e.m2.nValidNodes < 400; }, [](Env& e)
          { e.c.op("curvilinear_convert_to_mesh2d"); return mkernel_curvilinear_convert_to_mesh2d(e.id); });
        A("deallocate_state", Tracked, [](const Env& e)
          { return e.hasMesh() || e.hasGrid(); }, [](Env& e)
          { if (!e.r.p(0.15)) return -1; e.c.op("deallocate_state"); return mkernel_deallocate_state(e.id); });
        return v;
    }
} // namespace

const std::vector<OpDef>& allOps()
{
    static const std::vector<OpDef> v = makeOps();
    return v;
}

const OpDef* randomStep(Env& e, int kindMask, const std::set<std::string>& exclude)
{
    auto& ops = allOps();
    for (int t = 0; t < 80; ++t)
    {
        const OpDef& q = e.r.pick(ops);
        if (!(q.kind & kindMask) || exclude.count(q.name) || !q.applies(e))
            continue;
        int rc = q.run(e);
        if (rc == -1)
            continue;
        if (rc == 0)
            e.c.count(std::string("op:") + q.name);
        else
        {
            e.c.count("op_failed");
            e.c.op("   -> %d %s", rc, lastError().substr(0, 160).c_str());
        }
        if (!e.lazy)
            e.refresh();
        return rc == 0 ? &q : nullptr;
    }
    return nullptr;
}

Env meshByHistory(Ctx& c, int steps, int projection, const std::set<std::string>& exclude, bool undoRedo)
{
    mkernel_clear_state();
    int id = allocate(projection);
    c.op("allocate_state proj=%d -> %d", projection, id);
    Env e(c, id);
    e.refresh();
    for (auto& o : allOps())
        if (std::string(o.name) == "mesh2d_set")
            o.run(e);
    e.refresh();
    for (int s = 0; s < steps; ++s)
    {
        if (undoRedo && e.r.p(0.12))
        {
            bool b;
            int k;
            if (e.r.p(0.65))
            {
                c.op("undo");
                mkernel_undo_state(b, k);
            }
            else
            {
                c.op("redo");
                mkernel_redo_state(b, k);
            }
            bool valid = false;
            mkernel_is_valid_state(id, valid);
            e.refresh();
            continue;
        }
        randomStep(e, Mesh2, exclude);
    }
    return e;
}
