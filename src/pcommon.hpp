// Helpers shared by the property cases.
#pragma once
#include "ops.hpp"
#include "topo.hpp"
using namespace mk;

using EdgeKey = std::array<double, 4>;
inline EdgeKey ekey(P2 a, P2 b)
{
    if (std::tie(b.x, b.y) < std::tie(a.x, a.y))
        std::swap(a, b);
    return {a.x, a.y, b.x, b.y};
}
inline const std::set<std::string> EX{"mesh2d_convert_projection"};
// a Cartesian mesh: random history, or a lattice mesh (many collinearities)
inline Env makeMesh(Ctx& c, int maxSteps, bool& lattice, double& h)
{
    Rng& r = c.rng;
    lattice = r.p(0.35);
    if (!lattice)
    {
        Env e = meshByHistory(c, r.i(0, maxSteps), 0, EX);
        if (!e.hasMesh())
            c.skip();
        h = e.cell();
        return e;
    }
    mkernel_clear_state();
    int id = allocate(0);
    h = r.p(0.5) ? 1.0 : r.p(0.5) ? 10.0 : 0.1;
    P2 o{h * r.i(-3, 3), h * r.i(-3, 3)};
    RawMesh m = latticeMesh(r, r.i(1, 7), r.i(1, 7), h, o, r.p(0.5) ? 0 : 0.4, r.p(0.5) ? 0 : 0.15);
    if (m.edges.empty())
        c.skip();
    c.op("lattice mesh h=%g origin %g %g, %zu nodes, %zu edges", h, o.x, o.y, m.nodes.size(), m.edges.size());
    OK(c, "mesh2d_set", setMesh2d(id, m));
    Env e(c, id);
    e.refresh();
    int steps = r.i(0, maxSteps / 2);
    for (int s = 0; s < steps; ++s)
        randomStep(e, Mesh2, EX);
    if (!e.hasMesh())
        c.skip();
    return e;
}
inline PolySet makePoly(Rng& r, const Box& box, double h, bool lattice, bool many = true)
{
    Box b = box;
    if (b.w() <= 0) // all nodes on a line: a polygon in it would have no area
    {
        b.x0 -= h;
        b.x1 += h;
    }
    if (b.ht() <= 0)
    {
        b.y0 -= h;
        b.y1 += h;
    }
    if (lattice ? r.p(0.7) : r.p(0.2))
    {
        Box q = b;
        double step = h * (r.p(0.5) ? 1.0 : 0.5);
        if (r.p(0.6))
        {
            q.x0 += 0.5 * h;
            q.y0 += 0.5 * h;
        }
        return genLatticePolySet(r, q, step);
    }
    return genPolySet(r, b, true, many);
}
inline void traceMesh(Ctx& c, const M2& m)
{
    if (!c.verbose)
        return;
    for (int i = 0; i < m.numNodes(); ++i)
        c.op("   node %d %.17g %.17g", i, m.nx[i], m.ny[i]);
    for (int i = 0; i < m.numEdges(); ++i)
        c.op("   edge %d: %d %d faces %d %d", i, m.en[2 * i], m.en[2 * i + 1], m.ef[2 * i], m.ef[2 * i + 1]);
}
inline void tracePoly(Ctx& c, GL& g)
{
    std::string s;
    char t[80];
    for (size_t i = 0; i < g.size() && s.size() < 1500; ++i)
    {
        snprintf(t, sizeof t, "%.17g,%.17g ", g.x[i], g.y[i]);
        s += t;
    }
    c.op("   polygon %s", s.c_str());
}

