// C07: refinement only subdivides, and subdivides what was asked for.
#include "pcommon.hpp"
#include <cstdarg>

namespace
{
    // a grid of triangles and quadrilaterals with displaced nodes; every face convex
    RawMesh mixedGrid(Rng& r, double h, P2 o)
    {
        RawMesh m = latticeMesh(r, r.i(2, 8), r.i(2, 8), h, o, r.p(0.3) ? 0 : r.p(0.3) ? 1 : 0.4, r.p(0.6) ? 0 : 0.12);
        double j = r.p(0.3) ? 0 : r.d(0, 0.18) * h, sx = r.d(0.5, 2), a = r.p(0.5) ? 0 : r.d(0, 6.28);
        for (auto& p : m.nodes)
        {
            p.x += r.d(-j, j);
            p.y += r.d(-j, j);
            p.x *= sx;
            p = {p.x * std::cos(a) - p.y * std::sin(a), p.x * std::sin(a) + p.y * std::cos(a)};
        }
        return m;
    }
    struct Old
    {
        M2 m;
        std::vector<std::vector<int>> faces, fe;
        std::vector<std::vector<P2>> ring;
        std::vector<double> area;
        std::vector<Box> box;
        int at(P2 p, double eps) const
        {
            int res = -1;
            for (size_t f = 0; f < ring.size(); ++f)
            {
                if (p.x < box[f].x0 || p.x > box[f].x1 || p.y < box[f].y0 || p.y > box[f].y1)
                    continue;
                int k = insideRing(ring[f], p, eps);
                if (k < 0)
                    return -2;
                if (k == 1)
                    res = res < 0 ? (int)f : -2;
            }
            return res;
        }
    };
    std::string fmt(const char* f, ...)
    {
        char t[300];
        va_list a;
        va_start(a, f);
        vsnprintf(t, sizeof t, f, a);
        va_end(a);
        return t;
    }
    // was old mesh o divided once in the faces sel, and only there?
    bool divided(const Old& o, const M2& m, const std::vector<int>& sel, const std::vector<int>& parts, const meshkernel::MeshRefinementParameters& par, const Box& b, double minLen, std::string& key, std::string& what)
    {
        const int nf = (int)o.faces.size();
        std::vector<int> em(o.m.numEdges(), 0), all = sel;
        for (bool more = true; more;)
        {
            more = false;
            for (int f = 0; f < nf; ++f)
                if (all[f])
                    for (int e : o.fe[f])
                        em[e] = 1;
            for (int f = 0; f < nf; ++f)
            {
                int k = 0, n = (int)o.fe[f].size();
                for (int e : o.fe[f])
                    k += em[e];
                if (!all[f] && k >= n - 1)
                    all[f] = 1, more = true;
            }
        }
        std::map<std::pair<double, double>, int> at;
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.nodeValid(i))
                at[{m.nx[i], m.ny[i]}]++;
        for (int f = 0; f < nf; ++f)
        {
            int n = (int)o.fe[f].size(), want = 1;
            std::vector<int> pos;
            for (int i = 0; i < n; ++i)
                if (em[o.fe[f][i]])
                    pos.push_back(i);
            int k = (int)pos.size();
            if (all[f])
                want = 4;
            else if (par.connect_hanging_nodes && k == 1)
                want = n == 3 ? 2 : 3;
            else if (par.connect_hanging_nodes && k == 2)
            {
                const auto &p = o.m.en, &q = o.fe[f];
                int a = q[pos[0]], z = q[pos[1]];
                bool share = p[2 * a] == p[2 * z] || p[2 * a] == p[2 * z + 1] || p[2 * a + 1] == p[2 * z] || p[2 * a + 1] == p[2 * z + 1];
                want = share ? 4 : 2;
            }
            if (parts[f] != want)
                return key = "division", what = fmt("old face %d (%d nodes, %s, %d divided edges) became %d faces, not %d", f, n, sel[f] ? "selected" : all[f] ? "enclosed by selected ones" : "not selected", k, parts[f], want), false;
        }
        // divided edges are divided half way
        int newNodes = 0;
        for (int e = 0; e < o.m.numEdges(); ++e)
        {
            if (!em[e])
                continue;
            newNodes++;
            P2 u = o.m.node(o.m.en[2 * e]), v = o.m.node(o.m.en[2 * e + 1]);
            P2 w{(u.x + v.x) * 0.5, (u.y + v.y) * 0.5};
            bool found = at.count({w.x, w.y}) > 0;
            for (int i = o.m.numNodes(); !found && i < m.numNodes(); ++i)
                found = std::hypot(m.nx[i] - w.x, m.ny[i] - w.y) < 1e-9 * (b.diag() + std::abs(b.x0) + std::abs(b.y0));
            if (!found)
                return key = "no-midpoint", what = fmt("edge %d is divided but has no node half way", e), false;
        }
        for (int f = 0; f < nf; ++f)
            if (all[f] && o.fe[f].size() == 4)
            {
                newNodes++;
                if (!par.use_mass_center_when_refining)
                    continue;
                auto p = facePoly(o.m, o.faces[f]);
                P2 w = centroid(p);
                bool found = false;
                for (int i = o.m.numNodes(); !found && i < m.numNodes(); ++i)
                    found = std::hypot(m.nx[i] - w.x, m.ny[i] - w.y) < 1e-6 * minLen;
                if (!found)
                    return key = "no-centre", what = fmt("quadrilateral %d is divided but has no node in its centre of mass", f), false;
            }
        if (m.nValidNodes != o.m.nValidNodes + newNodes)
            return key = "node-count", what = fmt("%d nodes were added, not %d", m.nValidNodes - o.m.nValidNodes, newNodes), false;
        return true;
    }
    void caseC07(Ctx& c)
    {
        Rng& r = c.rng;
        Old o;
        double h;
        int id;
        bool lattice = true;
        if (r.p(0.3))
        {
            Env e = makeMesh(c, 4, lattice, h);
            id = e.id;
        }
        else
        {
            mkernel_clear_state();
            id = allocate(0);
            h = r.p(0.5) ? 10 : r.d(0.5, 500);
            RawMesh m = mixedGrid(r, h, {h * r.i(-4, 4), h * r.i(-4, 4)});
            if (m.edges.empty())
                c.skip();
            c.op("grid h=%g, %zu nodes, %zu edges", h, m.nodes.size(), m.edges.size());
            OK(c, "mesh2d_set", setMesh2d(id, m));
        }
        OK(c, "get_data", obsMesh2d(id, o.m));
        Box b = boxOf(o.m);
        if (o.m.numFaces() == 0 || o.m.numFaces() > 400 || b.diag() > 1e4 * h)
            c.skip();
        const M2 cm = o.m.compact();
        Planar pl = planarRegions(cm);
        if (!pl.usable)
            c.skip();
        // of two regions that share two edges one may not be known as a face before refinement, and be one afterwards
        std::set<std::vector<int>> known;
        for (auto& f : cm.faces())
            known.insert(canon(f));
        for (auto& f : pl.regions)
            if (!known.count(f))
                c.skip();
        o.faces = o.m.faces();
        o.fe = o.m.faceEdges();
        const int nf = (int)o.faces.size();
        bool plain = true; // convex triangles and quadrilaterals, no straight corners
        double minLen = 1e300, maxLen = 0;
        for (int f = 0; f < nf; ++f)
        {
            auto p = facePoly(o.m, o.faces[f]);
            const int n = (int)p.size();
            double A = 0;
            centroid(p, &A);
            Box fb;
            for (auto& q : p)
                fb.add(q);
            for (int i = 0; i < n; ++i)
            {
                P2 u = p[(i + 1) % n] - p[i], v = p[(i + 2) % n] - p[(i + 1) % n];
                double L = std::hypot(u.x, u.y), M = std::hypot(v.x, v.y);
                if (cross(u, v) < 0.03 * L * M)
                    plain = false;
                minLen = std::min(minLen, L);
                maxLen = std::max(maxLen, L);
            }
            if (n > 4)
                plain = false;
            o.area.push_back(std::abs(A));
            p.push_back(p.front());
            o.ring.push_back(p);
            o.box.push_back(fb);
        }
        if (!plain || minLen < 1e-3 * maxLen)
            c.skip();
        traceMesh(c, o.m);
        // request
        meshkernel::MeshRefinementParameters par;
        par.max_num_refinement_iterations = r.p(0.6) ? 1 : r.i(2, 3);
        if (nf > 60)
            par.max_num_refinement_iterations = std::min(par.max_num_refinement_iterations, 2);
        par.refine_intersected = r.p(0.25);
        par.use_mass_center_when_refining = r.p(0.8);
        for (int f = 0; f < nf && !par.use_mass_center_when_refining; ++f) // the circumcentre is only well placed in rectangles
            if (o.faces[f].size() != 4)
                par.use_mass_center_when_refining = 1;
            else
            {
                auto& q = o.ring[f];
                P2 u = q[1] - q[0], v = q[2] - q[1], w = q[2] - q[3];
                if (std::abs(dot(u, v)) > 1e-6 * norm(u) * norm(v) || dist(u, w) > 1e-6 * norm(u))
                    par.use_mass_center_when_refining = 1;
            }
        int sizeMode = r.p(0.8) ? 0 : r.i(1, 2); // 0: every size allowed, 1: none, 2: somewhere
        par.min_edge_size = sizeMode == 0 ? minLen * 0.05 : sizeMode == 1 ? maxLen * 0.51 : r.d(minLen * 0.2, maxLen * 0.6);
        par.connect_hanging_nodes = sizeMode == 2 || r.p(0.5); // an edge divided in neither of its faces only makes sense connected
        par.refinement_type = 2;
        par.account_for_samples_outside = 0;
        par.smoothing_iterations = r.p(0.5) ? 0 : r.i(1, 3);
        const int L = par.max_num_refinement_iterations;
        const bool samples = r.p(0.45);
        std::vector<int> sel(nf, 0); // 1 selected, -1 undecided
        std::vector<int> lost(nf, 0); // as sel, with the known finding
        std::vector<int> deep(nf, 0); // all descendants stay selected
        int rc;
        std::string name;
        if (samples && r.p(0.4))
        {
            // values on a grid of its own: levels, or depths with the wave Courant criterion
            const bool courant = r.p(0.6), nodal = courant && r.p(0.5), steps = r.p(0.5);
            name = courant ? "refine_based_on_gridded_samples(courant)" : "refine_based_on_gridded_samples";
            par.refinement_type = courant ? 1 : 2;
            const int nx = r.i(2, 9), ny = r.i(2, 9);
            std::vector<double> gx, gy, gv;
            const double cs = std::max(b.x1 - b.x0, b.y1 - b.y0) * (r.p(0.6) ? 1.3 : 0.7) / (std::min(nx, ny) - 1);
            const double ox = b.x0 - cs * r.d(0.01, 0.3), oy = b.y0 - cs * r.d(0.01, 0.3);
            for (int i = 0; i < nx; ++i)
                gx.push_back(ox + cs * (i + (steps && i ? r.d(-0.3, 0.3) : 0)));
            for (int i = 0; i < ny; ++i)
                gy.push_back(oy + cs * (i + (steps && i ? r.d(-0.3, 0.3) : 0)));
            const int type = r.i(0, 3); // short, float, int, double
            const int land = r.i(0, 3);
            const double deepest = r.p(0.5) ? 20 : 200;
            for (int i = 0; i < nx * ny; ++i)
                gv.push_back(!courant ? r.i(-2, 3) : land == 0 ? -r.i(1, (int)deepest) : land == 1 ? r.i(-(int)deepest, 5) : r.i(-(int)deepest, (int)deepest));
            std::vector<short> v0(gv.begin(), gv.end());
            std::vector<float> v1(gv.begin(), gv.end());
            std::vector<int> v2(gv.begin(), gv.end());
            meshkernelapi::GriddedSamples gs;
            gs.num_x = nx, gs.num_y = ny;
            gs.x_origin = ox, gs.y_origin = oy, gs.cell_size = cs;
            if (steps)
                gs.x_coordinates = gx.data(), gs.y_coordinates = gy.data();
            gs.value_type = type;
            gs.values = type == 0 ? (void*)v0.data() : type == 1 ? (void*)v1.data() : type == 2 ? (void*)v2.data() : (void*)gv.data();
            // 0 outside, 1 inside, -1 undecided
            auto at = [&](P2 p, double& v)
            {
                const double e = 1e-7 * cs;
                if (std::min({std::abs(p.x - gx[0]), std::abs(p.x - gx[nx - 1]), std::abs(p.y - gy[0]), std::abs(p.y - gy[ny - 1])}) < e)
                    return -1;
                if (p.x < gx[0] || p.x > gx[nx - 1] || p.y < gy[0] || p.y > gy[ny - 1])
                    return 0;
                int i = 0, j = 0;
                while (i + 2 < nx && p.x >= gx[i + 1])
                    ++i;
                while (j + 2 < ny && p.y >= gy[j + 1])
                    ++j;
                double t = (p.x - gx[i]) / (gx[i + 1] - gx[i]), u = (p.y - gy[j]) / (gy[j + 1] - gy[j]);
                v = (1 - t) * (1 - u) * gv[j * nx + i] + t * (1 - u) * gv[j * nx + i + 1] + (1 - t) * u * gv[(j + 1) * nx + i] + t * u * gv[(j + 1) * nx + i + 1];
                return 1;
            };
            par.max_courant_time = std::exp(r.d(std::log(0.3), std::log(3.0))) * 0.5 * (minLen + maxLen) / std::sqrt(9.81 * 0.5 * deepest);
            bool unsure = false;
            for (int f = 0; f < nf; ++f)
            {
                auto p = facePoly(o.m, o.faces[f]);
                double v = 0;
                int k = at(centroid(p), v);
                if (k < 0)
                    unsure = true;
                if (k <= 0)
                    continue;
                if (!courant)
                {
                    unsure = unsure || std::abs(v) < 1e-7;
                    sel[f] = v > 0;
                    continue;
                }
                std::map<int, double> at_;
                double lo = 1e300, hi = -1e300;
                for (int n : o.faces[f])
                {
                    double w = 0;
                    int q = nodal ? at(o.m.node(n), w) : 1;
                    unsure = unsure || q != 1 || (nodal && std::abs(w) < 1e-7);
                    at_[n] = w, lo = std::min(lo, w), hi = std::max(hi, w);
                }
                bool all = !(nodal && lo > 0);
                for (int e : o.fe[f])
                {
                    double len = dist(o.m.node(o.m.en[2 * e]), o.m.node(o.m.en[2 * e + 1]));
                    double depth = nodal ? 0.5 * (at_[o.m.en[2 * e]] + at_[o.m.en[2 * e + 1]]) : v;
                    double cour = std::sqrt(9.80665 * std::abs(depth)) * par.max_courant_time / len;
                    bool mixed = nodal && lo < 0 && hi > 0;
                    unsure = unsure || std::abs(0.5 * len - par.min_edge_size) < 1e-7 * len || (!mixed && std::abs(cour - 1) < 1e-3);
                    all = all && 0.5 * len > par.min_edge_size && (mixed || cour < 1);
                }
                sel[f] = all;
            }
            for (int f = 0; f < nf && unsure; ++f)
                sel[f] = -1;
            for (int k = 0; !unsure && k < par.smoothing_iterations; ++k)
            {
                std::vector<int> em(o.m.numEdges(), 0);
                for (int f = 0; f < nf; ++f)
                    for (int e : o.fe[f])
                        em[e] |= sel[f];
                for (int f = 0; f < nf; ++f)
                    for (int e : o.fe[f])
                        sel[f] |= em[e];
            }
            lost = sel;
            c.op("%s nodal=%d type=%d steps=%d grid %d x %d, iterations=%d smoothing=%d min=%g (lengths %g - %g) time=%g connect=%d mass=%d", name.c_str(), nodal, type, steps, nx, ny, L, par.smoothing_iterations, par.min_edge_size, minLen, maxLen, par.max_courant_time, par.connect_hanging_nodes, par.use_mass_center_when_refining);
            rc = mkernel_mesh2d_refine_based_on_gridded_samples(id, gs, par, nodal);
            c.count(name.c_str());
            if (!courant || (sizeMode == 2 && L == 1))
                sizeMode = 0;
        }
        else if (samples)
        {
            name = "refine_based_on_samples";
            GL g;
            int n = r.i(1, 30);
            std::vector<double> level(nf, -1e300);
            std::vector<P2> where;
            std::vector<int> home;
            bool unsure = false;
            for (int i = 0; i < n; ++i)
            {
                P2 q = b.rnd(r, 0.1);
                double v = r.i(0, 3);
                g.x.push_back(q.x), g.y.push_back(q.y), g.v.push_back(v);
                int f = o.at(q, 1e-3 * minLen);
                where.push_back(q);
                home.push_back(f);
                if (f == -2)
                    unsure = true;
                if (f >= 0)
                    level[f] = std::max(level[f], v);
                c.op("   sample %.17g %.17g %g (face %d)", q.x, q.y, v, f);
            }
            g.sync();
            for (int f = 0; f < nf; ++f)
                sel[f] = unsure ? -1 : level[f] > 0;
            // known finding: a face also uses up the samples of its neighbours that lie in the circle around it
            std::vector<double> left = g.v;
            std::vector<char> used(n, 0);
            for (int f = 0; !unsure && f < nf; ++f)
            {
                auto p = facePoly(o.m, o.faces[f]);
                P2 w = centroid(p);
                double rad = 0, best = -1;
                for (auto& q : p)
                    rad = std::max(rad, dist(q, w));
                for (int i = 0; i < n; ++i)
                    if (home[i] == f)
                        best = std::max(best, left[i]);
                lost[f] = best > 0;
                for (int i = 0; best > 0 && i < n; ++i)
                    if (!used[i] && dist(where[i], w) < rad)
                        used[i] = 1, left[i] -= 1;
            }
            for (auto* v : {&sel, &lost})
                for (int k = 0; !unsure && k < par.smoothing_iterations; ++k)
                {
                    std::vector<int> em(o.m.numEdges(), 0);
                    for (int f = 0; f < nf; ++f)
                        for (int e : o.fe[f])
                            em[e] |= (*v)[f];
                    for (int f = 0; f < nf; ++f)
                        for (int e : o.fe[f])
                            (*v)[f] |= em[e];
                }
            c.op("%s iterations=%d smoothing=%d min=%g connect=%d mass=%d", name.c_str(), L, par.smoothing_iterations, par.min_edge_size, par.connect_hanging_nodes, par.use_mass_center_when_refining);
            rc = mkernel_mesh2d_refine_based_on_samples(id, g(), 1.0, 1, par);
            sizeMode = 0; // the size limit does not apply to this criterion
        }
        else
        {
            name = "refine_based_on_polygon";
            PolySet ps;
            if (r.p(0.8))
            {
                ps = makePoly(r, b, h, false, false);
                if (!ps.empty())
                    ps.enc.resize(1), ps.enc[0].resize(1);
            }
            GL pg = ps.list();
            std::vector<int> in(o.m.numNodes(), 0), mask;
            for (int i = 0; i < o.m.numNodes(); ++i)
                if (o.m.nodeValid(i))
                    in[i] = ps.empty() ? 1 : insideRing(ps.enc[0][0], o.m.node(i), 1e-5 * minLen);
            mask = in;
            bool unsure = false;
            for (int f = 0; f < nf; ++f)
            {
                bool out = false;
                for (int k : o.faces[f])
                {
                    out = out || in[k] == 0;
                    unsure = unsure || in[k] < 0;
                }
                if (out)
                    for (int k : o.faces[f])
                        if (mask[k] == 1)
                            mask[k] = -2;
            }
            for (int f = 0; f < nf; ++f)
            {
                bool any = false, all = true;
                for (int k : o.faces[f])
                    any = any || mask[k] == 1, all = all && mask[k] == 1;
                sel[f] = unsure ? -1 : par.refine_intersected && !ps.empty() ? (all ? 1 : -1) : any;
                deep[f] = !unsure && all;
            }
            c.op("%s iterations=%d intersected=%d min=%g (lengths %g - %g) connect=%d mass=%d polygon points=%zu", name.c_str(), L, par.refine_intersected, par.min_edge_size, minLen, maxLen, par.connect_hanging_nodes, par.use_mass_center_when_refining, pg.size());
            if (c.verbose)
                tracePoly(c, pg);
            rc = mkernel_mesh2d_refine_based_on_polygon(id, pg(), par);
        }
        if (rc)
        {
            // growth beyond the number of edges a face can have and nodes on straight edges are refused
            c.count("refused");
            c.op("   -> %d %s", rc, lastError().c_str());
            if (L == 1 && sizeMode == 0)
                c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
            return;
        }
        M2 m;
        OK(c, "get_data", obsMesh2d(id, m));
        traceMesh(c, m);
        c.observed(Hash().add(m.hash()).h);
        // 1. what was there stays
        if (m.numNodes() < o.m.numNodes())
            c.fail("nodes-lost", "%s: %d nodes, before %d", name.c_str(), m.numNodes(), o.m.numNodes());
        for (int i = 0; i < o.m.numNodes(); ++i)
            if (o.m.nodeValid(i) && (m.nx[i] != o.m.nx[i] || m.ny[i] != o.m.ny[i]))
                c.fail("node-moved", "%s moved node %d from %.12g %.12g to %.12g %.12g", name.c_str(), i, o.m.nx[i], o.m.ny[i], m.nx[i], m.ny[i]);
        c.evals += o.m.numNodes();
        // 2. new faces fill the old ones
        const double eps = 1e-9 * (minLen + 1e-3 * b.diag());
        auto nfaces = m.faces();
        std::vector<double> filled(nf, 0);
        std::vector<int> parts(nf, 0);
        for (auto& f : nfaces)
        {
            auto p = facePoly(m, f);
            double A = 0;
            centroid(p, &A);
            P2 q{0, 0};
            for (auto& k : p)
                q = q + k * (1.0 / p.size());
            int k = o.at(q, eps);
            if (k < 0)
                c.fail("face-astray", "%s: the new face around %.12g %.12g does not lie in one of the old faces", name.c_str(), q.x, q.y);
            for (auto& v : p)
                if (insideRing(o.ring[k], v, 1e-6 * minLen) == 0)
                    c.fail("face-sticks-out", "%s: the new face around %.12g %.12g extends beyond the old face %d", name.c_str(), q.x, q.y, k);
            filled[k] += std::abs(A);
            parts[k]++;
        }
        for (int f = 0; f < nf; ++f)
            if (std::abs(filled[f] - o.area[f]) > 1e-6 * o.area[f])
                c.fail("area", "%s: the new faces in old face %d have area %.12g, that face had %.12g", name.c_str(), f, filled[f], o.area[f]);
        c.evals += (long long)nfaces.size();
        // 3. how often each old face was divided
        int most = 1;
        for (int k = 0; k < L; ++k)
            most *= 4;
        for (int f = 0; f < nf; ++f)
            if (parts[f] > most && !par.connect_hanging_nodes)
                c.fail("too-fine", "%s: old face %d was divided into %d by %d iterations", name.c_str(), f, parts[f], L);
        if (sizeMode == 1)
        {
            for (int f = 0; f < nf; ++f)
                if (parts[f] != 1)
                    c.fail("below-size", "%s: old face %d was divided into %d although that makes every edge shorter than allowed", name.c_str(), f, parts[f]);
            c.evals += nf;
        }
        if (sizeMode == 0 && !samples)
            for (int f = 0; f < nf; ++f)
                if (deep[f])
                {
                    c.evals += 1;
                    if (parts[f] != most)
                        c.fail("not-refined", "%s: old face %d lies well inside the selection and was divided into %d, not %d", name.c_str(), f, parts[f], most);
                }
        if (sizeMode == 0 && L == 1 && std::find(sel.begin(), sel.end(), -1) == sel.end())
        {
            std::string key, what;
            bool ok = divided(o, m, sel, parts, par, b, minLen, key, what);
            c.evals += nf;
            c.count("exact");
            c.count(("exact:" + name + (std::count(sel.begin(), sel.end(), 1) == 0 ? " none" : std::count(sel.begin(), sel.end(), 0) == 0 ? " all" : " some")).c_str());
            if (!ok && samples && lost != sel)
            {
                std::string k2, w2;
                if (divided(o, m, lost, parts, par, b, minLen, k2, w2))
                    c.fail("level-used-by-neighbour", "%s: %s", name.c_str(), what.c_str());
            }
            if (!ok)
                c.fail(key, "%s: %s", name.c_str(), what.c_str());
        }
    }
    Reg r07("C07", caseC07, 26400, 300000);
}
