// C15: generated meshes and grids are the ones the parameters describe.
#include "pcommon.hpp"

namespace
{
    using Par = meshkernel::MakeGridParameters;
    constexpr double DEG = 3.14159265358979323846 / 180;

    // a mesh that is there already; generation into it must leave it alone
    M2 prepare(Ctx& c, int id, int proj)
    {
        Rng& r = c.rng;
        M2 m;
        if (r.p(0.35))
        {
            RawMesh w = latticeMesh(r, r.i(1, 3), r.i(1, 3), 1, {r.d(-5, 5), r.d(-5, 5)}, 0.3, 0);
            if (proj != 0)
                for (auto& p : w.nodes)
                    p.y += 20;
            OK(c, "mesh2d_set", setMesh2d(id, w));
            if (r.p(0.5))
            {
                int k = r.i(0, (int)w.nodes.size() - 1);
                OK(c, "delete_node", mkernel_mesh2d_delete_node(id, k));
            }
        }
        obsMesh2d(id, m);
        return m;
    }
    // the generated mesh follows on the old one; returns it with node numbers starting at 0
    struct New
    {
        std::vector<P2> nodes;
        std::set<std::pair<int, int>> edges;
        std::vector<std::vector<int>> faces;
        int twice = 0;
    };
    New fresh(Ctx& c, const std::string& name, const M2& old, const M2& m)
    {
        New w;
        const int n0 = old.numNodes();
        // the old mesh, with what was deleted possibly removed
        M2 a = old.compact();
        std::vector<int> id(m.numNodes(), -1);
        int valid = 0;
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.nodeValid(i))
            {
                if (valid < a.numNodes())
                {
                    if (m.nx[i] != a.nx[valid] || m.ny[i] != a.ny[valid])
                        c.fail("old-node:" + name, "%s moved node %d of the mesh that was there", name.c_str(), valid);
                }
                else
                {
                    id[i] = (int)w.nodes.size();
                    w.nodes.push_back(m.node(i));
                }
                ++valid;
            }
        (void)n0;
        if (valid < a.numNodes())
            c.fail("old-nodes-lost:" + name, "%s: %d nodes remain of %d", name.c_str(), valid, a.numNodes());
        int oldEdges = 0;
        for (int e = 0; e < m.numEdges(); ++e)
        {
            if (!m.edgeValid(e))
                continue;
            int u = id[m.en[2 * e]], v = id[m.en[2 * e + 1]];
            if (u < 0 && v < 0)
                oldEdges++;
            else if (u < 0 || v < 0)
                c.fail("edge-to-old:" + name, "%s: edge %d connects the generated mesh with the old one", name.c_str(), e);
            else if (!w.edges.insert(std::minmax(u, v)).second)
                w.twice++;
        }
        if (oldEdges != a.numEdges())
            c.fail("old-edges:" + name, "%s: %d edges of the old mesh, before %d", name.c_str(), oldEdges, a.numEdges());
        if (w.twice)
            c.fail("edge-twice:" + name, "%s: %d edges occur twice", name.c_str(), w.twice);
        for (auto f : m.faces())
        {
            bool mine = true;
            for (int& k : f)
                mine = mine && (k = id[k]) >= 0;
            if (mine)
                w.faces.push_back(f);
        }
        return w;
    }
    double tolOf(const std::vector<P2>& p)
    {
        double s = 1e-12;
        for (auto& q : p)
            s = std::max({s, std::abs(q.x), std::abs(q.y)});
        return 1e-10 * s;
    }
    // cells given by a matrix of points (empty: absent); compare with a mesh
    void sameCells(Ctx& c, const std::string& name, const std::vector<std::vector<std::optional<P2>>>& g, const New& w, double tol)
    {
        std::vector<P2> pts;
        std::vector<std::vector<int>> idx(g.size());
        std::set<std::pair<int, int>> edges;
        size_t cells = 0;
        for (size_t n = 0; n < g.size(); ++n)
            for (size_t m = 0; m < g[n].size(); ++m)
            {
                idx[n].push_back(-1);
                if (g[n][m])
                    idx[n][m] = (int)pts.size(), pts.push_back(*g[n][m]);
            }
        for (size_t n = 0; n < g.size(); ++n)
            for (size_t m = 0; m < g[n].size(); ++m)
            {
                if (idx[n][m] < 0)
                    continue;
                bool rr = m + 1 < g[n].size() && idx[n][m + 1] >= 0, up = n + 1 < g.size() && idx[n + 1][m] >= 0;
                if (rr)
                    edges.insert(std::minmax(idx[n][m], idx[n][m + 1]));
                if (up)
                    edges.insert(std::minmax(idx[n][m], idx[n + 1][m]));
                cells += rr && up && idx[n + 1][m + 1] >= 0;
            }
        if (pts.size() != w.nodes.size())
            c.fail("node-count:" + name, "%s: %zu nodes, expected %zu", name.c_str(), w.nodes.size(), pts.size());
        std::vector<int> to(w.nodes.size(), -1), used(pts.size(), 0);
        for (size_t i = 0; i < w.nodes.size(); ++i)
        {
            double best = 1e300;
            for (size_t k = 0; k < pts.size(); ++k)
                if (double d = dist(w.nodes[i], pts[k]); d < best)
                    best = d, to[i] = (int)k;
            if (best > tol || used[to[i]]++)
                c.fail("node-place:" + name, "%s: node %.12g %.12g is %.6g away from every node the parameters describe, or there twice", name.c_str(), w.nodes[i].x, w.nodes[i].y, best);
        }
        std::set<std::pair<int, int>> got;
        for (auto& [u, v] : w.edges)
            got.insert(std::minmax(to[u], to[v]));
        if (got != edges)
            c.fail("edges:" + name, "%s: %zu edges, expected %zu, or not the same ones", name.c_str(), got.size(), edges.size());
        if (w.faces.size() != cells)
            c.fail("faces:" + name, "%s: %zu faces, expected %zu", name.c_str(), w.faces.size(), cells);
        c.evals += (long long)(pts.size() + edges.size() + cells);
    }
    void sameGrid(Ctx& c, const std::string& name, const std::vector<std::vector<std::optional<P2>>>& g, const CG& cg, double tol)
    {
        if (cg.n != (int)g.size() || (cg.n && cg.m != (int)g[0].size()))
            c.fail("grid-size:" + name, "%s: %d rows, %d columns of nodes, expected %zu, %zu", name.c_str(), cg.n, cg.m, g.size(), g.empty() ? 0 : g[0].size());
        for (int n = 0; n < cg.n; ++n)
            for (int m = 0; m < cg.m; ++m)
            {
                if (cg.valid(n, m) != g[n][m].has_value())
                    c.fail("grid-valid:" + name, "%s: node %d %d is %s", name.c_str(), n, m, cg.valid(n, m) ? "there" : "absent");
                if (g[n][m] && dist(cg.at(n, m), *g[n][m]) > tol)
                    c.fail("grid-node:" + name, "%s: node %d %d at %.12g %.12g, expected %.12g %.12g", name.c_str(), n, m, cg.at(n, m).x, cg.at(n, m).y, g[n][m]->x, g[n][m]->y);
            }
        c.evals += (long long)cg.n * cg.m;
    }
    using Mat = std::vector<std::vector<std::optional<P2>>>;
    Mat lattice(int cols, int rows, P2 o, double a, double hx, double hy)
    {
        Mat g(rows + 1, std::vector<std::optional<P2>>(cols + 1));
        for (int n = 0; n <= rows; ++n)
            for (int m = 0; m <= cols; ++m)
                g[n][m] = P2{o.x + m * hx * std::cos(a) - n * hy * std::sin(a), o.y + m * hx * std::sin(a) + n * hy * std::cos(a)};
        return g;
    }
    double nextLat(double hy, double lat)
    {
        double k = std::cos(lat * DEG);
        return lat + hy * k * (k + (1 - k) * 0.3);
    }
    void rectangular(Ctx& c, int id)
    {
        Rng& r = c.rng;
        bool sph = r.p(0.3), curvi = r.p(0.5), ext = r.p(0.4);
        mkernel_clear_state();
        id = allocate(sph ? 1 : 0);
        M2 old = curvi ? M2{} : prepare(c, id, sph);
        Par p;
        double s = sph ? 1 : r.p(0.5) ? 1 : std::pow(10, r.d(-2, 4));
        p.num_columns = r.i(1, r.p(0.2) ? 30 : 6);
        p.num_rows = r.i(1, r.p(0.2) ? 20 : 6);
        p.angle = sph || ext || r.p(0.3) ? 0 : r.d(-89, 89);
        p.origin_x = s * r.d(-10, 10);
        p.origin_y = s * r.d(-10, 10);
        p.block_size_x = s * r.d(0.1, 3);
        p.block_size_y = s * r.d(0.1, 3);
        int cols = p.num_columns, rows = p.num_rows;
        std::string name = std::string(curvi ? "curvilinear_compute_rectangular_grid" : "mesh2d_make_rectangular_mesh") + (ext ? "_on_extension" : "");
        bool whole = r.p(0.3);
        if (ext)
        {
            // extent in whole blocks or not; never so close to a whole number that rounding decides
            double fx = whole ? cols - 0.5 : r.i(1, 12) - r.d(0.01, 0.99), fy = whole ? rows - 0.5 : r.i(2, 12) - r.d(0.01, 0.99);
            p.upper_right_x = p.origin_x + fx * p.block_size_x;
            p.upper_right_y = p.origin_y + fy * p.block_size_y;
            cols = (int)std::ceil(fx);
            rows = (int)std::ceil(fy);
            if (fy < 1 || fx < 0)
                c.skip();
        }
        Mat g = lattice(cols, rows, {p.origin_x, p.origin_y}, p.angle * DEG, p.block_size_x, p.block_size_y);
        if (sph)
        {
            if (ext)
            {
                rows = 0;
                double lat = p.origin_y;
                while (lat < p.upper_right_y)
                    lat = nextLat(p.block_size_y, lat), ++rows;
                g = lattice(cols, rows, {p.origin_x, p.origin_y}, 0, p.block_size_x, p.block_size_y);
            }
            double lat = p.origin_y;
            for (auto& row : g)
            {
                for (auto& q : row)
                    q->y = lat;
                lat = nextLat(p.block_size_y, lat);
            }
            if (lat > 87)
                c.skip();
        }
        c.op("%s proj=%d %dx%d origin %.17g %.17g angle %g block %.17g %.17g upper right %.17g %.17g", name.c_str(), sph, p.num_columns, p.num_rows, p.origin_x, p.origin_y, p.angle, p.block_size_x, p.block_size_y, p.upper_right_x, p.upper_right_y);
        int rc = curvi ? (ext ? mkernel_curvilinear_compute_rectangular_grid_on_extension(id, p) : mkernel_curvilinear_compute_rectangular_grid(id, p))
                       : (ext ? mkernel_mesh2d_make_rectangular_mesh_on_extension(id, p) : mkernel_mesh2d_make_rectangular_mesh(id, p));
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        double tol = 1e-9 * (std::abs(p.origin_x) + std::abs(p.origin_y) + cols * p.block_size_x + rows * p.block_size_y);
        if (curvi)
        {
            CG cg;
            OK(c, "get_data", obsCurvi(id, cg));
            sameGrid(c, name, g, cg, tol);
            c.observed(Hash().str(name).vec(cg.x).vec(cg.y).h);
            return;
        }
        M2 m;
        OK(c, "get_data", obsMesh2d(id, m));
        sameCells(c, name, g, fresh(c, name, old, m), tol);
        c.observed(Hash().str(name).add(m.hash()).h);
    }
    void fromPolygon(Ctx& c)
    {
        Rng& r = c.rng;
        bool curvi = r.p(0.5);
        mkernel_clear_state();
        int id = allocate(0);
        M2 old = curvi ? M2{} : prepare(c, id, 0);
        Par p;
        double s = r.p(0.5) ? 1 : std::pow(10, r.d(-2, 3));
        Box b;
        b.add({s * r.d(-50, 0), s * r.d(-50, 0)});
        b.add({b.x0 + s * r.d(20, 80), b.y0 + s * r.d(20, 80)});
        PolySet ps = genPolySet(r, b, false, false);
        if (ps.empty())
            c.skip();
        ps.enc.resize(1);
        ps.enc[0].resize(1);
        auto& ring = ps.enc[0][0];
        Box pb;
        for (auto& q : ring)
            pb.add(q);
        double size = std::max(pb.w(), pb.ht());
        p.angle = r.p(0.3) ? 0 : r.d(-89, 89);
        p.block_size_x = size / r.d(2, 15);
        p.block_size_y = size / r.d(2, 15);
        std::string name = curvi ? "curvilinear_compute_rectangular_grid_from_polygon" : "mesh2d_make_rectangular_mesh_from_polygon";
        GL pg = ps.list();
        c.op("%s angle %g block %.17g %.17g", name.c_str(), p.angle, p.block_size_x, p.block_size_y);
        if (c.verbose)
            tracePoly(c, pg);
        int rc = curvi ? mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, p, pg()) : mkernel_mesh2d_make_rectangular_mesh_from_polygon(id, p, pg());
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        CG cg;
        M2 m;
        New w;
        std::vector<P2> got;
        if (curvi)
        {
            OK(c, "get_data", obsCurvi(id, cg));
            for (int n = 0; n < cg.n; ++n)
                for (int k = 0; k < cg.m; ++k)
                    if (cg.valid(n, k))
                        got.push_back(cg.at(n, k));
        }
        else
        {
            OK(c, "get_data", obsMesh2d(id, m));
            w = fresh(c, name, old, m);
            got = w.nodes;
        }
        // the lattice is given up to its position: take that from the first node
        if (got.empty())
        {
            // a square of one and a half times the diagonal of a block inside the polygon holds a cell
            c.count("from_polygon_empty");
            double need = std::hypot(p.block_size_x, p.block_size_y) * 1.1;
            for (int k = 0; k < 200; ++k)
            {
                P2 q = pb.rnd(r);
                if (insideRing(ring, q, 0) != 1)
                    continue;
                double d = 1e300;
                for (size_t i = 0; i + 1 < ring.size(); ++i)
                    d = std::min(d, distPointSeg(q, ring[i], ring[i + 1]));
                if (d > need)
                    c.fail("nothing:" + name, "%s: no cell although a disc of radius %.6g around %.12g %.12g lies in the polygon", name.c_str(), d, q.x, q.y);
            }
            c.evals++;
            return;
        }
        double a = p.angle * DEG;
        P2 ex{std::cos(a) * p.block_size_x, std::sin(a) * p.block_size_x}, ey{-std::sin(a) * p.block_size_y, std::cos(a) * p.block_size_y};
        int R = (int)(2 * pb.diag() / std::min(p.block_size_x, p.block_size_y)) + 2;
        R = std::min(R, 80);
        Mat g(2 * R + 1, std::vector<std::optional<P2>>(2 * R + 1));
        std::vector<std::vector<int>> in(2 * R + 1, std::vector<int>(2 * R + 1, 0));
        for (int n = -R; n <= R; ++n)
            for (int k = -R; k <= R; ++k)
            {
                P2 q = got[0] + ex * k + ey * n;
                in[n + R][k + R] = insideRing(ring, q, 1e-6 * size);
            }
        for (auto& row : in)
            for (int v : row)
                if (v < 0)
                {
                    c.count("undecided");
                    return;
                }
        for (int n = 0; n < 2 * R; ++n)
            for (int k = 0; k < 2 * R; ++k)
                if (in[n][k] && in[n + 1][k] && in[n][k + 1] && in[n + 1][k + 1])
                    for (int i = 0; i < 4; ++i)
                        g[n + i / 2][k + i % 2] = got[0] + ex * (k + i % 2 - R) + ey * (n + i / 2 - R);
        double tol = 1e-8 * (size + std::abs(pb.x0) + std::abs(pb.y0));
        size_t want = 0;
        for (auto& row : g)
            for (auto& q : row)
                want += q.has_value();
        if (!curvi)
            sameCells(c, name, g, w, tol);
        else
        {
            if (got.size() != want)
                c.fail("node-count:" + name, "%s: %zu nodes, expected %zu", name.c_str(), got.size(), want);
            for (auto& q : got)
            {
                P2 d = q - got[0];
                double k = dot(d, ex) / dot(ex, ex), n = dot(d, ey) / dot(ey, ey);
                int ki = (int)std::lround(k) + R, ni = (int)std::lround(n) + R;
                if (ki < 0 || ni < 0 || ki > 2 * R || ni > 2 * R || !g[ni][ki] || dist(*g[ni][ki], q) > tol)
                    c.fail("grid-node:" + name, "%s: node %.12g %.12g is not one of a cell inside the polygon", name.c_str(), q.x, q.y);
            }
            c.evals += (long long)want;
        }
        c.observed(Hash().str(name).add(want).add(size).h);
    }
    bool emptyCircle(const std::vector<P2>& p, int a, int b, int d, double margin, P2& cc, double& rad)
    {
        P2 u = p[b] - p[a], v = p[d] - p[a];
        double k = 2 * cross(u, v), uu = dot(u, u), vv = dot(v, v);
        cc = p[a] + P2{(v.y * uu - u.y * vv) / k, (u.x * vv - v.x * uu) / k};
        rad = dist(cc, p[a]);
        for (int i = 0; i < (int)p.size(); ++i)
            if (i != a && i != b && i != d && dist(p[i], cc) < rad * (1 + margin))
                return false;
        return true;
    }
    void angles(const std::vector<P2>& p, int a, int b, int d, double& lo, double& hi)
    {
        int t[3] = {a, b, d};
        lo = 1e9, hi = 0;
        for (int i = 0; i < 3; ++i)
        {
            P2 u = p[t[(i + 1) % 3]] - p[t[i]], v = p[t[(i + 2) % 3]] - p[t[i]];
            double k = std::atan2(std::abs(cross(u, v)), dot(u, v)) / DEG;
            lo = std::min(lo, k);
            hi = std::max(hi, k);
        }
    }
    void triangles(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        M2 old = prepare(c, id, 0);
        const std::string name = "mesh2d_make_triangular_mesh_from_samples";
        int n = r.i(3, 40);
        double s = r.p(0.5) ? 1 : std::pow(10, r.d(-1, 4));
        P2 o{s * r.d(-100, 100), s * r.d(-100, 100)};
        std::vector<P2> pts;
        bool grid = r.p(0.3);
        for (int i = 0; i < n; ++i)
        {
            P2 q = grid ? P2{s * r.i(0, 7), s * r.i(0, 7)} : P2{s * r.d(0, 10), s * r.d(0, 10)};
            q = q + o;
            bool dup = false;
            for (auto& k : pts)
                dup = dup || dist(k, q) < 1e-3 * s;
            if (!dup)
                pts.push_back(q);
        }
        bool flat = true;
        for (size_t i = 2; i < pts.size(); ++i)
            flat = flat && std::abs(cross(pts[1] - pts[0], pts[i] - pts[0])) < 1e-6 * s * s;
        if (pts.size() < 3 || flat)
            c.skip();
        GL g(pts);
        c.op("%s %zu points%s", name.c_str(), pts.size(), grid ? " on a lattice" : "");
        for (auto& q : pts)
            c.op("   %.17g %.17g", q.x, q.y);
        int rc = mkernel_mesh2d_make_triangular_mesh_from_samples(id, g());
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        M2 m;
        OK(c, "get_data", obsMesh2d(id, m));
        New w = fresh(c, name, old, m);
        // points that no triangle uses may be left out; the others keep their order
        size_t k = 0;
        std::vector<int> to;
        for (auto& q : w.nodes)
        {
            while (k < pts.size() && !(pts[k].x == q.x && pts[k].y == q.y))
                ++k;
            if (k == pts.size())
                c.fail("node-order:" + name, "%s: node %.12g %.12g is not one of the points or out of order", name.c_str(), q.x, q.y);
            to.push_back((int)k++);
        }
        std::set<std::vector<int>> have;
        P2 cc;
        double rad;
        for (auto f : w.faces)
        {
            if (f.size() != 3)
            {
                // a quadrilateral remains where a flat triangle was left out
                c.count("non_triangles");
                continue;
            }
            for (int& i : f)
                i = to[i];
            std::sort(f.begin(), f.end());
            have.insert(f);
            if (!emptyCircle(pts, f[0], f[1], f[2], -1e-6, cc, rad) && to.size() < pts.size())
            {
                c.count("around_unused_points"); // a point of which all triangles were flat is no node of the mesh
                continue;
            }
            if (!emptyCircle(pts, f[0], f[1], f[2], -1e-6, cc, rad))
                c.fail("not-delaunay:" + name, "%s: a point lies within the circle around triangle %d %d %d", name.c_str(), f[0], f[1], f[2]);
        }
        int N = (int)pts.size();
        for (int a = 0; a < N; ++a)
            for (int b = a + 1; b < N; ++b)
                for (int d = b + 1; d < N; ++d)
                {
                    double lo, hi;
                    angles(pts, a, b, d, lo, hi);
                    if (lo < 5.01 || hi > 149.9 || !emptyCircle(pts, a, b, d, 1e-6, cc, rad))
                        continue;
                    c.evals++;
                    if (!have.count({a, b, d}))
                        c.fail("triangle-missing:" + name, "%s: triangle %d %d %d is missing although no point lies in its circle", name.c_str(), a, b, d);
                }
        c.evals += (long long)have.size();
        c.observed(Hash().str(name).add(m.hash()).h);
    }
    void fillPolygon(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        M2 old = prepare(c, id, 0);
        const std::string name = "mesh2d_make_triangular_mesh_from_polygon";
        double s = r.p(0.5) ? 1 : std::pow(10, r.d(-1, 4));
        P2 o{s * r.d(-100, 100), s * r.d(-100, 100)};
        // a convex polygon with evenly spread nodes on its sides
        std::vector<P2> corner;
        int n = r.i(3, 7);
        double ph = r.d(0, 6.28), rx = s * r.d(5, 20), ry = rx * r.d(0.6, 1);
        for (int i = 0; i < n; ++i)
        {
            double a = ph + 2 * 3.14159265358979 * (i + r.d(-0.2, 0.2)) / n;
            corner.push_back(o + P2{rx * std::cos(a), ry * std::sin(a)});
        }
        double h = rx / r.d(1.5, 6);
        std::vector<P2> ring;
        for (int i = 0; i < n; ++i)
        {
            P2 a = corner[i], b = corner[(i + 1) % n];
            int k = std::max(1, (int)std::lround(dist(a, b) / h));
            for (int j = 0; j < k; ++j)
                ring.push_back(a + (b - a) * (double(j) / k));
        }
        if (r.p(0.5))
            std::reverse(ring.begin(), ring.end());
        ring.push_back(ring[0]);
        GL g(ring);
        c.op("%s %zu points", name.c_str(), ring.size());
        if (c.verbose)
            tracePoly(c, g);
        int rc = mkernel_mesh2d_make_triangular_mesh_from_polygon(id, g());
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        M2 m;
        OK(c, "get_data", obsMesh2d(id, m));
        New w = fresh(c, name, old, m);
        double want = 0, have = 0;
        {
            auto q = ring;
            q.pop_back();
            centroid(q, &want);
        }
        want = std::abs(want);
        double tol = 1e-7 * (rx + norm(o));
        for (auto& q : w.nodes)
        {
            double d = 1e300;
            for (size_t i = 0; i + 1 < ring.size(); ++i)
                d = std::min(d, distPointSeg(q, ring[i], ring[i + 1]));
            if (d > tol && insideRing(ring, q, 0) != 1)
                c.fail("outside:" + name, "%s: node %.12g %.12g lies outside the polygon", name.c_str(), q.x, q.y);
        }
        for (size_t i = 0; i + 1 < ring.size(); ++i)
        {
            bool found = false;
            for (auto& q : w.nodes)
                found = found || dist(q, ring[i]) <= tol;
            if (!found)
                c.fail("corner-missing:" + name, "%s: node %zu of the polygon is not a node of the mesh", name.c_str(), i);
        }
        double biggest = 0;
        for (auto& f : w.faces)
        {
            std::vector<P2> q;
            for (int k : f)
                q.push_back(w.nodes[k]);
            double A = 0;
            centroid(q, &A);
            have += std::abs(A);
            biggest = std::max(biggest, std::abs(A));
            if (f.size() != 3)
                c.fail("not-triangle:" + name, "%s: a face with %zu nodes", name.c_str(), f.size());
        }
        // flat triangles (an angle of more than 150 degrees) are left out by design; they can only lie at blunt corners
        // or on a side with a generated point close to it
        double flat = 0;
        for (size_t i = 0, k = ring.size() - 1; i < k; ++i)
        {
            P2 p = ring[(i + k - 1) % k], q = ring[i], n2 = ring[(i + 1) % k];
            double ar = std::abs((q.x - p.x) * (n2.y - q.y) - (q.y - p.y) * (n2.x - q.x)) / 2, l = dist(p, q) * dist(q, n2);
            if (2 * ar < l * std::sin(35 * DEG))
                flat += 2 * ar;
            flat += 0.068 * dist(q, n2) * dist(q, n2);
        }
        if (have > want * (1 + 1e-6) || have < want * (1 - 1e-6) - flat)
            c.fail("area:" + name, "%s: the triangles cover %.12g of the polygon's %.12g", name.c_str(), have, want);
        if (biggest > 6 * h * h)
            c.fail("coarse:" + name, "%s: a triangle of area %.6g in a polygon with segments of %.6g", name.c_str(), biggest, h);
        c.evals += (long long)(w.faces.size() + w.nodes.size());
        c.observed(Hash().str(name).add(m.hash()).h);
    }
    void global(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(r.p(0.8) ? 1 : 2);
        const std::string name = "mesh2d_make_global";
        int lon = r.i(3, 36), lat = r.i(1, 20);
        c.op("%s %d %d", name.c_str(), lon, lat);
        int rc = mkernel_mesh2d_make_global(id, lon, lat);
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        M2 m;
        OK(c, "get_data", obsMesh2d(id, m));
        const double dl = 360.0 / lon;
        std::map<long long, std::vector<double>> rows;
        for (int i = 0; i < m.numNodes(); ++i)
        {
            if (!m.nodeValid(i))
                c.fail("invalid-node:" + name, "%s: node %d is not valid", name.c_str(), i);
            if (std::abs(m.ny[i]) > 90 + 1e-9 || m.nx[i] < -180 - 1e-9 || m.nx[i] > 180 + 1e-9)
                c.fail("range:" + name, "%s: node %d at %.12g %.12g", name.c_str(), i, m.nx[i], m.ny[i]);
            rows[std::llround(m.ny[i] * 1e6)].push_back(m.nx[i]);
        }
        // the rows of cells get coarser once a cell would be smaller than 30 km: only rows before that are judged in detail
        auto it0 = rows.lower_bound(0);
        long long top = it0->first;
        for (auto nx = std::next(it0); nx != rows.end(); ++nx)
        {
            double dlat = (nx->first - top) * 1e-6;
            if (nx->first > 89900000 || dlat * DEG * 6378137.0 < 31000 || (int)nx->second.size() < lon)
                break;
            top = nx->first;
        }
        std::map<std::pair<long long, long long>, int> between;
        for (size_t e = 0; e + 1 < m.en.size(); e += 2)
        {
            int a = m.en[e], b = m.en[e + 1];
            if (a < 0 || b < 0)
                continue;
            auto ka = std::llround(m.ny[a] * 1e6), kb = std::llround(m.ny[b] * 1e6);
            between[{std::min(ka, kb), std::max(ka, kb)}]++;
        }
        for (auto& [k, v] : rows)
        {
            auto it = rows.find(-k);
            if (it == rows.end() || it->second.size() != v.size())
                c.fail("asymmetric:" + name, "%s: the %zu nodes at latitude %g have no counterpart on the other side of the equator", name.c_str(), v.size(), k * 1e-6);
            if (std::abs(k) > top)
                continue;
            if ((int)v.size() != lon)
                c.fail("row:" + name, "%s: %zu nodes at latitude %g, %d asked for", name.c_str(), v.size(), k * 1e-6, lon);
            std::sort(v.begin(), v.end());
            for (size_t i = 0; i + 1 < v.size(); ++i)
                if (std::abs(v[i + 1] - v[i] - dl) > 1e-6)
                    c.fail("spacing:" + name, "%s: longitudes %.9g and %.9g follow each other at latitude %g, the distance should be %.9g", name.c_str(), v[i], v[i + 1], k * 1e-6, dl);
            if (between[{k, k}] != lon)
                c.fail("ring:" + name, "%s: %d edges along latitude %g, %d asked for", name.c_str(), between[{k, k}], k * 1e-6, lon);
            auto nx = std::next(rows.find(k));
            if (nx != rows.end() && std::abs(nx->first) <= top && between[{k, nx->first}] != lon)
                c.fail("columns:" + name, "%s: %d edges between latitudes %g and %g, %d asked for", name.c_str(), between[{k, nx->first}], k * 1e-6, nx->first * 1e-6, lon);
            c.evals++;
        }
        // cells about as high as they are wide
        for (auto it = rows.lower_bound(0), nx = std::next(it); nx != rows.end(); ++it, ++nx)
        {
            double a = it->first * 1e-6, b = nx->first * 1e-6, ratio = (b - a) / (dl * std::cos(0.5 * (a + b) * DEG));
            c.evals++;
            if (nx->first <= top && b + 1.6 * (b - a) < 89 && (ratio < 0.9 || ratio > 1.1))
                c.fail("aspect:" + name, "%s: cells between latitude %g and %g are %g times as high as wide", name.c_str(), a, b, ratio);
        }
        bool closed = rows.count(90000000) > 0;
        int R = (int)rows.size() - 1; // rows of cells
        if (rows.begin()->first != -rows.rbegin()->first || R > 2 * lat || (!closed && R != 2 * lat))
            c.fail("rows:" + name, "%s: %d rows of cells, %d asked for, %s", name.c_str(), R, 2 * lat, closed ? "up to the poles" : "not up to the poles");
        c.evals += m.numNodes();
        c.observed(Hash().str(name).add(m.hash()).h);
    }
    void circular(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        const std::string name = "curvilinear_compute_circular_grid";
        Par p;
        double s = r.p(0.5) ? 1 : std::pow(10, r.d(-1, 3));
        p.num_columns = r.i(2, 20);
        p.num_rows = r.i(2, 15);
        p.angle = r.d(-80, 80);
        p.origin_x = s * r.d(-50, 50);
        p.origin_y = s * r.d(-50, 50);
        p.block_size_x = s * r.d(0.5, 5);
        p.block_size_y = s * r.d(0.5, 5);
        p.radius_curvature = r.p(0.3) ? 0 : s * r.d(5, 60);
        (r.p(0.5) ? p.uniform_columns_fraction : p.maximum_uniform_size_columns) = 1.0;
        (r.p(0.5) ? p.uniform_rows_fraction : p.maximum_uniform_size_rows) = 1.0;
        bool graded = r.p(0.2);
        if (graded)
            p.uniform_columns_fraction = p.uniform_rows_fraction = 0.3, p.maximum_uniform_size_columns = r.d(1.5, 5), p.maximum_uniform_size_rows = r.d(1.5, 5);
        c.op("%s %dx%d radius %g block %g %g angle %g graded %d", name.c_str(), p.num_columns, p.num_rows, p.radius_curvature, p.block_size_x, p.block_size_y, p.angle, graded);
        int rc = mkernel_curvilinear_compute_circular_grid(id, p);
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        CG cg;
        OK(c, "get_data", obsCurvi(id, cg));
        double a = p.angle * DEG, tol = 1e-9 * (std::abs(p.origin_x) + std::abs(p.origin_y) + p.radius_curvature + p.num_columns * p.block_size_x + p.num_rows * p.block_size_y);
        P2 o{p.origin_x, p.origin_y};
        if (!graded)
        {
            Mat g = lattice(p.num_columns, p.num_rows, o, a, p.block_size_x, p.block_size_y);
            if (p.radius_curvature > 0)
            {
                double dt = std::min(p.block_size_x / p.radius_curvature, 360 * DEG / p.num_columns);
                for (int n = 0; n <= p.num_rows; ++n)
                    for (int m = 0; m <= p.num_columns; ++m)
                    {
                        double t = a + 90 * DEG - m * dt, q = p.radius_curvature + n * p.block_size_y;
                        g[n][m] = o + P2{q * std::cos(t), q * std::sin(t)};
                    }
            }
            sameGrid(c, name, g, cg, tol);
        }
        else
        {
            if (cg.n != p.num_rows + 1 || cg.m != p.num_columns + 1)
                c.fail("grid-size:" + name, "%s: %d x %d nodes", name.c_str(), cg.n, cg.m);
            // sizes between the block size and its largest multiple; straight rows and columns
            for (int n = 0; n < cg.n; ++n)
                for (int m = 0; m < cg.m; ++m)
                {
                    if (n + 1 < cg.n)
                    {
                        double d = dist(cg.at(n, m), cg.at(n + 1, m)) / p.block_size_y;
                        if (d < 1 - 1e-6 || d > 1e3)
                            c.fail("grading:" + name, "%s: cell side of %g times the block size", name.c_str(), d);
                    }
                    c.evals++;
                }
        }
        c.observed(Hash().str(name).vec(cg.x).vec(cg.y).h);
    }
    void transfinite(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        const std::string name = "curvilinear_compute_transfinite_from_polygon";
        int a = r.i(1, 8), b = r.i(1, 8);
        double s = r.p(0.5) ? 1 : std::pow(10, r.d(-1, 3));
        bool affine = r.p(0.4);
        P2 o{s * r.d(-50, 50), s * r.d(-50, 50)};
        double t = r.d(0, 6.28), q = t + r.d(0.9, 2.2), A = s * r.d(10, 40), B = s * r.d(10, 40);
        P2 u{A * std::cos(t), A * std::sin(t)}, v{B * std::cos(q), B * std::sin(q)};
        P2 k[4] = {o, o + u, o + u + v, o + v};
        if (!affine)
            for (auto& z : k)
                z = z + P2{r.d(-0.15, 0.15) * A, r.d(-0.15, 0.15) * B};
        std::vector<P2> ring;
        std::vector<int> cornerAt;
        for (int side = 0; side < 4; ++side)
        {
            cornerAt.push_back((int)ring.size());
            int n = side % 2 ? b : a;
            P2 d = k[(side + 1) % 4] - k[side];
            double bend = affine ? 0 : r.d(-0.15, 0.15);
            for (int i = 0; i < n; ++i)
            {
                double f = double(i) / n;
                if (!affine && i > 0)
                    f += r.d(-0.2, 0.2) / n;
                ring.push_back(k[side] + d * f + P2{d.y, -d.x} * (bend * f * (1 - f)));
            }
        }
        int N = (int)ring.size(), rot = r.i(0, N - 1);
        bool rev = r.p(0.5), fourth = r.p(0.5);
        // the ring as passed: rotated, possibly reversed; sel: the selected nodes in it
        std::vector<P2> pass(N);
        std::vector<int> pos(N);
        for (int i = 0; i < N; ++i)
        {
            int j = rev ? ((rot - i) % N + N) % N : (rot + i) % N;
            pass[i] = ring[j];
            pos[j] = i;
        }
        int first = pos[cornerAt[0]], second = pos[cornerAt[1]], third = pos[cornerAt[2]];
        pass.push_back(pass[0]);
        GL g(pass);
        c.op("%s sides %d %d, nodes %d %d %d, fourth side %d, affine %d", name.c_str(), a, b, first, second, third, fourth, affine);
        if (c.verbose)
            tracePoly(c, g);
        int rc = mkernel_curvilinear_compute_transfinite_from_polygon(id, g(), first, second, third, fourth);
        if (rc)
            c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
        CG cg;
        OK(c, "get_data", obsCurvi(id, cg));
        if (!((cg.m == a + 1 && cg.n == b + 1) || (cg.m == b + 1 && cg.n == a + 1)))
            c.fail("grid-size:" + name, "%s: %d x %d nodes for sides of %d and %d segments", name.c_str(), cg.n, cg.m, a, b);
        double tol = 1e-8 * (norm(o) + A + B);
        // boundary of the grid as a cycle
        std::vector<P2> cyc;
        for (int m = 0; m + 1 < cg.m; ++m)
            cyc.push_back(cg.at(0, m));
        for (int n = 0; n + 1 < cg.n; ++n)
            cyc.push_back(cg.at(n, cg.m - 1));
        for (int m = cg.m - 1; m > 0; --m)
            cyc.push_back(cg.at(cg.n - 1, m));
        for (int n = cg.n - 1; n > 0; --n)
            cyc.push_back(cg.at(n, 0));
        int need = fourth || affine ? N : 2 * a + b + 1;
        double worst = 1e300;
        for (int st = 0; st < N && (int)cyc.size() == N; ++st)
            for (int dir = -1; dir <= 1; dir += 2)
            {
                double d = 0;
                for (int i = 0; i < need; ++i)
                    d = std::max(d, dist(cyc[((st + dir * i) % N + N) % N], ring[i]));
                worst = std::min(worst, d);
            }
        if (worst > tol)
            c.fail("boundary:" + name, "%s: the outer nodes of the grid are not those of the polygon (%.6g away)", name.c_str(), worst);
        for (int n = 0; n < cg.n; ++n)
            for (int m = 0; m < cg.m; ++m)
            {
                if (!cg.valid(n, m) || !std::isfinite(cg.x[n * cg.m + m] + cg.y[n * cg.m + m]))
                    c.fail("grid-valid:" + name, "%s: node %d %d is absent", name.c_str(), n, m);
                if (!affine)
                    continue;
                P2 c00 = cg.at(0, 0), want = c00 + (cg.at(0, cg.m - 1) - c00) * (double(m) / (cg.m - 1)) + (cg.at(cg.n - 1, 0) - c00) * (double(n) / (cg.n - 1));
                if (dist(want, cg.at(n, m)) > 10 * tol)
                    c.fail("interior:" + name, "%s: node %d %d of a parallelogram with evenly spread nodes is %.6g off", name.c_str(), n, m, dist(want, cg.at(n, m)));
            }
        c.evals += (long long)cg.n * cg.m;
        c.observed(Hash().str(name).vec(cg.x).vec(cg.y).h);
    }
    void caseC15(Ctx& c)
    {
        int k = c.rng.i(0, 99);
        if (k < 30)
            rectangular(c, 0);
        else if (k < 45)
            fromPolygon(c);
        else if (k < 60)
            triangles(c);
        else if (k < 70)
            fillPolygon(c);
        else if (k < 76)
            global(c);
        else if (k < 86)
            circular(c);
        else
            transfinite(c);
    }
    Reg r15("C15", caseC15, 20000, 300000);
}
