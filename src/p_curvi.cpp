// C14: editing of a curvilinear grid. Every step is predicted by an independent model of the grid.
#include "pcommon.hpp"

namespace
{
    struct Grid
    {
        int m = 0, n = 0;
        std::vector<P2> p;
        std::vector<char> ok;
        P2& at(int i, int j) { return p[i * m + j]; }
        const P2& at(int i, int j) const { return p[i * m + j]; }
        bool v(int i, int j) const { return i >= 0 && j >= 0 && i < n && j < m && ok[i * m + j]; }
        bool cell(int i, int j) const { return v(i, j) && v(i + 1, j) && v(i, j + 1) && v(i + 1, j + 1); }
        static Grid of(const CG& g)
        {
            Grid r;
            r.m = g.m;
            r.n = g.n;
            for (int i = 0; i < g.n; ++i)
                for (int j = 0; j < g.m; ++j)
                {
                    r.p.push_back(g.at(i, j));
                    r.ok.push_back(g.valid(i, j));
                }
            return r;
        }
        static Grid empty(int n, int m)
        {
            Grid r;
            r.n = n;
            r.m = m;
            r.p.assign(size_t(n) * m, {MISSING, MISSING});
            r.ok.assign(size_t(n) * m, 0);
            return r;
        }
        void set(int i, int j, P2 q)
        {
            at(i, j) = q;
            ok[i * m + j] = 1;
        }
        // nodes that are not a corner of a complete cell do not count
        Grid norm() const
        {
            Grid r = *this;
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    r.ok[i * m + j] = cell(i, j) || cell(i - 1, j) || cell(i, j - 1) || cell(i - 1, j - 1);
            return r;
        }
        int cells() const
        {
            int k = 0;
            for (int i = 0; i + 1 < n; ++i)
                for (int j = 0; j + 1 < m; ++j)
                    k += cell(i, j);
            return k;
        }
    };
    // natural cubic spline through the consecutive existing nodes p[lo..hi], at parameter s (lo <= s <= hi)
    P2 splinePoint(const std::vector<P2>& p, int lo, int hi, double s)
    {
        int k = hi - lo + 1;
        std::vector<P2> d(k, P2{0, 0}), rhs(k, P2{0, 0});
        std::vector<double> cp(k, 0.0);
        // second derivatives: d[i-1] + 4 d[i] + d[i+1] = 6 (p[i+1] - 2 p[i] + p[i-1])
        for (int i = 1; i + 1 < k; ++i)
        {
            double den = 4 - cp[i - 1];
            cp[i] = 1 / den;
            rhs[i] = ((p[lo + i + 1] - p[lo + i] * 2.0 + p[lo + i - 1]) * 6.0 - rhs[i - 1]) * (1 / den);
        }
        for (int i = k - 2; i > 0; --i)
            d[i] = rhs[i] - d[i + 1] * cp[i];
        int i = std::min(int(s) - lo, k - 2);
        double b = s - lo - i, a = 1 - b;
        return p[lo + i] * a + p[lo + i + 1] * b + (d[i] * (a * a * a - a) + d[i + 1] * (b * b * b - b)) * (1.0 / 6.0);
    }
    // on the grid line through (i,j) in n direction (alongN) or m direction, at fraction f of the way to the next node
    P2 onLine(const Grid& g, int i, int j, bool alongN, double f)
    {
        std::vector<P2> p;
        int L = alongN ? g.n : g.m, k = alongN ? i : j, lo = k, hi = k;
        for (int q = 0; q < L; ++q)
            p.push_back(alongN ? g.at(q, j) : g.at(i, q));
        auto v = [&](int q) { return alongN ? g.v(q, j) : g.v(i, q); };
        while (lo > 0 && v(lo - 1))
            --lo;
        while (hi + 1 < L && v(hi + 1))
            ++hi;
        return splinePoint(p, lo, hi, k + f);
    }
    struct GE
    {
        int n0, m0, n1, m1;
    };
    std::vector<GE> edgesOf(const Grid& g)
    {
        std::vector<GE> r;
        for (int i = 0; i < g.n; ++i)
            for (int j = 0; j < g.m; ++j)
            {
                if (g.v(i, j) && g.v(i + 1, j))
                    r.push_back({i, j, i + 1, j});
                if (g.v(i, j) && g.v(i, j + 1))
                    r.push_back({i, j, i, j + 1});
            }
        return r;
    }
    int cellsOf(const Grid& g, const GE& e)
    {
        return e.n0 == e.n1 ? g.cell(e.n0, e.m0) + g.cell(e.n0 - 1, e.m0) : g.cell(e.n0, e.m0) + g.cell(e.n0, e.m0 - 1);
    }
    // index of the nearest valid node; -1 if two are about as near
    int nearest(const Grid& g, P2 q, double tol)
    {
        double b = 1e300, s = 1e300;
        int k = -1;
        for (size_t i = 0; i < g.p.size(); ++i)
            if (g.ok[i])
            {
                double d = dist(g.p[i], q);
                if (d < b)
                    s = b, b = d, k = int(i);
                else
                    s = std::min(s, d);
            }
        return k >= 0 && s - b > tol ? k : -1;
    }
    std::string show(const Grid& g)
    {
        std::string s;
        for (int i = g.n - 1; i >= 0; --i)
        {
            for (int j = 0; j < g.m; ++j)
                s += g.v(i, j) ? 'o' : '.';
            s += ' ';
        }
        return s;
    }
    void compare(Ctx& c, const std::string& what, const Grid& exp, const Grid& got, double tol)
    {
        c.evals++;
        if (exp.m != got.m || exp.n != got.n)
            c.fail(what + ":size", "%s: %dx%d (n x m) nodes expected, %dx%d found", what.c_str(), exp.n, exp.m, got.n, got.m);
        Grid a = exp.norm(), b = got.norm();
        if (a.ok != b.ok)
            c.fail(what + ":nodes", "%s: other nodes than expected remain: expected %s found %s", what.c_str(), show(a).c_str(), show(b).c_str());
        for (int i = 0; i < a.n; ++i)
            for (int j = 0; j < a.m; ++j)
                if (a.v(i, j) && !(dist(a.at(i, j), b.at(i, j)) <= tol))
                    c.fail(what + ":position", "%s: node (n %d, m %d) expected at %.12g %.12g, found %.12g %.12g", what.c_str(), i, j, a.at(i, j).x, a.at(i, j).y, b.at(i, j).x, b.at(i, j).y);
        Hash h;
        h.str(what).vec(b.ok).vec(b.p);
        c.observed(h.h);
    }
    Grid look(Ctx& c, int id)
    {
        CG g;
        OK(c, "curvilinear_get", obsCurvi(id, g));
        return Grid::of(g);
    }
    P2 near(Rng& r, P2 q, double h) { return q + P2{r.d(-0.25, 0.25) * h, r.d(-0.25, 0.25) * h}; }

    void checkBoundary(Ctx& c, int id, const Grid& g)
    {
        Rng& r = c.rng;
        int n0 = 0, m0 = 0, n1 = g.n - 1, m1 = g.m - 1;
        if (r.p(0.4))
        {
            n0 = r.i(0, g.n - 2);
            n1 = r.i(n0 + 1, g.n - 1);
            m0 = r.i(0, g.m - 2);
            m1 = r.i(m0 + 1, g.m - 1);
        }
        std::map<std::pair<int, int>, int> cnt;
        auto add = [&](int i0, int j0, int i1, int j1)
        { cnt[{i0 * g.m + j0, i1 * g.m + j1}]++; };
        int cells = 0;
        for (int i = n0; i < n1; ++i)
            for (int j = m0; j < m1; ++j)
                if (g.cell(i, j))
                {
                    cells++;
                    add(i, j, i + 1, j);
                    add(i, j + 1, i + 1, j + 1);
                    add(i, j, i, j + 1);
                    add(i + 1, j, i + 1, j + 1);
                }
        // edges of the grid may coincide in space: they are compared with their multiplicity
        std::multiset<EdgeKey> want;
        for (auto& [k, n] : cnt)
            if (n == 1)
                want.insert(ekey(g.p[k.first], g.p[k.second]));
        c.op("boundaries of block n %d..%d m %d..%d (%d cells)", n0, n1, m0, m1, cells);
        if (!cells)
            return;
        int num = 0;
        OK(c, "curvilinear_count_boundaries", mkernel_curvilinear_count_boundaries_as_polygons(id, n0, m0, n1, m1, num));
        GL gl(std::max(num, 0), -7777.0);
        OK(c, "curvilinear_get_boundaries", mkernel_curvilinear_get_boundaries_as_polygons(id, n0, m0, n1, m1, gl()));
        std::multiset<EdgeKey> got;
        auto pts = gl.pts();
        for (size_t i = 0; i + 1 < pts.size(); ++i)
            if (pts[i].x != MISSING && pts[i + 1].x != MISSING && pts[i].x != INNER_SEP && pts[i + 1].x != INNER_SEP)
                got.insert(ekey(pts[i], pts[i + 1]));
        c.evals++;
        c.count("boundary_edges", want.size());
        if (want != got)
            c.fail("boundary", "boundary of the grid block has %zu edges, %zu of them expected, %zu expected in total", got.size(), (size_t)std::count_if(got.begin(), got.end(), [&](auto& k)
                                                                                                                                                              { return want.count(k) > 0; }),
                   want.size());
    }
    void checkLocation(Ctx& c, int id, const Grid& g, const Box& bx, double h)
    {
        Rng& r = c.rng;
        for (int k = 0; k < 6; ++k)
        {
            int type = r.i(0, 2);
            P2 q = bx.rnd(r, 0.2);
            Box b = bx;
            double mg = bx.diag();
            b.x0 -= mg, b.y0 -= mg, b.x1 += mg, b.y1 += mg;
            bool all = r.p(0.6);
            if (!all)
            {
                P2 a = bx.rnd(r, 0.2), d = bx.rnd(r, 0.2);
                b = Box{};
                b.add(a);
                b.add(d);
            }
            std::vector<std::pair<P2, int>> cand;
            if (type == 1)
                for (int i = 0; i < g.n * g.m; ++i)
                {
                    if (g.ok[i])
                        cand.push_back({g.p[i], i});
                }
            else if (type == 2)
            {
                int e = 0;
                for (int i = 0; i + 1 < g.n; ++i)
                    for (int j = 0; j < g.m; ++j, ++e)
                        if (g.v(i, j) && g.v(i + 1, j))
                            cand.push_back({(g.at(i, j) + g.at(i + 1, j)) * 0.5, e});
                for (int i = 0; i < g.n; ++i)
                    for (int j = 0; j + 1 < g.m; ++j, ++e)
                        if (g.v(i, j) && g.v(i, j + 1))
                            cand.push_back({(g.at(i, j) + g.at(i, j + 1)) * 0.5, e});
            }
            else
            {
                int f = 0;
                for (int i = 0; i + 1 < g.n; ++i)
                    for (int j = 0; j + 1 < g.m; ++j, ++f)
                        if (g.cell(i, j))
                            cand.push_back({(g.at(i, j) + g.at(i + 1, j) + g.at(i, j + 1) + g.at(i + 1, j + 1)) * 0.25, f});
            }
            double best = 1e300, second = 1e300;
            int idx = -1;
            bool edge = false;
            for (auto& [p, i] : cand)
            {
                double e = std::min(std::min(p.x - b.x0, b.x1 - p.x), std::min(p.y - b.y0, b.y1 - p.y));
                if (std::abs(e) < 1e-6 * h)
                    edge = true;
                if (e < 0)
                    continue;
                double d = dist(p, q);
                if (d < best)
                    second = best, best = d, idx = i;
                else
                    second = std::min(second, d);
            }
            if (edge || second - best < 1e-6 * h)
                continue;
            int got = -5;
            BoundingBox bb{};
            bb.xLowerLeft = b.x0;
            bb.yLowerLeft = b.y0;
            bb.xUpperRight = b.x1;
            bb.yUpperRight = b.y1;
            c.op("location index type %d at %.17g %.17g box %.17g %.17g %.17g %.17g", type, q.x, q.y, b.x0, b.y0, b.x1, b.y1);
            int rc = mkernel_curvilinear_get_location_index(id, q.x, q.y, type, bb, got);
            c.evals++;
            if (idx < 0)
            {
                c.count("locations_none");
                if (rc == 0 && got >= 0)
                    c.fail("location-none", "nothing of type %d lies in the box, index %d returned", type, got);
                continue;
            }
            c.count("locations");
            if (rc != 0)
                c.fail("location-error", "get_location_index type %d returned %d: %s", type, rc, lastError().c_str());
            if (got != idx)
            {
                double dg = -1;
                for (auto& [p, i] : cand)
                    if (i == got)
                        dg = dist(p, q);
                c.fail("location", "location type %d: index %d at distance %.9g returned, %d at distance %.9g is the nearest in the box, next %.9g", type, got, dg, idx, best, second);
            }
        }
    }
    void checkMesh(Ctx& c, int id, const Grid& g)
    {
        // the grid is moved to the mesh; undo brings it back
        c.op("convert_to_mesh2d");
        OK(c, "curvilinear_convert_to_mesh2d", mkernel_curvilinear_convert_to_mesh2d(id));
        M2 m;
        OK(c, "mesh2d_get", obsMesh2d(id, m));
        m = m.compact();
        Grid a = g.norm();
        std::multiset<std::pair<double, double>> wn, gn;
        std::multiset<EdgeKey> we, ge;
        for (size_t i = 0; i < a.p.size(); ++i)
            if (a.ok[i])
                wn.insert({a.p[i].x, a.p[i].y});
        int cells = a.cells();
        for (auto& e : edgesOf(g)) // also edges that bound no cell
            if (a.v(e.n0, e.m0) && a.v(e.n1, e.m1))
                we.insert(ekey(a.at(e.n0, e.m0), a.at(e.n1, e.m1)));
        std::multiset<EdgeKey> wmin; // edges of the cells
        for (auto& e : edgesOf(a))
            if (cellsOf(a, e))
                wmin.insert(ekey(a.at(e.n0, e.m0), a.at(e.n1, e.m1)));
        for (int i = 0; i < m.numNodes(); ++i)
            gn.insert({m.nx[i], m.ny[i]});
        for (int i = 0; i < m.numEdges(); ++i)
            ge.insert(ekey(m.node(m.en[2 * i]), m.node(m.en[2 * i + 1])));
        c.evals++;
        if (!std::includes(gn.begin(), gn.end(), wn.begin(), wn.end()))
            c.fail("convert-nodes", "a node of the grid is missing from the converted mesh (%zu of grid, %zu of mesh)", wn.size(), gn.size());
        if (!std::includes(ge.begin(), ge.end(), wmin.begin(), wmin.end()))
            c.fail("convert-edges", "an edge of a cell is missing from the converted mesh");
        Grid raw = g;
        std::multiset<EdgeKey> wmax;
        for (auto& e : edgesOf(raw))
            wmax.insert(ekey(raw.at(e.n0, e.m0), raw.at(e.n1, e.m1)));
        if (!std::includes(wmax.begin(), wmax.end(), ge.begin(), ge.end()))
            c.fail("convert-extra-edges", "the converted mesh has an edge that is not an edge of the grid");
        if (m.numFaces() < cells && planarRegions(m).usable)
            c.fail("convert-faces", "converted mesh has %d faces, the grid %d cells", m.numFaces(), cells);
        c.count("conversions");
        bool un = false;
        int uid = id;
        OK(c, "undo_state", mkernel_undo_state(un, uid));
        Grid back = look(c, id);
        compare(c, "undo-of-conversion", g, back, 0.0);
    }

    void runCase(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        bool affine = r.p(0.5);
        double h = r.p(0.6) ? 10.0 : r.p(0.5) ? 0.1 : 1000.0;
        CG g0 = genCurvi(r, 1, r.p(0.3) ? 3 : 8, h, affine ? 0 : 0.12, {r.d(-5, 5) * h, r.d(-5, 5) * h});
        double drop = r.p(0.3) ? r.d(0, 0.3) : 0;
        for (size_t i = 0; i < g0.x.size(); ++i)
            if (drop > 0 && r.p(drop))
                g0.x[i] = g0.y[i] = MISSING;
        c.op("curvilinear_set n %d m %d nodes, h %g %s", g0.n, g0.m, h, affine ? "affine" : "irregular");
        if (c.verbose)
            for (int i = 0; i < g0.n; ++i)
                for (int j = 0; j < g0.m; ++j)
                    c.op("   (n %d m %d) %.17g %.17g", i, j, g0.at(i, j).x, g0.at(i, j).y);
        OK(c, "curvilinear_set", setCurvi(id, g0));
        Grid g = look(c, id);
        Box bx = boxOf(g0);
        double tol = 1e-9 * (h + bx.diag() + std::abs(bx.x0) + std::abs(bx.y0));
        compare(c, "set", Grid::of(g0), g, 0.0);
        int steps = r.i(1, c.thorough ? 10 : 6);
        for (int s = 0; s < steps; ++s)
        {
            if (g.norm().cells() == 0)
                return;
            bx = Box{};
            for (size_t i = 0; i < g.p.size(); ++i)
                if (g.ok[i])
                    bx.add(g.p[i]);
            int op = r.i(0, 11);
            std::vector<std::pair<int, P2>> alt;
            Grid e = g;
            std::string name;
            int rc = 0;
            double ptol = tol;
            // two grid points, generally not exactly on a node
            auto pickNode = [&](int& i, int& j, P2& q)
            {
                for (int t = 0; t < 30; ++t)
                {
                    i = r.i(0, g.n - 1);
                    j = r.i(0, g.m - 1);
                    if (!g.v(i, j))
                        continue;
                    q = r.p(0.5) ? g.at(i, j) : near(r, g.at(i, j), h);
                    int k = nearest(g, q, 1e-6 * h);
                    if (k < 0)
                        continue;
                    i = k / g.m;
                    j = k % g.m;
                    return true;
                }
                return false;
            };
            auto pickLine = [&](int& n0, int& m0, int& n1, int& m1, P2& a, P2& b)
            {
                for (int t = 0; t < 30; ++t)
                {
                    if (!pickNode(n0, m0, a))
                        return false;
                    bool alongM = r.p(0.5);
                    n1 = alongM ? n0 : r.i(0, g.n - 1);
                    m1 = alongM ? r.i(0, g.m - 1) : m0;
                    if ((n1 == n0 && m1 == m0) || !g.v(n1, m1))
                        continue;
                    b = g.at(n1, m1);
                    if (nearest(g, b, 1e-6 * h) != n1 * g.m + m1)
                        continue;
                    return true;
                }
                return false;
            };
            int n0, m0, n1, m1;
            P2 a, b;
            if (op == 0)
            {
                name = "delete_node";
                if (!pickNode(n0, m0, a))
                    continue;
                c.op("delete_node n %d m %d at %.17g %.17g", n0, m0, a.x, a.y);
                e.ok[n0 * e.m + m0] = 0;
                rc = mkernel_curvilinear_delete_node(id, a.x, a.y);
            }
            else if (op == 1)
            {
                name = "move_node";
                if (!pickNode(n0, m0, a))
                    continue;
                P2 t = g.at(n0, m0) + P2{r.d(-0.2, 0.2) * h, r.d(-0.2, 0.2) * h};
                c.op("move_node n %d m %d at %.17g %.17g to %.17g %.17g", n0, m0, a.x, a.y, t.x, t.y);
                affine = false;
                e.set(n0, m0, t);
                ptol = 0;
                rc = mkernel_curvilinear_move_node(id, a.x, a.y, t.x, t.y);
            }
            else if (op == 2 || op == 3)
            {
                bool in = op == 2;
                name = in ? "delete_interior" : "delete_exterior";
                if (!pickNode(n0, m0, a) || !pickNode(n1, m1, b))
                    continue;
                int nl = std::min(n0, n1), nh = std::max(n0, n1), ml = std::min(m0, m1), mh = std::max(m0, m1);
                if (!in && (nh - nl < 1 || mh - ml < 1))
                    continue;
                if (nh == nl && mh == ml)
                    continue;
                c.op("%s n %d..%d m %d..%d", name.c_str(), nl, nh, ml, mh);
                for (int i = 0; i < e.n; ++i)
                    for (int j = 0; j < e.m; ++j)
                        if (in ? (i > nl && i < nh && j > ml && j < mh) : (i < nl || i > nh || j < ml || j > mh))
                            e.ok[i * e.m + j] = 0;
                ptol = 0;
                rc = in ? mkernel_curvilinear_delete_interior(id, a.x, a.y, b.x, b.y) : mkernel_curvilinear_delete_exterior(id, a.x, a.y, b.x, b.y);
            }
            else if (op == 4 || op == 5 || op == 6)
            {
                int rn = 1, rm = 1, nl = 0, nh = g.n - 1, ml = 0, mh = g.m - 1;
                name = op == 4 ? "full_refine" : "refine";
                if (op == 4)
                {
                    rn = r.i(1, 4);
                    rm = r.i(1, 4);
                    if (g.n * rn > 60 || g.m * rm > 60)
                        continue;
                }
                else
                {
                    if (!pickLine(n0, m0, n1, m1, a, b))
                        continue;
                    int k = r.i(2, 5);
                    if (n0 == n1)
                        rm = k, ml = std::min(m0, m1), mh = std::max(m0, m1);
                    else
                        rn = k, nl = std::min(n0, n1), nh = std::max(n0, n1);
                }
                std::vector<int> fn(g.n), fm(g.m);
                for (int i = 1; i < g.n; ++i)
                    fn[i] = fn[i - 1] + (i - 1 >= nl && i - 1 < nh ? rn : 1);
                for (int j = 1; j < g.m; ++j)
                    fm[j] = fm[j - 1] + (j - 1 >= ml && j - 1 < mh ? rm : 1);
                if (fn.back() > 120 || fm.back() > 120)
                    continue;
                e = Grid::empty(fn.back() + 1, fm.back() + 1);
                Grid base = g.norm();
                std::vector<char> orig(e.p.size(), 0);
                for (int i = 0; i + 1 < g.n; ++i)
                    for (int j = 0; j + 1 < g.m; ++j)
                        if (base.cell(i, j))
                        {
                            int kn = fn[i + 1] - fn[i], km = fm[j + 1] - fm[j];
                            for (int u = 0; u <= kn; ++u)
                                for (int w = 0; w <= km; ++w)
                                {
                                    double s1 = double(u) / kn, t1 = double(w) / km;
                                    P2 q = g.at(i, j) * ((1 - s1) * (1 - t1)) + g.at(i + 1, j) * (s1 * (1 - t1)) + g.at(i, j + 1) * ((1 - s1) * t1) + g.at(i + 1, j + 1) * (s1 * t1);
                                    e.set(fn[i] + u, fm[j] + w, q);
                                    char& kind = orig[(fn[i] + u) * e.m + fm[j] + w];
                                    if ((u == 0 || u == kn) && (w == 0 || w == km))
                                        kind = 1;
                                    else if (u == 0 || u == kn)
                                        kind = 2, e.at(fn[i] + u, fm[j] + w) = onLine(g, u ? i + 1 : i, j, false, t1);
                                    else if (w == 0 || w == km)
                                        kind = 2, e.at(fn[i] + u, fm[j] + w) = onLine(g, i, w ? j + 1 : j, true, s1);
                                }
                        }
                if (op == 4)
                {
                    c.op("full_refine m %d n %d", rm, rn);
                    rc = mkernel_curvilinear_full_refine(id, rm, rn);
                }
                else
                {
                    c.op("refine %d n %d..%d m %d..%d points %.17g %.17g %.17g %.17g", rn * rm, n0, n1, m0, m1, a.x, a.y, b.x, b.y);
                    rc = mkernel_curvilinear_refine(id, a.x, a.y, b.x, b.y, rn * rm);
                }
                if (rc)
                    c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
                Grid got = look(c, id);
                double cellMax = 0;
                for (auto& q : edgesOf(g))
                    cellMax = std::max(cellMax, dist(g.at(q.n0, q.m0), g.at(q.n1, q.m1)));
                compare(c, name, e, got, affine ? 1e3 * tol : cellMax);
                for (size_t i = 0; i < e.p.size(); ++i)
                    if (orig[i] == 2 && e.ok[i] && dist(e.p[i], got.p[i]) > 1e-6 * h)
                        c.fail(name + ":line", "%s: new node (n %zu m %zu) is not on the interpolated grid line: expected %.12g %.12g, found %.12g %.12g", name.c_str(), i / e.m, i % e.m, e.p[i].x, e.p[i].y, got.p[i].x, got.p[i].y);
                if (nl != 0 || nh != g.n - 1 || ml != 0 || mh != g.m - 1)
                    affine = false;
                for (size_t i = 0; i < e.p.size(); ++i)
                    if (orig[i] == 1 && e.ok[i] && dist(e.p[i], got.p[i]) > tol)
                        c.fail(name + ":original", "%s moved node (n %zu m %zu) of the original grid from %.12g %.12g to %.12g %.12g", name.c_str(), i / e.m, i % e.m, e.p[i].x, e.p[i].y, got.p[i].x, got.p[i].y);
                c.count(name);
                if (op != 4 && r.p(0.5) && got.norm().ok == got.ok)
                {
                    // taking the added lines out again restores the grid: each refined cell by itself
                    int lo = op != 4 && rm > 1 ? ml : nl, hi = rm > 1 ? mh : nh;
                    bool ok = true;
                    Grid cur = got;
                    for (int q = lo; q < hi && ok; ++q)
                    {
                        P2 u, w;
                        int iu, ju, iw, jw;
                        ok = false;
                        // some grid line with valid end points
                        for (int t = 0; t < (rm > 1 ? cur.n : cur.m) && !ok; ++t)
                        {
                            if (rm > 1)
                                iu = iw = t, ju = q, jw = q + rm;
                            else
                                ju = jw = t, iu = q, iw = q + rn;
                            ok = cur.v(iu, ju) && cur.v(iw, jw);
                            if (ok)
                                u = cur.at(iu, ju), w = cur.at(iw, jw), ok = nearest(cur, u, 1e-6 * h) == iu * cur.m + ju && nearest(cur, w, 1e-6 * h) == iw * cur.m + jw;
                        }
                        if (!ok)
                            break;
                        c.op("derefine back n %d..%d m %d..%d", iu, iw, ju, jw);
                        OK(c, "curvilinear_derefine", mkernel_curvilinear_derefine(id, u.x, u.y, w.x, w.y));
                        cur = look(c, id);
                    }
                    if (ok)
                    {
                        compare(c, "derefine-after-refine", g.norm(), cur, tol);
                        c.count("refine_derefine");
                    }
                    g = cur;
                }
                else
                    g = got;
                if (g.n * g.m > 1500)
                    return;
                continue;
            }
            else if (op == 7)
            {
                name = "derefine";
                if (!pickLine(n0, m0, n1, m1, a, b))
                    continue;
                int nl = std::min(n0, n1), nh = std::max(n0, n1), ml = std::min(m0, m1), mh = std::max(m0, m1);
                c.op("derefine n %d..%d m %d..%d", nl, nh, ml, mh);
                std::vector<int> kn, km;
                for (int i = 0; i < g.n; ++i)
                    if (!(i > nl && i < nh))
                        kn.push_back(i);
                for (int j = 0; j < g.m; ++j)
                    if (!(j > ml && j < mh))
                        km.push_back(j);
                e = Grid::empty(int(kn.size()), int(km.size()));
                for (size_t i = 0; i < kn.size(); ++i)
                    for (size_t j = 0; j < km.size(); ++j)
                        if (g.v(kn[i], km[j]))
                            e.set(int(i), int(j), g.at(kn[i], km[j]));
                affine = affine && nh - nl < 2 && mh - ml < 2;
                ptol = 0;
                rc = mkernel_curvilinear_derefine(id, a.x, a.y, b.x, b.y);
            }
            else if (op == 8 || op == 9)
            {
                name = "insert_face";
                Grid gn = g.norm();
                auto ed = edgesOf(g);
                P2 q;
                int best = -1;
                for (int t = 0; t < 20 && best < 0; ++t)
                {
                    auto& x = r.pick(ed);
                    if (cellsOf(gn, x) != 1 && r.p(0.8))
                        continue;
                    q = near(r, (g.at(x.n0, x.m0) + g.at(x.n1, x.m1)) * 0.5, h);
                    double b1 = 1e300, b2 = 1e300;
                    for (size_t k = 0; k < ed.size(); ++k)
                    {
                        double d = dist(q, (g.at(ed[k].n0, ed[k].m0) + g.at(ed[k].n1, ed[k].m1)) * 0.5);
                        if (d < b1)
                            b2 = b1, b1 = d, best = int(k);
                        else
                            b2 = std::min(b2, d);
                    }
                    if (b2 - b1 < 1e-6 * h)
                        best = -1;
                }
                if (best < 0)
                    continue;
                GE x = ed[best];
                int nc = cellsOf(gn, x);
                c.op("insert_face at %.17g %.17g nearest edge (n %d m %d)-(n %d m %d) of %d cells", q.x, q.y, x.n0, x.m0, x.n1, x.m1, nc);
                rc = mkernel_curvilinear_insert_face(id, q.x, q.y);
                if (nc == 1)
                {
                    // where the new cell goes: away from the existing one
                    bool vert = x.m0 == x.m1; // edge in n direction, cell to be added in m direction
                    int dir = vert ? (gn.cell(x.n0, x.m0) ? -1 : 1) : (gn.cell(x.n0, x.m0) ? -1 : 1);
                    int dn = vert ? 0 : dir, dm = vert ? dir : 0;
                    // nodes already there keep their position
                    int an = 0, am = 0; // shift
                    Grid w = gn;
                    if (x.n0 + dn < 0 || x.n0 + dn >= g.n || x.m0 + dm < 0 || x.m0 + dm >= g.m)
                    {
                        w = Grid::empty(g.n + (dn != 0), g.m + (dm != 0));
                        an = dn < 0;
                        am = dm < 0;
                        for (int i = 0; i < g.n; ++i)
                            for (int j = 0; j < g.m; ++j)
                                if (gn.v(i, j))
                                    w.set(i + an, j + am, g.at(i, j));
                    }
                    bool occ0 = w.v(x.n0 + an + dn, x.m0 + am + dm), occ1 = w.v(x.n1 + an + dn, x.m1 + am + dm);
                    P2 p0 = g.at(x.n0, x.m0) * 2.0 - g.at(x.n0 - dn, x.m0 - dm), p1 = g.at(x.n1, x.m1) * 2.0 - g.at(x.n1 - dn, x.m1 - dm);
                    // a node that is already there may stay or move to the place of the new one
                    alt.clear();
                    if (occ0)
                        alt.push_back({(x.n0 + an + dn) * w.m + x.m0 + am + dm, p0});
                    else
                        w.set(x.n0 + an + dn, x.m0 + am + dm, p0);
                    if (occ1)
                        alt.push_back({(x.n1 + an + dn) * w.m + x.m1 + am + dm, p1});
                    else
                        w.set(x.n1 + an + dn, x.m1 + am + dm, p1);
                    c.count(occ0 || occ1 ? "insert_face_beside_others" : "insert_face_free");
                    e = w;
                    ptol = 4 * tol;
                }
                else if (nc == 2)
                {
                    c.count("insert_face_interior");
                    if (rc == 0)
                        c.fail("insert_face:interior", "insert_face at an edge between two cells reports success");
                    compare(c, "refused insert_face", g, look(c, id), 0.0);
                    continue;
                }
                else
                    return; // edge without a cell
            }
            else if (op == 10)
            {
                name = "line_mirror";
                Grid gn = g.norm();
                bool alongM = r.p(0.5), hi = r.p(0.5);
                int L = alongM ? g.m : g.n, D = alongM ? g.n : g.m, fixed = hi ? D - 1 : 0;
                if (r.p(0.3))
                    fixed = r.i(0, D - 1);
                int s0 = r.i(0, L - 2), s1 = r.i(s0 + 1, L - 1);
                if (r.p(0.4))
                    s0 = 0, s1 = L - 1;
                auto I = [&](int k, int line) { return alongM ? line : k; };
                auto J = [&](int k, int line) { return alongM ? k : line; };
                if (!g.v(I(s0, fixed), J(s0, fixed)) || !g.v(I(s1, fixed), J(s1, fixed)) || g.n * g.m > 1500)
                    continue;
                bool lower = false, upper = false;
                for (int k = s0; k < s1; ++k)
                {
                    lower = lower || gn.cell(I(k, fixed - 1), J(k, fixed - 1));
                    upper = upper || gn.cell(I(k, fixed), J(k, fixed));
                }
                a = g.at(I(s0, fixed), J(s0, fixed));
                b = g.at(I(s1, fixed), J(s1, fixed));
                if (nearest(g, a, 1e-6 * h) < 0 || nearest(g, b, 1e-6 * h) < 0)
                    continue;
                if (r.p(0.5))
                    std::swap(a, b);
                double f = r.p(0.3) ? 1.0 : r.d(0.3, 1.5);
                c.op("line_mirror %g %s line %d positions %d..%d", f, alongM ? "n" : "m", fixed, s0, s1);
                rc = mkernel_curvilinear_line_mirror(id, f, a.x, a.y, b.x, b.y);
                if (lower == upper)
                {
                    c.count("line_mirror_not_boundary");
                    if (rc == 0)
                        c.fail("line_mirror:interior", "line_mirror of a line that is not a boundary reports success");
                    compare(c, "refused line_mirror", g, look(c, id), 0.0);
                    continue;
                }
                int dir = upper ? -1 : 1, target = fixed + dir, inner = fixed - dir;
                bool add = target < 0 || target >= D;
                int sh = add && target < 0;
                e = Grid::empty(g.n + (alongM && add), g.m + (!alongM && add));
                for (int i = 0; i < g.n; ++i)
                    for (int j = 0; j < g.m; ++j)
                        if (gn.v(i, j))
                            e.set(i + (alongM ? sh : 0), j + (alongM ? 0 : sh), g.at(i, j));
                for (int k = s0; k <= s1; ++k)
                    if (gn.v(I(k, fixed), J(k, fixed)) && gn.v(I(k, inner), J(k, inner)))
                    {
                        P2 q = g.at(I(k, fixed), J(k, fixed)) * (1 + f) - g.at(I(k, inner), J(k, inner)) * f;
                        int ii = I(k, target + sh), jj = J(k, target + sh);
                        if (e.v(ii, jj))
                            alt.push_back({ii * e.m + jj, q});
                        else
                            e.set(ii, jj, q);
                    }
                c.count(add ? "line_mirror_border" : "line_mirror_inner");
                if (f != 1.0)
                    affine = false;
                ptol = 4 * tol;
            }
            else
            {
                int w = r.i(0, 2);
                if (w == 0)
                    checkBoundary(c, id, g);
                else if (w == 1)
                    checkLocation(c, id, g, bx, h);
                else
                    checkMesh(c, id, g);
                continue;
            }
            if (rc)
                c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
            c.count(name);
            Grid got = look(c, id);
            for (auto& [k, q] : alt)
                if (got.p.size() == e.p.size() && dist(got.p[k], q) <= ptol)
                {
                    affine = affine && dist(e.p[k], q) < tol;
                    e.p[k] = q;
                }
            compare(c, name, e, got, ptol);
            g = got;
            if (r.p(0.25) && g.norm().cells())
                checkBoundary(c, id, g);
            if (r.p(0.25))
                checkLocation(c, id, g, bx, h);
        }
    }
    Reg r14("C14", runCase, 88000, 600000);
} // namespace
