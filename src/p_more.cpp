// C06: data given to a kernel is delivered back as given.
// C25: Casulli refinement, connecting meshes, grids from splines and grid measures follow their definitions.
#include "pcommon.hpp"

namespace
{
    Mesh2D raw2(const RawMesh& m, std::vector<double>& x, std::vector<double>& y, std::vector<int>& en)
    {
        for (auto& p : m.nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        for (auto& q : m.edges)
        {
            en.push_back(q[0]);
            en.push_back(q[1]);
        }
        Mesh2D d{};
        d.num_nodes = (int)x.size();
        d.num_edges = (int)en.size() / 2;
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = en.data();
        return d;
    }
    void shuffleMesh(Rng& r, RawMesh& m)
    {
        std::vector<int> ord(m.nodes.size()), ren(m.nodes.size());
        for (size_t i = 0; i < ord.size(); ++i)
            ord[i] = (int)i;
        for (size_t i = ord.size(); i > 1; --i)
            std::swap(ord[i - 1], ord[r.i(0, (int)i - 1)]);
        RawMesh n;
        for (size_t i = 0; i < ord.size(); ++i)
        {
            ren[ord[i]] = (int)i;
            n.nodes.push_back(m.nodes[ord[i]]);
        }
        for (auto& e : m.edges)
        {
            int a = ren[e[0]], b = ren[e[1]];
            if (r.p(0.5))
                std::swap(a, b);
            n.edges.push_back({a, b});
        }
        for (size_t i = n.edges.size(); i > 1; --i)
            std::swap(n.edges[i - 1], n.edges[r.i(0, (int)i - 1)]);
        m = n;
    }
    P2 rot(P2 p, double a) { return {p.x * std::cos(a) - p.y * std::sin(a), p.x * std::sin(a) + p.y * std::cos(a)}; }

    // ---- C06 ----
    struct Want
    {
        int id = 0, proj = 0;
        std::vector<P2> n2, n1;
        std::vector<int> e2, e1;
        CG cg;
        CT ct;
    };
    void compare(Ctx& c, const Want& w, const char* after)
    {
        auto same = [&](const std::vector<P2>& want, const std::vector<double>& x, const std::vector<double>& y, const std::vector<int>& we, const std::vector<int>& ge, const char* what)
        {
            c.evals++;
            if (x.size() != want.size() || y.size() != want.size() || we.size() != ge.size())
                c.fail(std::string("size:") + what, "after %s: the %s has %zu nodes and %zu edges, expected %zu and %zu", after, what, x.size(), ge.size() / 2, want.size(), we.size() / 2);
            for (size_t i = 0; i < x.size(); ++i)
                if (!(std::abs(x[i] - want[i].x) <= 1e-10 * (1 + std::abs(want[i].x)) && std::abs(y[i] - want[i].y) <= 1e-10 * (1 + std::abs(want[i].y))))
                    c.fail(std::string("node:") + what, "after %s: node %zu of the %s is at %.15g %.15g, expected %.15g %.15g", after, i, what, x[i], y[i], want[i].x, want[i].y);
            for (size_t i = 0; i < ge.size(); ++i)
                if (ge[i] != we[i])
                    c.fail(std::string("edge:") + what, "after %s: edge %zu of the %s joins node %d, expected %d", after, i / 2, what, ge[i], we[i]);
        };
        M2 m;
        M1 m1;
        CG g;
        CT ct;
        OK(c, "mesh2d_get_data", obsMesh2d(w.id, m));
        OK(c, "mesh1d_get_data", obsMesh1d(w.id, m1));
        OK(c, "curvilinear_get_data", obsCurvi(w.id, g));
        OK(c, "contacts_get_data", obsContacts(w.id, ct));
        same(w.n2, m.nx, m.ny, w.e2, m.en, "2D mesh");
        same(w.n1, m1.nx, m1.ny, w.e1, m1.en, "1D mesh");
        c.evals++;
        if (g.m != w.cg.m || g.n != w.cg.n)
            c.fail("size:grid", "after %s: the grid has %d x %d nodes, expected %d x %d", after, g.m, g.n, w.cg.m, w.cg.n);
        for (size_t i = 0; i < g.x.size(); ++i)
            if (!(std::abs(g.x[i] - w.cg.x[i]) <= 1e-10 * (1 + std::abs(w.cg.x[i])) && std::abs(g.y[i] - w.cg.y[i]) <= 1e-10 * (1 + std::abs(w.cg.y[i]))))
                c.fail("node:grid", "after %s: grid node %zu is at %.15g %.15g, expected %.15g %.15g", after, i, g.x[i], g.y[i], w.cg.x[i], w.cg.y[i]);
        c.evals++;
        if (ct.i1 != w.ct.i1 || ct.i2 != w.ct.i2)
            c.fail("contacts", "after %s: %zu contacts delivered that differ from the %zu given", after, ct.i1.size(), w.ct.i1.size());
        c.observed(Hash().vec(m.nx).vec(m.en).vec(m1.nx).vec(g.x).vec(ct.i1).h);
    }
    void caseC06(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        std::vector<Want> ws(r.i(1, 3));
        for (auto& w : ws)
        {
            w.proj = r.p(0.7) ? 0 : r.i(1, 2);
            w.id = allocate(w.proj);
        }
        int steps = r.i(2, 12);
        for (int s = 0; s < steps; ++s)
        {
            Want& w = ws[r.i(0, (int)ws.size() - 1)];
            double h = w.proj ? r.d(0.1, 2) : r.p(0.2) ? 1e4 : r.p(0.2) ? 0.01 : 10;
            P2 o = w.proj ? P2{r.d(5, 100), r.d(5, 40)} : P2{r.d(-100, 100) * h, r.d(-100, 100) * h};
            int k = r.i(0, 9);
            const char* name = "";
            if (!w.n2.empty() && r.p(0.35)) // nodes are deleted in between, what is added comes behind them
            {
                int d = r.i(1, 3);
                for (int t = 0; t < d; ++t)
                {
                    int n = r.i(0, (int)w.n2.size() - 1);
                    if (w.n2[n].x == MISSING)
                        continue;
                    c.op("kernel %d: mesh2d_delete_node %d", w.id, n);
                    OK(c, "mesh2d_delete_node", mkernel_mesh2d_delete_node(w.id, n));
                    std::vector<char> used(w.n2.size(), 0);
                    for (size_t i = 0; i < w.e2.size(); i += 2)
                    {
                        if (w.e2[i] == n || w.e2[i + 1] == n)
                            w.e2[i] = w.e2[i + 1] = -1;
                        if (w.e2[i] >= 0)
                            used[w.e2[i]] = used[w.e2[i + 1]] = 1;
                    }
                    for (size_t i = 0; i < used.size(); ++i)
                        if (!used[i])
                            w.n2[i] = {MISSING, MISSING};
                }
                if (std::all_of(w.n2.begin(), w.n2.end(), [](P2 q) { return q.x == MISSING; }))
                    return;
                k = r.p(0.6) ? 3 : k;
                c.count("deleted_nodes", d);
            }
            if (k <= 3)
            {
                GenOpt q;
                q.h = h;
                q.origin = o;
                q.maxN = 7;
                q.randomAffine = !w.proj;
                RawMesh m = genMesh(r, q);
                if (m.nodes.empty() || m.edges.empty())
                    continue;
                std::vector<char> used(m.nodes.size(), 0);
                for (auto& e : m.edges)
                    used[e[0]] = used[e[1]] = 1;
                if (std::count(used.begin(), used.end(), 0))
                    continue;
                bool add = !w.n2.empty() && k == 3;
                name = add ? "mesh2d_add" : "mesh2d_set";
                c.op("kernel %d: %s %zu nodes %zu edges", w.id, name, m.nodes.size(), m.edges.size());
                OK(c, name, add ? addMesh2d(w.id, m) : setMesh2d(w.id, m, r.p(0.3)));
                if (!add)
                {
                    w.n2.clear();
                    w.e2.clear();
                }
                int off = (int)w.n2.size();
                w.n2.insert(w.n2.end(), m.nodes.begin(), m.nodes.end());
                for (auto& e : m.edges)
                {
                    w.e2.push_back(e[0] + off);
                    w.e2.push_back(e[1] + off);
                }
            }
            else if (k <= 6)
            {
                int n = r.i(2, 15);
                std::vector<P2> p(n);
                for (auto& q : p)
                    q = {o.x + h * r.d(0, 10), o.y + h * r.d(0, 10)};
                std::vector<std::array<int, 2>> e;
                for (int i = 1; i < n; ++i)
                {
                    int j = r.p(0.7) ? i - 1 : r.i(0, i - 1);
                    if (r.p(0.5))
                        e.push_back({i, j});
                    else
                        e.push_back({j, i});
                }
                bool add = !w.n1.empty() && k == 6;
                name = add ? "mesh1d_add" : "mesh1d_set";
                c.op("kernel %d: %s %d nodes %zu edges", w.id, name, n, e.size());
                if (add)
                {
                    std::vector<double> x, y;
                    std::vector<int> en;
                    RawMesh rm;
                    rm.nodes = p;
                    rm.edges = e;
                    raw2(rm, x, y, en);
                    Mesh1D d{};
                    d.num_nodes = n;
                    d.num_edges = (int)e.size();
                    d.node_x = x.data();
                    d.node_y = y.data();
                    d.edge_nodes = en.data();
                    OK(c, name, mkernel_mesh1d_add(w.id, d));
                }
                else
                {
                    OK(c, name, setMesh1d(w.id, p, e));
                    w.n1.clear();
                    w.e1.clear();
                }
                int off = (int)w.n1.size();
                w.n1.insert(w.n1.end(), p.begin(), p.end());
                for (auto& q : e)
                {
                    w.e1.push_back(q[0] + off);
                    w.e1.push_back(q[1] + off);
                }
            }
            else if (k <= 8)
            {
                CG g = genCurvi(r, 2, 7, h, 0.2, o);
                if (r.p(0.5)) // missing nodes: those of no remaining cell
                {
                    std::vector<char> keep(g.m * g.n, 0);
                    bool any = false;
                    for (int a = 0; a + 1 < g.n; ++a)
                        for (int b = 0; b + 1 < g.m; ++b)
                            if (r.p(0.6))
                            {
                                any = true;
                                keep[a * g.m + b] = keep[a * g.m + b + 1] = keep[(a + 1) * g.m + b] = keep[(a + 1) * g.m + b + 1] = 1;
                            }
                    for (int i = 0; any && i < g.m * g.n; ++i)
                        if (!keep[i])
                            g.x[i] = g.y[i] = MISSING;
                }
                name = "curvilinear_set";
                c.op("kernel %d: %s %d x %d", w.id, name, g.m, g.n);
                OK(c, name, setCurvi(w.id, g));
                w.cg = g;
            }
            else
            {
                CT ct;
                int n = r.i(1, 20);
                for (int i = 0; i < n; ++i)
                {
                    ct.i1.push_back(r.i(0, 30));
                    ct.i2.push_back(r.i(0, 30));
                }
                name = "contacts_set";
                Contacts q{};
                q.num_contacts = n;
                q.mesh1d_indices = ct.i1.data();
                q.mesh2d_indices = ct.i2.data();
                c.op("kernel %d: %s %d", w.id, name, n);
                OK(c, name, mkernel_contacts_set(w.id, q));
                w.ct = ct;
            }
            c.count(std::string("given_") + name);
            if (r.p(0.6) || s + 1 == steps)
                for (auto& v : ws)
                    compare(c, v, name);
        }
    }
    Reg r06("C06", caseC06, 12000, 200000);

    // ---- C25 ----
    // rectangles (or acute triangles), possibly two parts
    RawMesh casulliMesh(Rng& r, double h, P2 o, double a)
    {
        RawMesh m;
        int parts = r.p(0.25) ? 2 : 1;
        double x0 = 0;
        for (int p = 0; p < parts; ++p)
        {
            int nx = r.i(1, 6), ny = r.i(1, 6), off = (int)m.nodes.size();
            bool tri = r.p(0.3);
            std::vector<double> xs{x0}, ys{0};
            double hx = h * r.d(0.5, 2), hy = h * r.d(0.5, 2);
            bool even = r.p(0.4);
            for (int i = 0; i < nx; ++i)
                xs.push_back(xs.back() + (even || tri ? hx : h * r.d(0.5, 2)));
            if (tri)
                hy = hx * r.d(0.75, 1.2);
            for (int j = 0; j < ny; ++j)
                ys.push_back(ys.back() + (even || tri ? hy : h * r.d(0.5, 2)));
            for (int j = 0; j <= ny; ++j)
                for (int i = 0; i <= nx; ++i)
                    m.nodes.push_back({xs[i] + (tri ? 0.5 * hx * j : 0), ys[j]});
            auto at = [&](int i, int j) { return off + j * (nx + 1) + i; };
            for (int j = 0; j <= ny; ++j)
                for (int i = 0; i <= nx; ++i)
                {
                    if (i < nx)
                        m.edges.push_back({at(i, j), at(i + 1, j)});
                    if (j < ny)
                        m.edges.push_back({at(i, j), at(i, j + 1)});
                    if (tri && i < nx && j < ny)
                        m.edges.push_back({at(i + 1, j), at(i, j + 1)});
                }
            x0 = xs.back() + h * 10 * (tri ? 2 : 1);
        }
        for (auto& p : m.nodes)
            p = rot(p, a) + o;
        shuffleMesh(r, m);
        return m;
    }
    void casulli(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        double h = r.p(0.2) ? 1 : r.p(0.2) ? 1000 : 10, ang = r.p(0.5) ? 0 : r.d(0, 6.28);
        RawMesh rm = casulliMesh(r, h, {h * r.d(-20, 20), h * r.d(-20, 20)}, ang);
        OK(c, "mesh2d_set", setMesh2d(id, rm));
        M2 m;
        OK(c, "mesh2d_get_data", obsMesh2d(id, m));
        auto faces = m.faces();
        auto fe = m.faceEdges();
        const int nf = (int)faces.size();
        Box b = boxOf(m);
        PolySet ps;
        std::vector<char> sel(m.numNodes(), 1);
        bool part = r.p(0.4);
        if (part)
        {
            ps = genPolySet(r, b, true, true);
            if (ps.empty())
                part = false;
            else
                for (int i = 0; i < m.numNodes(); ++i)
                {
                    int k = insideSet(ps, m.node(i), 1e-6 * h);
                    if (k < 0)
                        c.skip();
                    sel[i] = k;
                }
        }
        c.op("casulli refinement of %d faces, %d nodes%s", nf, m.numNodes(), part ? " in a polygon" : "");
        struct N
        {
            P2 p;
        };
        std::vector<P2> en; // expected nodes
        std::map<std::pair<int, int>, int> fn, bn; // (face, node), (boundary edge, node) -> expected node
        std::map<int, int> on;                     // old node kept -> expected node
        std::vector<int> ef(m.numEdges(), 0), f1(m.numEdges(), -1), f2(m.numEdges(), -1);
        for (int f = 0; f < nf; ++f)
            for (int e : fe[f])
            {
                (ef[e] ? f2 : f1)[e] = f;
                ef[e]++;
            }
        std::vector<int> nfc(m.numNodes(), 0);
        for (auto& f : faces)
            for (int n : f)
                nfc[n]++;
        auto keepOld = [&](int n)
        {
            auto it = on.find(n);
            if (it != on.end())
                return it->second;
            en.push_back(m.node(n));
            return on[n] = (int)en.size() - 1;
        };
        for (int n = 0; n < m.numNodes(); ++n)
            if (!sel[n] || nfc[n] == 1)
                keepOld(n);
        for (int f = 0; f < nf; ++f)
        {
            P2 ctr{0, 0};
            if (faces[f].size() == 3)
            {
                P2 A = m.node(faces[f][0]), B = m.node(faces[f][1]), C = m.node(faces[f][2]);
                P2 u = B - A, v = C - A;
                double d = 2 * cross(u, v);
                ctr = {A.x + (v.y * dot(u, u) - u.y * dot(v, v)) / d, A.y + (u.x * dot(v, v) - v.x * dot(u, u)) / d};
            }
            else
                for (int n : faces[f])
                    ctr = ctr + m.node(n) * 0.25;
            for (int n : faces[f])
                if (sel[n])
                {
                    en.push_back((ctr + m.node(n)) * 0.5);
                    fn[{f, n}] = (int)en.size() - 1;
                }
                else
                    fn[{f, n}] = keepOld(n);
        }
        for (int e = 0; e < m.numEdges(); ++e)
            if (ef[e] == 1)
            {
                int A = m.en[2 * e], B = m.en[2 * e + 1];
                P2 mid = (m.node(A) + m.node(B)) * 0.5;
                for (int n : {A, B})
                    if (sel[n])
                    {
                        en.push_back((mid + m.node(n)) * 0.5);
                        bn[{e, n}] = (int)en.size() - 1;
                    }
                    else
                        bn[{e, n}] = keepOld(n);
            }
        std::set<std::pair<int, int>> ee;
        auto link = [&](int a, int q)
        {
            if (a != q)
                ee.insert({std::min(a, q), std::max(a, q)});
        };
        for (int e = 0; e < m.numEdges(); ++e)
        {
            int A = m.en[2 * e], B = m.en[2 * e + 1];
            link(fn[{f1[e], A}], fn[{f1[e], B}]);
            if (ef[e] == 2)
            {
                link(fn[{f2[e], A}], fn[{f2[e], B}]);
                link(fn[{f1[e], A}], fn[{f2[e], A}]);
                link(fn[{f1[e], B}], fn[{f2[e], B}]);
            }
            else
            {
                link(bn[{e, A}], bn[{e, B}]);
                link(fn[{f1[e], A}], bn[{e, A}]);
                link(fn[{f1[e], B}], bn[{e, B}]);
            }
        }
        for (int n = 0; n < m.numNodes(); ++n)
        {
            std::vector<int> be;
            for (int e = 0; e < m.numEdges(); ++e)
                if (ef[e] == 1 && (m.en[2 * e] == n || m.en[2 * e + 1] == n))
                    be.push_back(bn[{e, n}]);
            if (nfc[n] == 1)
                for (int q : be)
                    link(keepOld(n), q);
            else if (be.size() == 2)
                link(be[0], be[1]);
        }
        if (part)
        {
            GL g = ps.list();
            OK(c, "mesh2d_casulli_refinement_on_polygon", mkernel_mesh2d_casulli_refinement_on_polygon(id, g()));
        }
        else
            OK(c, "mesh2d_casulli_refinement", mkernel_mesh2d_casulli_refinement(id));
        M2 q;
        OK(c, "mesh2d_get_data", obsMesh2d(id, q));
        std::vector<int> of(q.numNodes(), -1), cnt(en.size(), 0);
        for (int i = 0; i < q.numNodes(); ++i)
            if (q.nodeValid(i))
            {
                c.evals++;
                for (size_t k = 0; k < en.size(); ++k)
                    if (dist(en[k], q.node(i)) < 1e-6 * h && !cnt[k])
                    {
                        of[i] = (int)k;
                        break;
                    }
                if (of[i] < 0)
                    c.fail("casulli:node", "node at %.12g %.12g is not where a node is to be placed or kept", q.nx[i], q.ny[i]);
                cnt[of[i]]++;
            }
        for (size_t k = 0; k < en.size(); ++k)
            if (cnt[k] != 1)
                c.fail("casulli:missing-node", "no node at %.12g %.12g", en[k].x, en[k].y);
        if (!part)
        {
            std::set<std::pair<int, int>> got;
            for (int e = 0; e < q.numEdges(); ++e)
                if (q.edgeValid(e))
                {
                    c.evals++;
                    int A = of[q.en[2 * e]], B = of[q.en[2 * e + 1]];
                    auto k = std::pair{std::min(A, B), std::max(A, B)};
                    if (!ee.count(k))
                        c.fail("casulli:edge", "edge %.12g %.12g - %.12g %.12g does not belong to the refined mesh", en[A].x, en[A].y, en[B].x, en[B].y);
                    got.insert(k);
                }
            for (auto& k : ee)
                if (!got.count(k))
                    c.fail("casulli:missing-edge", "no edge %.12g %.12g - %.12g %.12g", en[k.first].x, en[k.first].y, en[k.second].x, en[k.second].y);
        }
        c.count(part ? "casulli_polygon" : "casulli_whole");
        c.observed(Hash().vec(q.nx).vec(q.ny).h);
    }
    void measures(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        double h = r.p(0.3) ? 1 : r.p(0.3) ? 1000 : 10;
        CG g0 = genCurvi(r, 2, 9, h, r.p(0.2) ? 0 : 0.25, {h * r.d(-20, 20), h * r.d(-20, 20)});
        OK(c, "curvilinear_set", setCurvi(id, g0));
        Env e(c, id);
        e.refresh();
        int steps = r.i(0, 5);
        for (int s = 0; s < steps; ++s)
            randomStep(e, Curvi, EX);
        if (!e.hasGrid())
            c.skip();
        CG g;
        OK(c, "curvilinear_get_data", obsCurvi(id, g));
        int dir = r.i(0, 1);
        for (int what = 0; what < 2; ++what)
        {
            std::vector<double> v((size_t)g.m * g.n, -12345);
            const char* name = what ? "curvature" : "smoothness";
            c.op("%s in direction %d of %d x %d nodes", name, dir, g.n, g.m);
            OK(c, name, what ? mkernel_curvilinear_compute_curvature(id, dir, v.data()) : mkernel_curvilinear_compute_smoothness(id, dir, v.data()));
            for (int n = 0; n < g.n; ++n)
                for (int m = 0; m < g.m; ++m)
                {
                    // direction 0 is M, along a row; 1 is N
                    int dn = dir == 1, dm = dir == 0;
                    double want = MISSING, got = v[(size_t)n * g.m + m];
                    bool unsure = false;
                    if (n - dn >= 0 && n + dn < g.n && m - dm >= 0 && m + dm < g.m && g.valid(n, m) && g.valid(n - dn, m - dm) && g.valid(n + dn, m + dm))
                    {
                        P2 a = g.at(n - dn, m - dm), p = g.at(n, m), b = g.at(n + dn, m + dm);
                        double l = dist(a, p), q = dist(p, b);
                        if (what == 0)
                            want = l > 0 && q > 0 ? std::max(l, q) / std::min(l, q) : 1;
                        else
                        {
                            double ar = cross(p - a, b - p), ip = dot(b - p, b - a);
                            if (!(l > 0 && q > 0) || std::abs(ar) < 1e-5 * l * q || std::abs(ip) < 1e-5 * q * dist(a, b))
                                unsure = true;
                            else
                                want = 1000 * std::abs(ar / ip) / l;
                        }
                    }
                    if (unsure)
                        continue;
                    c.evals++;
                    if (!(std::abs(got - want) <= 1e-8 * std::abs(want)))
                        c.fail(std::string("grid-measure:") + name, "direction %d, grid node %d %d: %.12g reported, %.12g expected", dir, n, m, got, want);
                }
            c.observed(Hash().vec(v).h);
        }
        c.count("measures");
    }
    void transfinite(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        double h = r.p(0.3) ? 10 : r.p(0.5) ? 1000 : 100, ang = r.d(0, 6.28), sh = r.p(0.5) ? 0 : r.d(-0.4, 0.4);
        int nu = r.i(2, 4), nv = r.i(2, 4);
        P2 o{h * r.d(-5, 5), h * r.d(-5, 5)};
        std::vector<double> us{0}, vs{0};
        bool even = r.p(0.5);
        double hu = h * r.d(0.6, 2), hv = h * r.d(0.6, 2);
        for (int i = 1; i < nu; ++i)
            us.push_back(us.back() + (even ? hu : h * r.d(0.8, 1.4)));
        for (int i = 1; i < nv; ++i)
            vs.push_back(vs.back() + (even ? hv : h * r.d(0.8, 1.4)));
        auto pt = [&](double u, double v) { return o + rot({u + sh * v, v}, ang); };
        std::vector<std::vector<P2>> sp;
        for (int i = 0; i < nu; ++i)
        {
            std::vector<P2> s;
            int k = r.i(2, 5);
            double o1 = h * r.d(0.1, 0.4), o2 = h * r.d(0.1, 0.4);
            for (int j = 0; j < k; ++j)
                s.push_back(pt(us[i], -o1 + (vs.back() + o1 + o2) * j / (k - 1)));
            sp.push_back(s);
        }
        for (int i = 0; i < nv; ++i)
        {
            std::vector<P2> s;
            int k = r.i(2, 5);
            double o1 = h * r.d(0.1, 0.4), o2 = h * r.d(0.1, 0.4);
            for (int j = 0; j < k; ++j)
                s.push_back(pt(-o1 + (us.back() + o1 + o2) * j / (k - 1), vs[i]));
            sp.push_back(s);
        }
        for (auto& s : sp)
            if (r.p(0.3))
                std::reverse(s.begin(), s.end());
        for (size_t i = sp.size(); i > 1; --i)
            std::swap(sp[i - 1], sp[r.i(0, (int)i - 1)]);
        GL g;
        for (size_t i = 0; i < sp.size(); ++i)
        {
            if (i)
                g.add({MISSING, MISSING});
            for (auto& p : sp[i])
                g.add(p);
        }
        meshkernel::CurvilinearParameters par;
        par.m_refinement = r.i(1, 7);
        par.n_refinement = r.i(1, 7);
        bool which = r.p(0.5);
        c.op("%s: %d x %d straight splines, refinement %d %d, shear %g", which ? "grid_from_splines" : "transfinite_from_splines", nu, nv, par.m_refinement, par.n_refinement, sh);
        for (auto& s : sp)
            c.op("   spline %g %g -> %g %g (%zu)", s[0].x, s[0].y, s.back().x, s.back().y, s.size());
        OK(c, (which ? "grid_from_splines" : "transfinite_from_splines"), which ? mkernel_curvilinear_compute_grid_from_splines(id, g(), par) : mkernel_curvilinear_compute_transfinite_from_splines(id, g(), par));
        CG q;
        OK(c, "curvilinear_get_data", obsCurvi(id, q));
        if (c.verbose)
            for (int n = 0; n < q.n; ++n)
                for (int m = 0; m < q.m; ++m)
                    c.op("   node %d %d: %.10g %.10g", n, m, q.at(n, m).x, q.at(n, m).y);
        // positions in spline coordinates; the grid in one of the eight orientations. The crossings of the splines are grid
        // nodes, the nodes of the grid lines between them lie in order, and evenly spread if the splines are
        auto uv = [&](P2 p)
        {
            P2 l = rot(p - o, -ang);
            return P2{l.x - sh * l.y, l.y};
        };
        bool found = false, size = false;
        const double tol = 2e-3 * h;
        for (int o8 = 0; o8 < 8 && !found; ++o8)
        {
            bool mu = o8 & 1; // m runs along u, or along v
            std::vector<double> A = mu ? us : vs, B = mu ? vs : us;
            if (((int)A.size() - 1) * par.m_refinement + 1 != q.m || ((int)B.size() - 1) * par.n_refinement + 1 != q.n)
                continue;
            size = true;
            double sa = o8 & 2 ? -1 : 1, sb = o8 & 4 ? -1 : 1;
            if (sa < 0)
                std::reverse(A.begin(), A.end());
            if (sb < 0)
                std::reverse(B.begin(), B.end());
            bool ok = true;
            for (int n = 0; n < q.n && ok; ++n)
                for (int m = 0; m < q.m && ok; ++m)
                {
                    ok = q.valid(n, m);
                    if (!ok)
                        break;
                    auto ab = [&](int nn, int mm)
                    {
                        P2 l = uv(q.at(nn, mm));
                        return mu ? l : P2{l.y, l.x};
                    };
                    P2 l = ab(n, m);
                    int mi = m / par.m_refinement, mr = m % par.m_refinement, ni = n / par.n_refinement, nr = n % par.n_refinement;
                    if (mr == 0)
                        ok &= std::abs(l.x - A[mi]) < tol;
                    else if (even)
                        ok &= std::abs(l.x - (A[mi] + (A[mi + 1] - A[mi]) * mr / par.m_refinement)) < tol;
                    if (nr == 0)
                        ok &= std::abs(l.y - B[ni]) < tol;
                    else if (even)
                        ok &= std::abs(l.y - (B[ni] + (B[ni + 1] - B[ni]) * nr / par.n_refinement)) < tol;
                    if (m)
                        ok &= sa * (l.x - ab(n, m - 1).x) > 0;
                    if (n)
                        ok &= sb * (l.y - ab(n - 1, m).y) > 0;
                }
            found = ok;
        }
        c.evals += q.m * q.n;
        if (!size)
            c.fail(which ? "splines:grid-size" : "splines:transfinite-size", "the grid has %d x %d nodes for %d x %d splines with refinement %d %d", q.m, q.n, nu, nv, par.m_refinement, par.n_refinement);
        if (!found)
            c.fail(which ? "splines:grid" : "splines:transfinite", "the grid of %d x %d nodes does not have its nodes on the %d x %d straight splines with refinement %d %d%s", q.m, q.n, nu, nv, par.m_refinement, par.n_refinement, even ? " evenly spread" : "");
        c.count(which ? "grid_from_splines" : "transfinite_from_splines");
        c.observed(Hash().vec(q.x).vec(q.y).h);
    }
    void connect(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        double h = r.p(0.3) ? 1 : r.p(0.5) ? 1000 : 10, a = r.p(0.6) ? 0 : r.d(0, 6.28);
        P2 o{h * r.d(-20, 20), h * r.d(-20, 20)};
        int nx1 = r.i(2, 6), ny1 = r.i(2, 7), nx2 = r.i(2, 6), ny2 = r.i(2, 7), sh = r.i(-ny2 + 1, ny1 - 1);
        double gap = r.p(0.3) ? 0 : r.d(0, 0.3) * h, frac = 0.4;
        auto block = [&](int nx, int ny, P2 q)
        {
            RawMesh m;
            for (int j = 0; j <= ny; ++j)
                for (int i = 0; i <= nx; ++i)
                {
                    int k = (int)m.nodes.size();
                    m.nodes.push_back(o + rot({q.x + i * h, q.y + j * h}, a));
                    if (i < nx)
                        m.edges.push_back({k, k + 1});
                    if (j < ny)
                        m.edges.push_back({k, k + nx + 1});
                }
            shuffleMesh(r, m);
            return m;
        };
        RawMesh m1 = block(nx1, ny1, {0, 0}), m2 = block(nx2, ny2, {nx1 * h + gap, sh * h});
        OK(c, "mesh2d_set", setMesh2d(id, m1));
        std::vector<double> x, y;
        std::vector<int> en;
        Mesh2D d = raw2(m2, x, y, en);
        c.op("connect_meshes: %d x %d and %d x %d cells of %g, shifted %d, gap %g, angle %g", nx1, ny1, nx2, ny2, h, sh, gap, a);
        OK(c, "mesh2d_connect_meshes", mkernel_mesh2d_connect_meshes(id, d, frac));
        M2 q;
        OK(c, "mesh2d_get_data", obsMesh2d(id, q));
        int lo = std::max(0, sh), hi = std::min(ny1, sh + ny2), shared = hi - lo + 1;
        int wantN = (nx1 + 1) * (ny1 + 1) + (nx2 + 1) * (ny2 + 1) - shared;
        int wantE = (int)m1.edges.size() + (int)m2.edges.size() - (hi - lo);
        int wantF = nx1 * ny1 + nx2 * ny2;
        c.evals += 3;
        if (q.nValidNodes != wantN || q.nValidEdges != wantE || (int)q.faces().size() != wantF)
            c.fail("connect:size", "%d nodes, %d edges and %zu faces, expected %d, %d and %d", q.nValidNodes, q.nValidEdges, q.faces().size(), wantN, wantE, wantF);
        // all nodes but those at the common side stay; each node of the common side is near both
        std::vector<P2> all = m1.nodes;
        all.insert(all.end(), m2.nodes.begin(), m2.nodes.end());
        for (auto& p : all)
        {
            P2 l = rot(p - o, -a);
            bool side = std::abs(l.x - nx1 * h) < gap + 1e-6 * h && l.y > (lo - 0.01) * h && l.y < (hi + 0.01) * h;
            bool hit = false;
            for (int i = 0; i < q.numNodes() && !hit; ++i)
                hit = q.nodeValid(i) && dist(q.node(i), p) <= (side ? gap + 1e-6 * h : 1e-9 * h);
            c.evals++;
            if (!hit)
                c.fail("connect:node", "no node at %.12g %.12g%s", p.x, p.y, side ? " (common side)" : "");
        }
        for (auto& f : q.faces())
        {
            c.evals++;
            if (f.size() != 4)
                c.fail("connect:face", "a face with %zu nodes", f.size());
        }
        c.count("connected");
        c.observed(Hash().vec(q.nx).vec(q.ny).h);
    }
    void caseC25(Ctx& c)
    {
        int k = c.rng.i(0, 99);
        if (k < 40)
            casulli(c);
        else if (k < 60)
            measures(c);
        else if (k < 80)
            transfinite(c);
        else
            connect(c);
    }
    Reg r25("C25", caseC25, 12000, 200000);
}
