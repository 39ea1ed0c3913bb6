// C13 interpolation of samples to mesh locations.
#include "pcommon.hpp"

namespace
{
    std::vector<P2> hullOf(std::vector<P2> p)
    {
        std::sort(p.begin(), p.end(), [](P2 a, P2 b) { return std::tie(a.x, a.y) < std::tie(b.x, b.y); });
        std::vector<P2> h(2 * p.size() + 2);
        size_t k = 0;
        for (size_t i = 0; i < p.size(); ++i)
        {
            while (k >= 2 && cross(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0)
                k--;
            h[k++] = p[i];
        }
        for (size_t i = p.size() - 1, t = k + 1; i-- > 0;)
        {
            while (k >= t && cross(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0)
                k--;
            h[k++] = p[i];
        }
        h.resize(k - 1);
        return h;
    }
    struct Tri
    {
        int a, b, c;
        bool sure;
    };
    // incircle determinant scaled to the size of the triangle (positive: d inside the circle of ccw a b c)
    double inCircle(P2 a, P2 b, P2 c, P2 d)
    {
        P2 A = a - d, B = b - d, C = c - d;
        double L = std::max({norm(b - a), norm(c - a), norm(c - b)});
        return (dot(A, A) * cross(B, C) - dot(B, B) * cross(A, C) + dot(C, C) * cross(A, B)) / (L * L * L * L);
    }
    void caseTriangulation(Ctx& c, Env& e, double h)
    {
        Rng& r = c.rng;
        M2 m0;
        OK(c, "mesh2d_get_data", obsMesh2d(e.id, m0));
        if (m0.nValidEdges == 0)
            c.skip();
        Box b = boxOf(m0);
        if (b.diag() > 1e5 * h)
            c.skip();
        bool linear = r.p(0.6);
        GL s;
        double A = r.d(-3, 3), B = r.d(-2, 2) / h, C = r.d(-2, 2) / h;
        std::vector<P2> sp;
        if (linear && r.p(0.5))
        { // a lattice of samples, partly on the mesh nodes
            double st = h * (r.p(0.5) ? 1.0 : 0.73);
            int nx = std::min(14, 2 + static_cast<int>(b.w() / st)), ny = std::min(14, 2 + static_cast<int>(b.ht() / st));
            P2 o{b.x0 - (r.p(0.5) ? 0 : 0.5 * st), b.y0 - (r.p(0.5) ? 0 : 0.5 * st)};
            for (int i = 0; i < nx; ++i)
                for (int j = 0; j < ny; ++j)
                    sp.push_back({o.x + i * st, o.y + j * st});
        }
        else
        {
            int n = linear ? r.i(3, 120) : r.i(3, 18);
            for (int k = 0; k < n; ++k)
                sp.push_back(b.rnd(r, 0.2));
        }
        for (size_t k = sp.size(); k > 1; --k)
            std::swap(sp[k - 1], sp[r.i(0, static_cast<int>(k) - 1)]);
        for (auto& p : sp)
            s.add(p, linear ? A + B * (p.x - b.x0) + C * (p.y - b.y0) : r.d(-5, 5));
        e.refresh();
        e.lazy = true;
        if (r.p(0.5))
            randomStep(e, Mesh2, EX);
        e.lazy = false;
        int loc = r.i(0, 2); // faces 0, nodes 1, edges 2
        // number of locations; reading it updates the mesh
        M2 m;
        OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
        if (m.nValidEdges == 0)
            return;
        int n = loc == 0 ? m.numFaces() : loc == 1 ? m.numNodes() : m.numEdges();
        GL res(static_cast<size_t>(n), -7777.0);
        c.op("triangulation_interpolation location=%d samples=%zu linear=%d", loc, sp.size(), linear);
        auto hull = hullOf(sp);
        double ha = 0;
        for (size_t k = 2; k < hull.size(); ++k)
            ha += 0.5 * cross(hull[k - 1] - hull[0], hull[k] - hull[0]);
        int rc = mkernel_mesh2d_triangulation_interpolation(e.id, s(), loc, res());
        if (rc != 0)
        {
            if (hull.size() < 3 || ha < 1e-3 * h * h)
                c.skip();
            c.fail("unexpected-error:mesh2d_triangulation_interpolation", "returned %d: %s", rc, lastError().c_str());
        }
        c.evals++;
        std::vector<Tri> tri;
        const double S = b.diag() + boxOf(sp).diag();
        if (!linear)
            for (size_t i = 0; i < sp.size(); ++i)
                for (size_t j = 0; j < sp.size(); ++j)
                    for (size_t k = std::max(i, j) + 1; k < sp.size(); ++k)
                        if (i != j && cross(sp[j] - sp[i], sp[k] - sp[i]) > 0)
                        {
                            double w = -1e300;
                            for (size_t q = 0; q < sp.size(); ++q)
                                if (q != i && q != j && q != k)
                                    w = std::max(w, inCircle(sp[i], sp[j], sp[k], sp[q]));
                            if (w < 1e-9)
                                tri.push_back({static_cast<int>(i), static_cast<int>(j), static_cast<int>(k), w < -1e-9});
                        }
        int decided = 0;
        for (int k = 0; k < n; ++k)
        {
            bool valid = loc == 0 || (loc == 1 ? m.nodeValid(k) : m.edgeValid(k));
            if (!valid)
            {
                if (res.v[k] != MISSING)
                    c.fail("triangulation:deleted", "location %d does not exist, value %g", k, res.v[k]);
                continue;
            }
            P2 p = loc == 0 ? P2{m.fx[k], m.fy[k]} : loc == 1 ? m.node(k) : (m.node(m.en[2 * k]) + m.node(m.en[2 * k + 1])) * 0.5;
            if (dist(p, {res.x[k], res.y[k]}) > 1e-9 * S)
                c.fail("triangulation:coordinates", "location %d delivered at %g %g, expected %g %g", k, res.x[k], res.y[k], p.x, p.y);
            double dmin = 1e300;
            for (size_t i = 0; i < hull.size(); ++i)
            {
                P2 a = hull[i], q = hull[(i + 1) % hull.size()];
                dmin = std::min(dmin, cross(q - a, p - a) / norm(q - a));
            }
            if (dmin < -1e-7 * S)
            {
                if (res.v[k] != MISSING)
                    c.fail("triangulation:outside", "value %g at %g %g outside the samples", res.v[k], p.x, p.y);
                decided++;
                c.count("outside");
                continue;
            }
            if (dmin < 1e-7 * S)
                continue;
            double want = A + B * (p.x - b.x0) + C * (p.y - b.y0), tol = 1e-6 * (std::abs(A) + (std::abs(B) + std::abs(C)) * S);
            if (!linear)
            {
                bool ok = false;
                for (auto& t : tri)
                {
                    P2 u = sp[t.a], v = sp[t.b], w = sp[t.c];
                    double ar = cross(v - u, w - u), l0 = cross(v - p, w - p) / ar, l1 = cross(w - p, u - p) / ar, l2 = 1 - l0 - l1;
                    if (std::min({l0, l1, l2}) < -1e-9)
                        continue;
                    if (!t.sure || ar < 1e-6 * std::max({dot(v - u, v - u), dot(w - u, w - u), dot(w - v, w - v)}))
                    {
                        ok = false;
                        break;
                    }
                    want = l0 * s.v[t.a] + l1 * s.v[t.b] + l2 * s.v[t.c];
                    tol = 1e-6 * (1 + std::abs(want));
                    ok = true;
                }
                if (!ok)
                    continue;
            }
            decided++;
            if (!(std::abs(res.v[k] - want) <= tol))
            {
                for (size_t q = 0; q < sp.size() && c.verbose; ++q)
                    c.op("  sample %.17g %.17g %.17g", sp[q].x, sp[q].y, s.v[q]);
                c.fail(res.v[k] == MISSING ? "triangulation:missing" : "triangulation:value", "%.9g at %.17g %.17g, expected %.9g", res.v[k], p.x, p.y, want);
            }
            c.count("inside");
        }
        if (decided)
            c.observed(Hash().add(loc).add(m.hash()).vec(s.v).h);
    }

    void caseAveraging(Ctx& c, Env& e, double h)
    {
        Rng& r = c.rng;
        e.refresh();
        e.lazy = true;
        if (r.p(0.3))
            randomStep(e, Mesh2, EX);
        e.lazy = false;
        M2 m;
        OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
        if (m.nValidEdges == 0)
            c.skip();
        Box b = boxOf(m);
        if (b.diag() > 1e5 * h)
            c.skip();
        int loc = r.i(0, 2), method = r.i(1, 6);
        size_t minN = static_cast<size_t>(r.p(0.6) ? 1 : r.i(0, 6));
        double rel = r.p(0.5) ? 1.0 : r.d(0.8, 2.0);
        GL s;
        std::vector<P2> sp;
        int ns = r.i(1, 300);
        bool latt = r.p(0.3);
        for (int k = 0; k < ns; ++k)
        {
            P2 q = latt ? P2{b.x0 + h / 4 * r.i(-2, 4 + static_cast<int>(4 * b.w() / h)), b.y0 + h / 4 * r.i(-2, 4 + static_cast<int>(4 * b.ht() / h))} : b.rnd(r, 0.1);
            if (int v0 = r.i(0, m.numNodes() - 1); r.p(0.05) && m.nodeValid(v0))
                q = m.node(v0);
            sp.push_back(q);
            s.add(q, r.p(0.03) ? MISSING : r.p(0.2) ? r.i(-3, 3) : r.d(-5, 5));
        }
        int n = loc == 0 ? m.numFaces() : loc == 1 ? m.numNodes() : m.numEdges();
        GL res(static_cast<size_t>(n), -7777.0);
        c.op("averaging_interpolation location=%d method=%d rel=%g min=%zu samples=%d", loc, method, rel, minN, ns);
        traceMesh(c, m);
        int rc = mkernel_mesh2d_averaging_interpolation(e.id, s(), loc, method, rel, minN, res());
        auto faces = m.faces();
        if (rc != 0)
        {
            // a face without extent has no search area
            for (int k = 0; k < m.numEdges(); ++k)
                if (m.edgeValid(k) && dist(m.node(m.en[2 * k]), m.node(m.en[2 * k + 1])) < 1e-6 * h)
                    c.skip();
            c.fail("unexpected-error:mesh2d_averaging_interpolation", "returned %d: %s", rc, lastError().c_str());
        }
        c.evals++;
        auto ringEps = 1e-7 * (h + b.diag());
        // value over a search area; false if not decided
        auto value = [&](const std::vector<P2>& ring, P2 at, double& out) -> bool
        {
            double sum = 0, wsum = 0, ws = 0, mx = -1e300, mn = 1e300, ma = 1e300, cd = 1e300, cv = MISSING, cd2 = 1e300;
            size_t cnt = 0;
            for (size_t k = 0; k < sp.size(); ++k)
            {
                if (s.v[k] <= MISSING)
                    continue;
                int in = insideRing(ring, sp[k], ringEps);
                if (in < 0)
                    return false;
                if (!in)
                    continue;
                double v = s.v[k], d = dist(sp[k], at), w = 1 / std::max(0.01, d);
                cnt++;
                sum += v;
                wsum += w;
                ws += w * v;
                mx = std::max(mx, v);
                mn = std::min(mn, v);
                ma = std::min(ma, std::abs(v));
                if (d < cd)
                {
                    cd2 = cd;
                    cd = d;
                    cv = v;
                }
                else
                    cd2 = std::min(cd2, d);
            }
            out = MISSING;
            if (cnt == 0)
                return true;
            switch (method)
            {
            case 1:
                out = cnt >= minN ? sum / static_cast<double>(cnt) : MISSING;
                break;
            case 2:
                if (cd2 - cd < 1e-9 * h)
                    return false;
                out = cv;
                break;
            case 3:
                out = mx;
                break;
            case 4:
                out = mn;
                break;
            case 5:
                out = cnt >= minN ? ws / wsum : MISSING;
                break;
            case 6:
                out = ma;
                break;
            }
            return true;
        };
        // per node: edges by angle
        std::vector<double> nodeVal(m.numNodes(), MISSING);
        std::vector<char> nodeOk(m.numNodes(), 0);
        if (loc != 0 && planarRegions(m.compact()).usable)
        {
            std::vector<std::vector<int>> ne(m.numNodes());
            for (int k = 0; k < m.numEdges(); ++k)
                if (m.edgeValid(k))
                {
                    ne[m.en[2 * k]].push_back(k);
                    ne[m.en[2 * k + 1]].push_back(k);
                }
            for (int v = 0; v < m.numNodes(); ++v)
            {
                if (!m.nodeValid(v) || ne[v].size() < 3)
                    continue;
                auto& es = ne[v];
                auto ang = [&](int k) { P2 d = m.node(m.en[2 * k] == v ? m.en[2 * k + 1] : m.en[2 * k]) - m.node(v); return std::atan2(d.y, d.x); };
                std::sort(es.begin(), es.end(), [&](int a, int q) { return ang(a) < ang(q); });
                std::vector<P2> ring;
                bool ok = true;
                std::set<int> used;
                for (size_t k = 0; k < es.size(); ++k)
                {
                    int a = es[k], q = es[(k + 1) % es.size()];
                    double da = ang(q) - ang(a);
                    if (k + 1 == es.size())
                        da += 2 * M_PI;
                    if (da < 1e-6 || dist(m.node(m.en[2 * a]), m.node(m.en[2 * a + 1])) < 1e-6 * h)
                        ok = false;
                    if (m.ef[2 * a] < 0 && m.ef[2 * a + 1] < 0)
                        ok = false;
                    ring.push_back((m.node(m.en[2 * a]) + m.node(m.en[2 * a + 1])) * 0.5);
                    int f = -1;
                    for (int x : {m.ef[2 * a], m.ef[2 * a + 1]})
                        if (x >= 0 && (x == m.ef[2 * q] || x == m.ef[2 * q + 1]))
                        {
                            if (f >= 0 || !used.insert(x).second)
                                ok = false; // two sides between the same faces
                            f = x;
                        }
                    ring.push_back(f >= 0 ? P2{m.fx[f], m.fy[f]} : m.node(v));
                }
                if (!ok)
                    continue;
                double area;
                P2 cm = centroid(ring, &area);
                if (std::abs(area) < 1e-4 * h * h)
                    continue;
                for (auto& p : ring)
                {
                    p = cm + (p - cm) * rel;
                    p = m.node(v) + (p - m.node(v)) * rel;
                }
                ring.push_back(ring[0]);
                nodeOk[v] = value(ring, m.node(v), nodeVal[v]);
            }
        }
        int decided = 0;
        for (int k = 0; k < n; ++k)
        {
            bool valid = loc == 0 || (loc == 1 ? m.nodeValid(k) : m.edgeValid(k));
            if (!valid)
            {
                if (res.v[k] != MISSING)
                    c.fail("averaging:deleted", "location %d does not exist, value %g", k, res.v[k]);
                continue;
            }
            if (std::isnan(res.v[k]))
                c.fail("averaging:nan", "location %d: nan", k);
            P2 p = loc == 0 ? P2{m.fx[k], m.fy[k]} : loc == 1 ? m.node(k) : (m.node(m.en[2 * k]) + m.node(m.en[2 * k + 1])) * 0.5;
            if (dist(p, {res.x[k], res.y[k]}) > 1e-9 * (1 + b.diag()))
                c.fail("averaging:coordinates", "location %d delivered at %g %g, expected %g %g", k, res.x[k], res.y[k], p.x, p.y);
            double want = MISSING;
            if (loc == 0)
            {
                auto ring = facePoly(m, faces[k]);
                if (std::abs(m.faceArea(faces[k])) < 1e-4 * h * h)
                    continue;
                for (auto& q : ring)
                    q = p + (q - p) * (rel * rel);
                ring.push_back(ring[0]);
                if (!value(ring, p, want))
                    continue;
            }
            else if (loc == 1)
            {
                if (!nodeOk[k])
                    continue;
                want = nodeVal[k];
            }
            else
            {
                int a = m.en[2 * k], q = m.en[2 * k + 1];
                if (!nodeOk[a] || !nodeOk[q])
                    continue;
                if (nodeVal[a] != MISSING && nodeVal[q] != MISSING)
                    want = 0.5 * (nodeVal[a] + nodeVal[q]);
            }
            decided++;
            static const char* nm[] = {"", "simple", "closest", "max", "min", "weighted", "minabs"};
            if (!(std::abs(res.v[k] - want) <= 1e-7 * (1 + std::abs(want))))
            {
                for (size_t q = 0; q < sp.size() && c.verbose; ++q)
                    c.op("  sample %.17g %.17g %.17g", sp[q].x, sp[q].y, s.v[q]);
                c.fail(std::string("averaging:") + nm[method] + (loc == 0 ? ":faces" : loc == 1 ? ":nodes" : ":edges"), "%.9g at location %d (%g %g), expected %.9g", res.v[k], k, p.x, p.y, want);
            }
            c.count(want == MISSING ? "no_samples" : std::string("averaged_") + nm[method]);
        }
        if (decided)
            c.observed(Hash().add(loc).add(method).add(m.hash()).vec(s.v).h);
    }
    void caseC13(Ctx& c)
    {
        bool lattice;
        double h;
        Env e = makeMesh(c, 4, lattice, h);
        for (int k = 0; k < 3; ++k)
        {
            if (c.rng.p(0.5))
                caseTriangulation(c, e, h);
            else
                caseAveraging(c, e, h);
            e.refresh();
            if (!e.hasMesh())
                return;
            randomStep(e, Mesh2, EX);
            if (!e.hasMesh())
                return;
        }
    }
    Reg r13("C13", caseC13, 13200, 200000);
} // namespace
