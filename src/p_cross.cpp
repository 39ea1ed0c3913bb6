// C21: polygon intersections, spline points and the conversion of a mesh to a grid
#include "pcommon.hpp"

namespace
{
    // 0 no crossing, 2 a certain crossing, 1 too close to decide
    int crossing(P2 a, P2 b, P2 p, P2 q, double& t, double& s)
    {
        P2 d = b - a, f = q - p, w = p - a;
        double det = cross(d, f);
        double big = std::max({std::abs(d.x), std::abs(d.y), std::abs(f.x), std::abs(f.y)});
        double ld = norm(d), lf = norm(f);
        if (distSegSeg(a, b, p, q) > 1e-6 * std::max(ld, lf))
            return 0;
        if (std::abs(det) < 3e-5 * big || std::abs(det) < 1e-7 * ld * lf)
            return 1;
        t = cross(w, f) / det; // along a-b
        s = cross(w, d) / det; // along p-q
        double m = 1e-6;
        if (t < -m || t > 1 + m || s < -m || s > 1 + m)
            return 0;
        if (t > m && t < 1 - m && s > m && s < 1 - m)
            return 2;
        return 1;
    }

    void intersections(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 6, lattice, h);
        M2 m;
        OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
        if (m.numFaces() == 0)
            c.skip();
        Box b = boxOf(m);
        PolySet ps = makePoly(r, b, h, lattice);
        if (ps.empty())
            ps.enc.push_back({starPolygon(r, b.rnd(r), 0.1 * b.diag(), 0.7 * b.diag(), r.i(3, 40))});
        if (r.p(0.3))
            for (auto& en : ps.enc)
                for (auto& g : en)
                    reverseRing(g);
        if (r.p(0.2)) // a polygon with many sides
            ps.enc = {{starPolygon(r, b.rnd(r), 0.1 * b.diag(), 0.7 * b.diag(), r.i(100, 700))}};
        GL g = ps.list();
        std::vector<std::vector<P2>> rings;
        for (auto& en : ps.enc)
            for (auto& q : en)
                rings.push_back(q);
        c.op("intersections: %d edges, %d faces, %zu rings", m.numEdges(), m.numFaces(), rings.size());
        traceMesh(c, m);
        tracePoly(c, g);

        const int E = m.numEdges(), F = m.numFaces(), none = -7777;
        std::vector<int> en(2 * E + 2, none), ei(E + 1, none), si(E + 1, none), fi(rings.size() * m.fe.size() + 1, none), fc(F + 1, none), fei(fi.size(), none);
        std::vector<double> ed(E + 1, -7777.0), sd(E + 1, -7777.0);
        OK(c, "mesh2d_intersections_from_polygon",
           mkernel_mesh2d_intersections_from_polygon(e.id, g(), en.data(), ei.data(), ed.data(), sd.data(), si.data(), fi.data(), fc.data(), fei.data()));

        // what every ring does to every edge
        std::vector<std::vector<char>> st(rings.size(), std::vector<char>(E, 0));
        for (size_t k = 0; k < rings.size(); ++k)
            for (int q = 0; q < E; ++q)
                if (m.edgeValid(q))
                    for (size_t s = 0; s + 1 < rings[k].size(); ++s)
                    {
                        double t, u;
                        st[k][q] = std::max<char>(st[k][q], (char)crossing(rings[k][s], rings[k][s + 1], m.node(m.en[2 * q]), m.node(m.en[2 * q + 1]), t, u));
                    }
        int n = 0;
        while (n < E && ei[n] != none)
            ++n;
        std::vector<double> at(E, -1); // distance along the ring
        std::vector<int> seen(E, 0);
        double last = -1, scale = std::max({1.0, std::abs(b.x0), std::abs(b.x1), std::abs(b.y0), std::abs(b.y1)});
        for (int i = 0; i < n; ++i)
        {
            int q = ei[i];
            c.evals++;
            if (q < 0 || q >= E || !m.edgeValid(q))
                c.fail("edge-invalid", "intersection %d is with edge %d, which is not an edge of the mesh", i, q);
            if (seen[q]++)
                c.fail("edge-twice", "edge %d is reported twice", q);
            bool any = false;
            for (auto& s : st)
                any |= s[q] != 0;
            if (!any)
                c.fail("edge-not-crossed", "edge %d is reported, but no side of the polygon crosses it", q);
            P2 a = m.node(m.en[2 * q]), z = m.node(m.en[2 * q + 1]);
            bool placed = false;
            for (size_t k = 0; k < rings.size(); ++k)
            {
                auto& R = rings[k];
                if (!st[k][q])
                    continue;
                if (si[i] >= 0 && si[i] + 1 < (int)R.size())
                {
                    P2 x = R[si[i]], y = R[si[i] + 1];
                    P2 onSide = x + (y - x) * sd[i], onEdge = a + (z - a) * ed[i];
                    double tol = 1e-7 * (dist(x, y) + dist(a, z)) + 1e-9 * scale;
                    double cp = cross(y - x, z - a);
                    bool order = cp < 0 ? en[2 * i] == m.en[2 * q + 1] && en[2 * i + 1] == m.en[2 * q] : en[2 * i] == m.en[2 * q] && en[2 * i + 1] == m.en[2 * q + 1];
                    bool in = sd[i] >= -1e-9 && sd[i] <= 1 + 1e-9 && ed[i] >= -1e-9 && ed[i] <= 1 + 1e-9;
                    if (in && order && dist(onSide, onEdge) <= tol)
                    {
                        placed = true;
                        double d = 0;
                        for (int s = 0; s < si[i]; ++s)
                            d += dist(R[s], R[s + 1]);
                        at[q] = d + sd[i] * dist(x, y);
                        break;
                    }
                }
                if (st[k][q] == 2)
                    break; // the first ring that crosses the edge counts
            }
            if (!placed)
                c.fail("place", "edge %d (%d %d; %.12g %.12g to %.12g %.12g): side %d at %.12g, edge at %.12g, nodes %d %d is not where the polygon crosses it", q, m.en[2 * q], m.en[2 * q + 1], a.x, a.y, z.x, z.y, si[i], sd[i], ed[i], en[2 * i], en[2 * i + 1]);
            if (rings.size() == 1)
            {
                if (at[q] < last - 1e-7 * (1 + last))
                    c.fail("edge-order", "edge %d lies at %.12g along the polygon, after one at %.12g", q, at[q], last);
                last = at[q];
            }
        }
        for (int q = 0; q < E; ++q)
        {
            if (!m.edgeValid(q) || (m.ef[2 * q] < 0 && m.ef[2 * q + 1] < 0))
                continue;
            c.evals++;
            for (size_t k = 0; k < rings.size(); ++k)
                if (st[k][q] == 2 && !seen[q])
                    c.fail("edge-missing", "ring %zu crosses edge %d, which is not reported", k, q);
        }
        // faces
        int nf = 0;
        size_t pos = 0;
        auto faceEdges = m.faceEdges();
        std::vector<int> fseen(F, 0);
        double lastF = -1;
        while (nf < F && fc[nf] != none)
        {
            int cnt = fc[nf];
            if (cnt <= 0 || pos + cnt > fi.size() || fi[pos] < 0 || fi[pos] >= F)
                c.fail("face-table", "face entry %d has %d edges, face %d", nf, cnt, pos < fi.size() ? fi[pos] : -1);
            int f = fi[pos];
            if (fseen[f]++)
                c.fail("face-twice", "face %d is reported twice", f);
            std::map<int, int> got;
            double d = 0;
            for (int i = 0; i < cnt; ++i, ++pos)
            {
                if (fi[pos] != f)
                    c.fail("face-table", "entries of face %d are mixed with face %d", f, fi[pos]);
                got[fei[pos]]++;
                if (fei[pos] >= 0 && fei[pos] < E)
                    d += at[fei[pos]];
            }
            for (int q : faceEdges[f])
            {
                c.evals++;
                int lo = 0, hi = 0;
                for (auto& s : st)
                {
                    lo += s[q] == 2;
                    hi += s[q] != 0;
                }
                int k = got.count(q) ? got[q] : 0;
                got.erase(q);
                if (k < lo || k > hi)
                    c.fail("face-edges", "edge %d of face %d is crossed by %d to %d rings, reported %d times", q, f, lo, hi, k);
            }
            if (!got.empty())
                c.fail("face-edges", "edge %d is reported for face %d", got.begin()->first, f);
            if (rings.size() == 1)
            {
                d /= cnt;
                if (d < lastF - 1e-7 * (1 + lastF))
                    c.fail("face-order", "face %d lies at %.12g along the polygon, after one at %.12g", f, d, lastF);
                lastF = d;
            }
            ++nf;
        }
        for (int q = 0; q < E; ++q)
            for (int s = 0; s < 2; ++s)
                if (int f = m.ef[2 * q + s]; f >= 0 && f < F && m.edgeValid(q))
                    for (auto& k : st)
                        if (k[q] == 2 && !fseen[f])
                            c.fail("face-missing", "face %d is not reported though the polygon crosses its edge %d", f, q);
        if (n)
            c.observed(Hash().vec(std::vector<int>(ei.begin(), ei.begin() + n)).vec(std::vector<double>(ed.begin(), ed.begin() + n)).h);
        c.count("intersections_edges", n);
        c.count("intersections_faces", nf);
        c.count("case_intersections");
    }

    void splines(Ctx& c)
    {
        Rng& r = c.rng;
        double sz = r.p(0.5) ? 10 : r.d(0.01, 5000);
        P2 o = r.p(0.4) ? P2{0, 0} : P2{r.d(-1e5, 1e5), r.d(-1e5, 1e5)};
        int ns = r.i(1, 4), between = r.i(0, 20);
        std::vector<std::vector<P2>> sp;
        GL in;
        std::vector<P2> all;
        for (int s = 0; s < ns; ++s)
        {
            std::vector<P2> v;
            int n = r.p(0.3) ? 2 : r.i(2, 15);
            P2 p = o;
            double dir = r.d(0, 6.28);
            for (int i = 0; i < n; ++i)
            {
                v.push_back(p);
                dir += r.d(-1.5, 1.5);
                p = p + P2{std::cos(dir), std::sin(dir)} * (sz * r.d(0.1, 2));
            }
            if (s)
                all.push_back({MISSING, MISSING});
            all.insert(all.end(), v.begin(), v.end());
            sp.push_back(v);
        }
        in.set(all);
        c.op("get_splines: %d splines, %d points between", ns, between);
        std::vector<P2> want;
        double big = 1;
        for (size_t k = 0; k < sp.size(); ++k)
        {
            auto& v = sp[k];
            int n = (int)v.size();
            if (k)
                want.push_back({MISSING, MISSING});
            // M[i-1] + 4 M[i] + M[i+1] = 6 (v[i+1] - 2 v[i] + v[i-1]), solved by relaxation
            std::vector<P2> M(n);
            for (int it = 0; it < 200; ++it)
                for (int i = 1; i + 1 < n; ++i)
                    M[i] = ((v[i + 1] - v[i] * 2 + v[i - 1]) * 6 - M[i - 1] - M[i + 1]) * 0.25;
            for (int i = 0; i < n; ++i)
            {
                big = std::max({big, std::abs(v[i].x), std::abs(v[i].y)});
                want.push_back(v[i]);
                if (i + 1 < n)
                    for (int p = 1; p <= between; ++p)
                    {
                        double bb = double(p) / (between + 1), aa = 1 - bb;
                        want.push_back(v[i] * aa + v[i + 1] * bb + (M[i] * (aa * aa * aa - aa) + M[i + 1] * (bb * bb * bb - bb)) * (1.0 / 6));
                    }
            }
        }
        GL out(want.size() + 3, -7777.0);
        OK(c, "get_splines", mkernel_get_splines(in(), out(), between));
        for (size_t i = 0; i < want.size(); ++i)
        {
            c.evals++;
            if (!(std::abs(out.x[i] - want[i].x) <= 1e-9 * big) || !(std::abs(out.y[i] - want[i].y) <= 1e-9 * big))
                c.fail("spline-point", "point %zu of %zu is %.14g %.14g, expected %.14g %.14g", i, want.size(), out.x[i], out.y[i], want[i].x, want[i].y);
        }
        for (size_t i = want.size(); i < out.x.size(); ++i)
            if (out.x[i] != -7777.0 || out.y[i] != -7777.0)
                c.fail("spline-extra", "a point is written after the %zu expected ones", want.size());
        c.observed(Hash().vec(out.x).vec(out.y).h);
        c.count("spline_points", (long long)want.size());
        c.count("case_splines");
    }

    void convert(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        int nx = r.i(1, 9), ny = r.i(1, 9);
        double h = r.p(0.5) ? 10 : r.d(0.1, 300), per = r.p(0.4) ? 0 : r.d(0, 0.15), drop = r.p(0.4) ? 0 : r.d(0, 0.35), tri = r.p(0.5) ? 0 : r.d(0, 0.2);
        P2 o = r.p(0.5) ? P2{0, 0} : P2{r.d(-1000, 1000), r.d(-1000, 1000)};
        double ang = r.p(0.5) ? 0 : r.d(0, 6.28), sx = per == 0 ? 1 : r.d(0.8, 1.25);
        auto nodeAt = [&](int i, int j) { return j * (nx + 1) + i; };
        std::vector<P2> pts((nx + 1) * (ny + 1));
        for (int j = 0; j <= ny; ++j)
            for (int i = 0; i <= nx; ++i)
            {
                P2 p{h * sx * (i + r.d(-per, per)), h * (j + r.d(-per, per))};
                pts[nodeAt(i, j)] = o + P2{p.x * std::cos(ang) - p.y * std::sin(ang), p.x * std::sin(ang) + p.y * std::cos(ang)};
            }
        std::vector<int> cell(nx * ny, 1); // 0 absent, 1 quadrilateral, 2 two triangles
        for (auto& v : cell)
            v = r.p(drop) ? 0 : r.p(tri) ? 2 : 1;
        std::vector<int> quads;
        for (int k = 0; k < nx * ny; ++k)
            if (cell[k] == 1)
                quads.push_back(k);
        if (quads.empty())
            c.skip();
        std::map<std::pair<int, int>, int> es; // number of quadrilaterals
        auto addE = [&](int a, int b, bool q) { es[{std::min(a, b), std::max(a, b)}] += q; };
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
            {
                int k = cell[j * nx + i];
                if (!k)
                    continue;
                int n[4] = {nodeAt(i, j), nodeAt(i + 1, j), nodeAt(i + 1, j + 1), nodeAt(i, j + 1)};
                for (int q = 0; q < 4; ++q)
                    addE(n[q], n[(q + 1) % 4], k == 1);
                if (k == 2)
                    addE(n[0], n[2], false);
            }
        // a closed ring of four edges around an absent cell is a face again
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
                if (!cell[j * nx + i])
                {
                    int n[4] = {nodeAt(i, j), nodeAt(i + 1, j), nodeAt(i + 1, j + 1), nodeAt(i, j + 1)};
                    bool all = true;
                    for (int q = 0; q < 4; ++q)
                        all &= es.count({std::min(n[q], n[(q + 1) % 4]), std::max(n[q], n[(q + 1) % 4])}) > 0;
                    if (all)
                    {
                        cell[j * nx + i] = 1;
                        for (int q = 0; q < 4; ++q)
                            addE(n[q], n[(q + 1) % 4], true);
                    }
                }
        RawMesh rm;
        std::vector<int> ren(pts.size(), -1);
        std::vector<std::pair<int, int>> el;
        for (auto& [k, v] : es)
            el.push_back(k);
        for (size_t i = el.size(); i > 1; --i)
            std::swap(el[i - 1], el[r.i(0, (int)i - 1)]);
        std::vector<int> order(pts.size());
        for (size_t i = 0; i < order.size(); ++i)
            order[i] = (int)i;
        for (size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[r.i(0, (int)i - 1)]);
        std::set<int> usedN;
        for (auto& k : el)
            usedN.insert({k.first, k.second});
        for (int q : order)
            if (usedN.count(q))
            {
                ren[q] = (int)rm.nodes.size();
                rm.nodes.push_back(pts[q]);
            }
        for (auto& k : el)
        {
            int a = ren[k.first], b = ren[k.second];
            if (r.p(0.5))
                std::swap(a, b);
            rm.edges.push_back({a, b});
        }
        OK(c, "mesh2d_set", setMesh2d(id, rm));
        int st = r.pick(quads), si = st % nx, sj = st / nx;
        P2 q = (pts[nodeAt(si, sj)] + pts[nodeAt(si + 1, sj)] + pts[nodeAt(si + 1, sj + 1)] + pts[nodeAt(si, sj + 1)]) * 0.25;
        c.op("convert_to_curvilinear: %d x %d cells of %g, %zu quadrilaterals, start in cell %d %d", nx, ny, h, quads.size(), si, sj);
        if (c.verbose)
            for (int j = ny - 1; j >= 0; --j)
            {
                std::string s;
                for (int i = 0; i < nx; ++i)
                    s += " .#/"[cell[j * nx + i] == 0 ? 1 : cell[j * nx + i] == 1 ? 2 : 3];
                c.op("   %s", s.c_str());
            }
        OK(c, "mesh2d_convert_to_curvilinear", mkernel_mesh2d_convert_to_curvilinear(id, q.x, q.y));
        M2 m;
        CG g;
        OK(c, "mesh2d_get_data", obsMesh2d(id, m));
        OK(c, "curvilinear_get_data", obsCurvi(id, g));
        if (m.nValidNodes || m.nValidEdges)
            c.fail("mesh-left", "the mesh still has %d nodes and %d edges", m.nValidNodes, m.nValidEdges);
        // the quadrilaterals connected with the first one
        std::vector<char> in(nx * ny, 0);
        std::vector<int> todo{st};
        in[st] = 1;
        while (!todo.empty())
        {
            int k = todo.back();
            todo.pop_back();
            int i = k % nx, j = k / nx;
            const int di[4] = {1, -1, 0, 0}, dj[4] = {0, 0, 1, -1};
            for (int d = 0; d < 4; ++d)
            {
                int a = i + di[d], bq = j + dj[d];
                if (a >= 0 && a < nx && bq >= 0 && bq < ny && cell[bq * nx + a] == 1 && !in[bq * nx + a])
                {
                    in[bq * nx + a] = 1;
                    todo.push_back(bq * nx + a);
                }
            }
        }
        std::set<int> comp;
        int i0 = nx, i1 = 0, j0 = ny, j1 = 0;
        for (int k = 0; k < nx * ny; ++k)
            if (in[k])
            {
                int i = k % nx, j = k / nx;
                comp.insert({nodeAt(i, j), nodeAt(i + 1, j), nodeAt(i, j + 1), nodeAt(i + 1, j + 1)});
                i0 = std::min(i0, i);
                i1 = std::max(i1, i + 1);
                j0 = std::min(j0, j);
                j1 = std::max(j1, j + 1);
            }
        bool full = true; // neighbours on the lattice are connected
        for (int n : comp)
        {
            int i = n % (nx + 1);
            for (int o2 : {i < nx ? n + 1 : -1, n + nx + 1})
                if (o2 >= 0 && comp.count(o2))
                {
                    auto it = es.find({n, o2});
                    full &= it != es.end() && it->second > 0;
                }
        }
        std::map<std::pair<double, double>, int> byPos;
        for (size_t k = 0; k < pts.size(); ++k)
            byPos[{pts[k].x, pts[k].y}] = (int)k;
        std::map<std::pair<int, int>, int> at;
        std::set<int> used;
        for (int n = 0; n < g.n; ++n)
            for (int mm = 0; mm < g.m; ++mm)
                if (g.valid(n, mm))
                {
                    c.evals++;
                    P2 p = g.at(n, mm);
                    auto it = byPos.find({p.x, p.y});
                    if (it == byPos.end() || !comp.count(it->second))
                        c.fail("grid-node", "grid node %d %d at %.12g %.12g is not a node of the connected quadrilaterals", n, mm, p.x, p.y);
                    if (!used.insert(it->second).second)
                        c.fail("grid-node-twice", "the mesh node at %.12g %.12g is used twice", p.x, p.y);
                    at[{n, mm}] = it->second;
                }
        for (auto& [k, a] : at)
            for (auto d : {std::pair{0, 1}, std::pair{1, 0}})
            {
                auto it = at.find({k.first + d.first, k.second + d.second});
                if (it == at.end())
                    continue;
                c.evals++;
                if (!es.count({std::min(a, it->second), std::max(a, it->second)}))
                    c.fail("grid-line", "grid nodes %d %d and %d %d are not joined by a mesh edge", k.first, k.second, it->first.first, it->first.second);
            }
        for (int n : {nodeAt(si, sj), nodeAt(si + 1, sj), nodeAt(si, sj + 1), nodeAt(si + 1, sj + 1)})
            if (!used.count(n))
                c.fail("grid-start", "a node of the starting quadrilateral is missing in the grid");
        if (full)
        {
            c.count("convert_complete");
            for (int n : comp)
                if (!used.count(n))
                    c.fail("grid-missing", "the mesh node at %.12g %.12g, on connected quadrilaterals, is missing in the grid", pts[n].x, pts[n].y);
            int w = i1 - i0 + 1, ht = j1 - j0 + 1;
            if (!((g.m == w && g.n == ht) || (g.m == ht && g.n == w)))
                c.fail("grid-size", "the grid has %d x %d nodes, the quadrilaterals span %d x %d", g.m, g.n, w, ht);
            for (int k = 0; k < nx * ny; ++k)
                if (in[k])
                {
                    // its nodes form a cell of the grid
                    std::set<std::pair<int, int>> pos;
                    for (auto& [p, a] : at)
                        if (a == nodeAt(k % nx, k / nx) || a == nodeAt(k % nx + 1, k / nx) || a == nodeAt(k % nx, k / nx + 1) || a == nodeAt(k % nx + 1, k / nx + 1))
                            pos.insert(p);
                    auto f = *pos.begin();
                    c.evals++;
                    if (pos != std::set<std::pair<int, int>>{f, {f.first, f.second + 1}, {f.first + 1, f.second}, {f.first + 1, f.second + 1}})
                        c.fail("grid-cell", "the nodes of the quadrilateral %d %d do not form a grid cell", k % nx, k / nx);
                }
        }
        c.observed(Hash().vec(g.x).vec(g.y).h);
        c.count("case_convert");
    }

    void caseC21(Ctx& c)
    {
        int k = c.rng.i(0, 99);
        if (k < 55)
            intersections(c);
        else if (k < 70)
            splines(c);
        else
            convert(c);
    }
    Reg r21("C21", caseC21, 44000, 400000);
}
