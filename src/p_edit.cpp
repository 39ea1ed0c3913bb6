// C22: elementary edits of the 2D mesh change exactly the nodes and edges they name
#include "core.hpp"
#include "gen.hpp"
#include "ops.hpp"
#include "topo.hpp"
#include "pcommon.hpp"

namespace
{
    constexpr double PI = 3.14159265358979323846;
    // expected mesh: nodes by position, edges between them
    struct Want
    {
        std::vector<P2> node;
        std::map<std::pair<int, int>, int> edge; // how often
        void add(int a, int b) { edge[{std::min(a, b), std::max(a, b)}]++; }
        void del(int a, int b)
        {
            auto it = edge.find({std::min(a, b), std::max(a, b)});
            if (it != edge.end() && --it->second == 0)
                edge.erase(it);
        }
        bool has(int a, int b) const { return edge.count({std::min(a, b), std::max(a, b)}) > 0; }
        int add(P2 p)
        {
            node.push_back(p);
            return (int)node.size() - 1;
        }
    };
    Want wantOf(const M2& m)
    {
        Want w;
        for (int i = 0; i < m.numNodes(); ++i)
            w.node.push_back(m.node(i));
        for (int e = 0; e < m.numEdges(); ++e)
            if (m.edgeValid(e))
                w.add(m.en[2 * e], m.en[2 * e + 1]);
        return w;
    }
    double scaleOf(const M2& m)
    {
        double s = 0;
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.nodeValid(i))
                s = std::max({s, std::abs(m.nx[i]), std::abs(m.ny[i])});
        return std::max(1.0, s);
    }
    void same(Ctx& c, const std::string& name, const Want& w, const M2& got, double tol)
    {
        std::set<int> used;
        for (auto& [k, n] : w.edge)
            used.insert({k.first, k.second});
        std::vector<std::pair<P2, int>> pts;
        for (int i : used)
            pts.push_back({w.node[i], i});
        std::sort(pts.begin(), pts.end(), [](auto& a, auto& b) { return a.first.x < b.first.x; });
        auto find = [&](P2 p, int& n)
        {
            n = 0;
            int r = -1;
            auto it = std::lower_bound(pts.begin(), pts.end(), p.x - tol, [](auto& a, double x) { return a.first.x < x; });
            for (; it != pts.end() && it->first.x <= p.x + tol; ++it)
                if (std::abs(it->first.y - p.y) <= tol)
                    ++n, r = it->second;
            return r;
        };
        int n;
        for (auto& [p, i] : pts)
            if (find(p, n); n > 1)
            {
                c.count("coinciding_nodes");
                c.skip();
            }
        std::vector<int> to(got.numNodes(), -1);
        std::map<int, int> seen;
        for (int i = 0; i < got.numNodes(); ++i)
        {
            if (!got.nodeValid(i))
                continue;
            to[i] = find(got.node(i), n);
            if (to[i] < 0)
                c.fail("node:" + name, "%s: node %d at %.12g %.12g should not be there", name.c_str(), i, got.nx[i], got.ny[i]);
            if (seen[to[i]]++)
                c.fail("node-twice:" + name, "%s: two nodes at %.12g %.12g", name.c_str(), got.nx[i], got.ny[i]);
        }
        if (seen.size() != pts.size())
            for (auto& [p, i] : pts)
                if (!seen.count(i))
                    c.fail("node-missing:" + name, "%s: no node at %.12g %.12g", name.c_str(), p.x, p.y);
        auto left = w.edge;
        for (int e = 0; e < got.numEdges(); ++e)
        {
            if (!got.edgeValid(e))
                continue;
            int a = to[got.en[2 * e]], b = to[got.en[2 * e + 1]];
            auto it = left.find({std::min(a, b), std::max(a, b)});
            if (it == left.end())
                c.fail("edge:" + name, "%s: the edge %.12g %.12g to %.12g %.12g should not be there", name.c_str(), w.node[a].x, w.node[a].y, w.node[b].x, w.node[b].y);
            if (--it->second == 0)
                left.erase(it);
        }
        for (auto& [k, v] : left)
            c.fail("edge-missing:" + name, "%s: the edge %.12g %.12g to %.12g %.12g is missing", name.c_str(), w.node[k.first].x, w.node[k.first].y, w.node[k.second].x, w.node[k.second].y);
        c.evals += got.numNodes() + got.numEdges();
        c.count("checked_" + name);
        c.observed(Hash().str(name).add(got.hash()).h);
    }
    double minEdge(const M2& m)
    {
        double h = 1e300;
        for (int e = 0; e < m.numEdges(); ++e)
            if (m.edgeValid(e))
                h = std::min(h, dist(m.node(m.en[2 * e]), m.node(m.en[2 * e + 1])));
        return h;
    }
    int opposite(const std::vector<int>& fe, int e)
    {
        for (int i = 0; i < 4; ++i)
            if (fe[i] == e)
                return fe[(i + 2) % 4];
        return -1;
    }
    // false: a row that crosses itself, not judged
    bool splitRow(const M2& m, int e0, Want& w)
    {
        auto fe = m.faceEdges();
        auto other = [&](int e, int f) { return m.ef[2 * e] == f ? m.ef[2 * e + 1] : m.ef[2 * e]; };
        auto quad = [&](int f) { return f >= 0 && m.npf[f] == 4; };
        std::vector<int> cells, edges; // in order
        bool loop = false;
        int f0 = m.ef[2 * e0], f1 = m.ef[2 * e0 + 1];
        if (!quad(f0) && !quad(f1))
            return true; // nothing to split
        auto walk = [&](int f, std::vector<int>& cs, std::vector<int>& es)
        {
            int e = e0;
            while (quad(f))
            {
                cs.push_back(f);
                e = opposite(fe[f], e);
                if (e < 0)
                    return false;
                if (e == e0)
                {
                    loop = true;
                    return true;
                }
                es.push_back(e);
                f = other(e, f);
            }
            return true;
        };
        std::vector<int> ca, ea, cb, eb;
        if (!walk(f0, ca, ea))
            return false;
        if (!loop && !walk(f1, cb, eb))
            return false;
        cells.assign(ca.rbegin(), ca.rend());
        cells.insert(cells.end(), cb.begin(), cb.end());
        edges.assign(ea.rbegin(), ea.rend());
        edges.push_back(e0);
        edges.insert(edges.end(), eb.begin(), eb.end());
        if (std::set<int>(cells.begin(), cells.end()).size() != cells.size() || std::set<int>(edges.begin(), edges.end()).size() != edges.size())
            return false;
        if (loop && cells.size() < 3)
            return false;
        std::vector<int> mid(edges.size(), -1);
        bool firstClosed = !loop && other(edges.front(), cells.front()) >= 0, lastClosed = !loop && other(edges.back(), cells.back()) >= 0;
        if (cells.size() == 1 && firstClosed && lastClosed)
            return true; // nothing to do
        for (size_t i = 0; i < edges.size(); ++i)
        {
            if ((i == 0 && firstClosed) || (i + 1 == edges.size() && lastClosed))
                continue;
            int a = m.en[2 * edges[i]], b = m.en[2 * edges[i] + 1];
            mid[i] = w.add((m.node(a) + m.node(b)) * 0.5);
            w.del(a, b);
            w.add(a, mid[i]);
            w.add(mid[i], b);
        }
        auto connect = [&](size_t i, size_t j)
        {
            if (mid[i] >= 0 && mid[j] >= 0)
                w.add(mid[i], mid[j]);
            else
            {
                size_t s = mid[i] >= 0 ? j : i, t = mid[i] >= 0 ? i : j;
                w.add(m.en[2 * edges[s]], mid[t]);
                w.add(m.en[2 * edges[s] + 1], mid[t]);
            }
        };
        for (size_t i = 0; i + 1 < edges.size(); ++i)
            connect(i, i + 1);
        if (loop)
            connect(edges.size() - 1, 0);
        return true;
    }
    void caseC22(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 8, lattice, h);
        int steps = r.i(1, 5);
        for (int s = 0; s < steps; ++s)
        {
            M2 m;
            OK(c, "get_data", obsMesh2d(e.id, m));
            e.m2 = m;
            if (m.nValidEdges < 2)
                c.skip();
            for (int i = 0; i < m.numNodes(); ++i)
                if (!std::isfinite(m.nx[i]) || !std::isfinite(m.ny[i]))
                {
                    c.op("node %d at %g %g", i, m.nx[i], m.ny[i]);
                    c.count("not_finite");
                    c.skip();
                }
            if (e.rndNode() < 0 || e.rndEdge() < 0)
                c.skip();
            Want w = wantOf(m);
            const double tol = 1e-9 * scaleOf(m);
            Box b = boxOf(m);
            std::string name;
            int kind = r.i(0, 12);
            M2 got;
            if (kind == 0 || kind == 1)
            {
                name = kind == 0 ? "mesh2d_insert_edge" : "mesh2d_insert_node";
                int a = e.rndNode(), q = -1, idx = -7;
                if (a < 0)
                    continue;
                if (kind == 0)
                {
                    q = e.rndNode();
                    if (a == q || q < 0)
                        continue;
                    bool had = w.has(a, q);
                    c.op("insert_edge %d %d", a, q);
                    OK(c, "mesh2d_insert_edge", mkernel_mesh2d_insert_edge(e.id, a, q, idx));
                    if (!had)
                        w.add(a, q);
                    OK(c, "get_data", obsMesh2d(e.id, got));
                    if (!had && (idx < 0 || idx >= got.numEdges() || ekey(got.node(got.en[2 * idx]), got.node(got.en[2 * idx + 1])) != ekey(m.node(a), m.node(q))))
                        c.fail("edge-index:" + name, "%s: the returned edge %d does not join nodes %d and %d", name.c_str(), idx, a, q);
                }
                else
                {
                    P2 p = b.rnd(r, 0.3);
                    c.op("insert_node %.17g %.17g, connect to %d", p.x, p.y, a);
                    OK(c, "mesh2d_insert_node", mkernel_mesh2d_insert_node(e.id, p.x, p.y, q));
                    if (q < 0)
                        c.fail("node-index:" + name, "%s: returned index %d", name.c_str(), q);
                    int k = w.add(p);
                    std::vector<int> others{a};
                    for (int j = r.i(0, 2); j > 0; --j)
                        if (int o = e.rndNode(); o >= 0 && std::find(others.begin(), others.end(), o) == others.end())
                            others.push_back(o);
                    for (int o : others)
                    {
                        OK(c, "mesh2d_insert_edge", r.p(0.5) ? mkernel_mesh2d_insert_edge(e.id, q, o, idx) : mkernel_mesh2d_insert_edge(e.id, o, q, idx));
                        w.add(k, o);
                    }
                    OK(c, "get_data", obsMesh2d(e.id, got));
                    if (q >= got.numNodes() || !(got.node(q) == p))
                        c.fail("node-index:" + name, "%s: the returned node %d is not at the given position", name.c_str(), q);
                }
            }
            else if (kind == 2)
            {
                name = "mesh2d_insert_edge_from_coordinates";
                double mn = minEdge(m);
                auto end = [&](int& node)
                {
                    node = -1;
                    if (r.p(0.5))
                        return b.rnd(r, 0.3);
                    node = std::max(0, e.rndNode());
                    if (!m.nodeValid(node))
                        return b.rnd(r, 0.3);
                    double t = r.d(0, 2 * PI), d = r.p(0.3) ? 0 : mn * (r.p(0.7) ? 0.005 : 0.02);
                    return m.node(node) + P2{d * std::cos(t), d * std::sin(t)};
                };
                int n1, n2, i1 = -7, i2 = -7, ie = -7;
                P2 p1 = end(n1), p2 = end(n2);
                double rad = 0.01 * std::min(dist(p1, p2), mn);
                if (dist(p1, p2) < 0.1 * mn || mn < 1e-3 * h)
                    continue;
                auto hit = [&](P2 p)
                {
                    int best = -1;
                    double bd = 1e300, second = 1e300;
                    for (int i = 0; i < m.numNodes(); ++i)
                        if (m.nodeValid(i))
                        {
                            double d = dist(p, m.node(i));
                            if (d < bd)
                                second = bd, bd = d, best = i;
                            else
                                second = std::min(second, d);
                        }
                    if (std::abs(bd - rad) < 0.1 * rad || (bd < rad && second - bd < 0.01 * rad)) // (nearly) coinciding nodes
                        return -2;
                    return bd < rad ? best : -1;
                };
                n1 = hit(p1);
                n2 = hit(p2);
                if (n1 == -2 || n2 == -2 || (n1 >= 0 && n1 == n2))
                    continue;
                c.op("insert_edge_from_coordinates %.17g %.17g (node %d) %.17g %.17g (node %d)", p1.x, p1.y, n1, p2.x, p2.y, n2);
                OK(c, "mesh2d_insert_edge_from_coordinates", mkernel_mesh2d_insert_edge_from_coordinates(e.id, p1.x, p1.y, p2.x, p2.y, i1, i2, ie));
                if ((n1 >= 0 && i1 != n1) || (n2 >= 0 && i2 != n2) || i1 < 0 || i2 < 0)
                    c.fail("node-index:" + name, "%s: returned nodes %d and %d, nodes %d and %d are at the ends", name.c_str(), i1, i2, n1, n2);
                if (n1 < 0)
                    n1 = w.add(p1);
                if (n2 < 0)
                    n2 = w.add(p2);
                if (!w.has(n1, n2))
                    w.add(n1, n2);
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else if (kind == 3)
            {
                name = "mesh2d_delete_node";
                int a = e.rndNode();
                if (a < 0)
                    continue;
                c.op("delete_node %d", a);
                OK(c, "mesh2d_delete_node", mkernel_mesh2d_delete_node(e.id, a));
                for (auto it = w.edge.begin(); it != w.edge.end();)
                    it = it->first.first == a || it->first.second == a ? w.edge.erase(it) : std::next(it);
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else if (kind == 4)
            {
                name = "mesh2d_delete_edge_by_index";
                int a = e.rndEdge();
                if (a < 0)
                    continue;
                c.op("delete_edge_by_index %d", a);
                OK(c, "mesh2d_delete_edge_by_index", mkernel_mesh2d_delete_edge_by_index(e.id, a));
                w.del(m.en[2 * a], m.en[2 * a + 1]);
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else if (kind == 5)
            {
                name = "mesh2d_delete_edge";
                P2 p = b.rnd(r, 0.2);
                Box q{b.x0 - 1e3 * h, b.y0 - 1e3 * h, b.x1 + 1e3 * h, b.y1 + 1e3 * h};
                if (r.p(0.4))
                {
                    P2 u = b.rnd(r, 0.1), v = b.rnd(r, 0.1);
                    q = Box{std::min(u.x, v.x), std::min(u.y, v.y), std::max(u.x, v.x), std::max(u.y, v.y)};
                }
                int best = -1;
                double d1 = 1e300, d2 = 1e300, amb = 1e300;
                for (int i = 0; i < m.numEdges(); ++i)
                {
                    if (!m.edgeValid(i))
                        continue;
                    P2 mid = (m.node(m.en[2 * i]) + m.node(m.en[2 * i + 1])) * 0.5;
                    double margin = std::min(std::min(mid.x - q.x0, q.x1 - mid.x), std::min(mid.y - q.y0, q.y1 - mid.y));
                    amb = std::min(amb, std::abs(margin));
                    if (margin < 0)
                        continue;
                    double d = dist(mid, p);
                    if (d < d1)
                        d2 = d1, d1 = d, best = i;
                    else
                        d2 = std::min(d2, d);
                }
                if (best < 0 || amb < 1e-6 * h || d2 - d1 < 1e-6 * h)
                    continue;
                c.op("delete_edge near %.17g %.17g in %g %g %g %g", p.x, p.y, q.x0, q.y0, q.x1, q.y1);
                OK(c, "mesh2d_delete_edge", mkernel_mesh2d_delete_edge(e.id, p.x, p.y, q.x0, q.y0, q.x1, q.y1));
                w.del(m.en[2 * best], m.en[2 * best + 1]);
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else if (kind == 6)
            {
                name = "mesh2d_move_node";
                int a = e.rndNode();
                if (a < 0)
                    continue;
                P2 p = m.node(a), d{h * r.d(-2.5, 2.5), h * r.d(-2.5, 2.5)};
                if (r.p(0.3))
                    d = d * 0.1;
                double R = norm(d);
                c.op("move_node %d by %.17g %.17g", a, d.x, d.y);
                OK(c, "mesh2d_move_node", mkernel_mesh2d_move_node(e.id, p.x + d.x, p.y + d.y, a));
                for (int i = 0; i < m.numNodes(); ++i)
                    if (m.nodeValid(i) && dist(m.node(i), p) <= R)
                        w.node[i] = m.node(i) + d * (0.5 * (1 + std::cos(PI * dist(m.node(i), p) / R)));
                OK(c, "get_data", obsMesh2d(e.id, got));
                if (dist(got.node(a), p + d) > tol)
                    c.fail("not-moved:" + name, "%s: node %d is not at the given position", name.c_str(), a);
            }
            else if (kind == 7)
            {
                name = "mesh2d_delete_hanging_edges";
                std::vector<int> deg(m.numNodes(), 0);
                for (int x : m.en)
                    if (x >= 0)
                        deg[x]++;
                std::set<int> want;
                for (int i = 0; i < m.numEdges(); ++i)
                    if (m.edgeValid(i) && (deg[m.en[2 * i]] < 2 || deg[m.en[2 * i + 1]] < 2))
                        want.insert(i);
                c.op("hanging edges");
                int n = -1;
                OK(c, "mesh2d_count_hanging_edges", mkernel_mesh2d_count_hanging_edges(e.id, n));
                if (n != (int)want.size())
                    c.fail("count:mesh2d_count_hanging_edges", "%d hanging edges counted, there are %zu", n, want.size());
                std::vector<int> v(n);
                OK(c, "mesh2d_get_hanging_edges", mkernel_mesh2d_get_hanging_edges(e.id, v.data()));
                if (std::set<int>(v.begin(), v.end()) != want)
                    c.fail("wrong:mesh2d_get_hanging_edges", "other hanging edges reported than there are");
                c.evals += 2;
                if (r.p(0.3))
                    continue;
                OK(c, "mesh2d_delete_hanging_edges", mkernel_mesh2d_delete_hanging_edges(e.id));
                for (int i : want)
                    w.del(m.en[2 * i], m.en[2 * i + 1]);
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else if (kind == 8 || kind == 9)
            {
                name = "mesh2d_remove_disconnected_regions";
                std::vector<int> reg(m.numFaces(), -1), cnt;
                auto fe = m.faceEdges();
                for (int f = 0; f < m.numFaces(); ++f)
                {
                    if (reg[f] >= 0)
                        continue;
                    int k = (int)cnt.size();
                    cnt.push_back(0);
                    std::vector<int> st{f};
                    reg[f] = k;
                    while (!st.empty())
                    {
                        int g = st.back();
                        st.pop_back();
                        cnt[k]++;
                        for (int ed : fe[g])
                            for (int o : {m.ef[2 * ed], m.ef[2 * ed + 1]})
                                if (o >= 0 && reg[o] < 0)
                                    reg[o] = k, st.push_back(o);
                    }
                }
                c.op("remove_disconnected_regions, %zu regions", cnt.size());
                auto sorted = cnt;
                std::sort(sorted.rbegin(), sorted.rend());
                if (sorted.size() > 1 && sorted[0] == sorted[1])
                    continue;
                OK(c, "mesh2d_remove_disconnected_regions", mkernel_mesh2d_remove_disconnected_regions(e.id));
                int keep = cnt.empty() ? -1 : (int)(std::max_element(cnt.begin(), cnt.end()) - cnt.begin());
                for (int i = 0; i < m.numEdges(); ++i)
                    if (m.edgeValid(i))
                    {
                        int f = m.ef[2 * i] >= 0 ? m.ef[2 * i] : m.ef[2 * i + 1];
                        if (f >= 0 && reg[f] != keep)
                            w.del(m.en[2 * i], m.en[2 * i + 1]);
                    }
                if (cnt.size() > 1)
                    c.count("several_regions");
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else if (kind == 10 || kind == 11)
            {
                name = "mesh2d_split_row";
                int a = e.rndEdge();
                if (a < 0)
                    continue;
                if (!planarRegions(m.compact()).usable || !splitRow(m, a, w))
                    continue;
                c.op("split_row at edge %d (nodes %d %d)", a, m.en[2 * a], m.en[2 * a + 1]);
                traceMesh(c, m);
                bool sw = r.p(0.5);
                OK(c, "mesh2d_split_row", mkernel_mesh2d_split_row(e.id, m.en[2 * a + sw], m.en[2 * a + 1 - sw]));
                OK(c, "get_data", obsMesh2d(e.id, got));
            }
            else
            {
                name = "mesh2d_flip_edges";
                M2 q = m.compact();
                Planar pb = planarRegions(q);
                if (!pb.usable || (int)pb.regions.size() != m.numFaces())
                    continue;
                bool convex = true;
                for (auto& f : m.faces())
                {
                    convex = convex && f.size() <= 4 && convexFace(m, f);
                    for (size_t i = 0; f.size() == 4 && i < 4; ++i) // a quadrilateral with a straight angle may be divided into flat triangles
                    {
                        P2 u = m.node(f[(i + 1) % 4]) - m.node(f[i]), v = m.node(f[(i + 2) % 4]) - m.node(f[(i + 1) % 4]);
                        convex = convex && std::abs(cross(u, v)) > 0.01 * norm(u) * norm(v);
                    }
                }
                if (!convex)
                    continue;
                bool allTri = std::all_of(m.npf.begin(), m.npf.end(), [](int k) { return k == 3; });
                bool tri = !allTri || r.p(0.3);
                GL none;
                c.op("flip_edges triangulate %d", tri);
                traceMesh(c, m);
                int rc = mkernel_mesh2d_flip_edges(e.id, tri, 0, none(), none());
                if (rc)
                {
                    c.count("flip_failed");
                    continue; // still edges left to be flipped after the maximum number of sweeps
                }
                OK(c, "get_data", obsMesh2d(e.id, got));
                M2 g = got.compact();
                auto nodes = [](const M2& x)
                {
                    std::multiset<std::pair<double, double>> s;
                    for (int i = 0; i < x.numNodes(); ++i)
                        s.insert({x.nx[i], x.ny[i]});
                    return s;
                };
                if (nodes(q) != nodes(g))
                    c.fail("nodes:" + name, "%s: the nodes changed", name.c_str());
                int quads = (int)std::count(m.npf.begin(), m.npf.end(), 4);
                traceMesh(c, got);
                Planar pa = planarRegions(g);
                if (std::count(pa.shares.begin(), pa.shares.end(), true))
                {
                    c.count("flip_shares"); // a region with two edges in common with another one need not be a face
                    continue;
                }
                if (g.numEdges() != q.numEdges() + quads || got.numFaces() != m.numFaces() + quads)
                    c.fail("count:" + name, "%s: %d edges and %d faces, were %d and %d with %d quadrilaterals", name.c_str(), g.numEdges(), got.numFaces(), q.numEdges(), m.numFaces(), quads);
                for (int k : got.npf)
                    if (k != 3)
                        c.fail("not-triangle:" + name, "%s: a face with %d nodes", name.c_str(), k);
                if (std::abs(got.totalArea() - m.totalArea()) > 1e-9 * m.totalArea())
                    c.fail("area:" + name, "%s: the faces cover %.12g, was %.12g", name.c_str(), got.totalArea(), m.totalArea());
                std::multiset<EdgeKey> have;
                for (int i = 0; i < g.numEdges(); ++i)
                    have.insert(ekey(g.node(g.en[2 * i]), g.node(g.en[2 * i + 1])));
                for (int i = 0; i < q.numEdges(); ++i)
                    if ((q.ef[2 * i] < 0 || q.ef[2 * i + 1] < 0) && !have.count(ekey(q.node(q.en[2 * i]), q.node(q.en[2 * i + 1]))))
                        c.fail("boundary:" + name, "%s: boundary edge %d is gone", name.c_str(), i);
                c.evals += g.numEdges();
                c.count("checked_" + name);
                c.observed(Hash().str(name).add(got.hash()).h);
                continue;
            }
            same(c, name, w, got, tol);
        }
    }
    Reg r22("C22", caseC22, 26400, 400000);
}
