// C08 deletion with a polygon, C09 selection with polygons, C10 nearest locations, C11 merging nodes, C12 boundary polygons.
#include "pcommon.hpp"
using namespace mk;

namespace
{
    // ------------------------------------------------------------------ C08
    void caseC08(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 4, lattice, h);
        for (int round = 0; round < 3; ++round)
        {
            M2 m;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
            if (m.nValidEdges == 0)
                return;
            Box b = boxOf(m);
            if (b.w() < 1e-6 * h || b.ht() < 1e-6 * h)
                return;
            PolySet ps;
            if (!r.p(0.03))
                ps = makePoly(r, b, h, lattice);
            GL g = ps.list();
            int opt = r.i(0, 2), inv = r.i(0, 1);
            c.op("mesh2d_delete option=%d invert=%d points=%zu", opt, inv, g.size());
            tracePoly(c, g);
            traceMesh(c, m);
            double eps = 1e-4 * h;
            auto faces = m.faces();
            auto fes = m.faceEdges();
            // 1 selected for deletion, 0 not, -1 undecided
            std::vector<int> sel(faces.size());
            for (size_t f = 0; f < faces.size(); ++f)
            {
                if (opt == 2)
                {
                    P2 q;
                    if (ps.empty())
                        sel[f] = 1;
                    else if (faceCentre(m, faces[f], fes[f], q))
                        sel[f] = insideSet(ps, q, eps);
                    else
                    { // the centre lies in the face: decided if the whole face is inside or outside
                        sel[f] = -1;
                        int s0 = insideSet(ps, m.node(faces[f][0]), eps);
                        bool same = convexFace(m, faces[f]);
                        for (int k : faces[f])
                            same = same && insideSet(ps, m.node(k), eps) == s0;
                        auto fp = facePoly(m, faces[f]);
                        for (auto& en : ps.enc)
                            for (auto& ring : en)
                                for (size_t k = 0; k + 1 < ring.size() && same; ++k)
                                {
                                    auto fc = fp;
                                    fc.push_back(fp[0]);
                                    if (insideRing(fc, ring[k], eps) != 0)
                                        same = false;
                                    for (size_t q2 = 0; q2 < fp.size(); ++q2)
                                        if (segProper(ring[k], ring[k + 1], fp[q2], fp[(q2 + 1) % fp.size()]))
                                            same = false;
                                }
                        if (same)
                            sel[f] = s0;
                    }
                }
                else if (ps.empty())
                    sel[f] = 1;
                else
                {
                    int in = 1, crossed = 0;
                    for (int k : faces[f])
                    {
                        int s = insideSet(ps, m.node(k), eps);
                        if (s == -1)
                        {
                            in = -1;
                            break;
                        }
                        in = std::min(in, s);
                    }
                    for (auto& en : ps.enc)
                        for (auto& ring : en)
                            for (size_t k = 0; k + 1 < ring.size() && in != -1; ++k)
                                for (size_t q = 0; q < faces[f].size(); ++q)
                                {
                                    P2 a = m.node(faces[f][q]), d = m.node(faces[f][(q + 1) % faces[f].size()]);
                                    if (distPointSeg(ring[k], a, d) < eps)
                                        in = -1;
                                    if (segProper(ring[k], ring[k + 1], a, d))
                                        crossed = 1;
                                }
                    if (in == -1)
                        sel[f] = -1;
                    else
                        sel[f] = opt == 0 ? (in && !crossed) : (in || crossed);
                }
                if (sel[f] >= 0 && inv)
                    sel[f] = 1 - sel[f];
            }
            std::multiset<EdgeKey> must, may;
            int nKeep = 0, nDel = 0, nFree = 0;
            for (int k = 0; k < m.numEdges(); ++k)
            {
                if (!m.edgeValid(k))
                    continue;
                EdgeKey key = ekey(m.node(m.en[2 * k]), m.node(m.en[2 * k + 1]));
                int f1 = m.ef[2 * k], f2 = m.ef[2 * k + 1];
                int st; // 1 keep, 0 delete, -1 undecided
                if (f1 < 0 && f2 < 0)
                {
                    if (opt != 2)
                        st = -1;
                    else
                    {
                        int s = ps.empty() ? 1 : insideSet(ps, (m.node(m.en[2 * k]) + m.node(m.en[2 * k + 1])) * 0.5, eps);
                        st = s < 0 ? -1 : (inv ? s : 1 - s);
                    }
                }
                else
                {
                    bool keep = false, und = false;
                    for (int f : {f1, f2})
                        if (f >= 0)
                        {
                            keep = keep || sel[f] == 0;
                            und = und || sel[f] == -1;
                        }
                    st = keep ? 1 : und ? -1 : 0;
                }
                if (st == 1)
                    must.insert(key);
                if (st != 0)
                    may.insert(key);
                (st == 1 ? nKeep : st == 0 ? nDel : nFree)++;
            }
            std::map<std::pair<double, double>, int> nodesBefore;
            for (int k = 0; k < m.numNodes(); ++k)
                if (m.nodeValid(k))
                    nodesBefore[{m.nx[k], m.ny[k]}]++;
            int rcDel = mkernel_mesh2d_delete(e.id, g(), opt, inv);
            if (rcDel != 0 && faces.empty())
            { // "Mesh with no faces"
                c.count("no_faces_rejected");
                return;
            }
            OK(c, "mesh2d_delete", rcDel);
            M2 a;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, a));
            std::multiset<EdgeKey> have;
            for (int k = 0; k < a.numEdges(); ++k)
                if (a.edgeValid(k))
                    have.insert(ekey(a.node(a.en[2 * k]), a.node(a.en[2 * k + 1])));
            const char* on = opt == 0 ? "inside" : opt == 1 ? "inside-and-intersected" : "circumcentre";
            c.evals++;
            for (auto it = must.begin(); it != must.end(); it = must.upper_bound(*it))
                if (have.count(*it) < must.count(*it))
                    c.fail(std::string("delete:removed-unselected:") + on, "edge (%g %g)-(%g %g) belongs to a face that is not selected but was deleted (option %d invert %d)", (*it)[0], (*it)[1], (*it)[2], (*it)[3], opt, inv);
            for (auto it = have.begin(); it != have.end(); it = have.upper_bound(*it))
                if (have.count(*it) > may.count(*it))
                    c.fail(std::string("delete:kept-selected:") + on, "edge (%g %g)-(%g %g) is left although all its faces are selected (option %d invert %d)", (*it)[0], (*it)[1], (*it)[2], (*it)[3], opt, inv);
            for (int k = 0; k < a.numNodes(); ++k)
                if (a.nodeValid(k) && nodesBefore[{a.nx[k], a.ny[k]}]-- <= 0)
                    c.fail("delete:moved-node", "node %d at %g %g was not in the mesh before the deletion", k, a.nx[k], a.ny[k]);
            c.count("edges_kept", nKeep);
            c.count("edges_deleted", nDel);
            c.count("edges_undecided", nFree);
            c.count(std::string("option_") + on + (inv ? "_inverted" : ""));
            if (nKeep && nDel)
                c.observed(Hash().add(opt).add(inv).add(m.hash()).add(a.hash()).h);
            if (r.p(0.5))
            {
                bool u;
                int id;
                c.op("undo");
                mkernel_undo_state(u, id);
            }
        }
    }

    // ------------------------------------------------------------------ C09
    void caseC09(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        int proj = r.p(0.2) ? r.i(1, 2) : 0;
        Env e = proj == 0 ? makeMesh(c, 4, lattice, h) : meshByHistory(c, r.i(0, 3), proj, EX);
        if (proj)
        {
            lattice = false;
            h = e.cell();
            if (!e.hasMesh())
                c.skip();
        }
        for (int round = 0; round < 4; ++round)
        {
            M2 m;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
            if (m.nValidEdges == 0)
                return;
            Box b = boxOf(m);
            PolySet ps;
            if (b.w() < 1e-6 * h || b.ht() < 1e-6 * h)
                return;
            if (proj && (b.w() > 40 || b.ht() > 40 || b.y0 < -70 || b.y1 > 70))
                return;
            if (!r.p(0.05))
                ps = makePoly(r, b, h, lattice, true);
            GL g = ps.list();
            c.op("selection with %zu polygon points, projection %d", g.size(), proj);
            tracePoly(c, g);
            // polygon edges follow great circles in the accurate spherical projection: leave a margin there
            double eps = proj == 2 ? 0.05 * b.diag() : 1e-9 * (1 + h + b.diag());
            std::vector<int> in(m.numNodes(), -1);
            for (int k = 0; k < m.numNodes(); ++k)
                if (m.nodeValid(k))
                    in[k] = ps.empty() ? 1 : insideSet(ps, m.node(k), eps);
            for (int inside = 1; inside >= 0; --inside)
            {
                int cnt = -7;
                OK(c, "count_nodes_in_polygons", mkernel_mesh2d_count_nodes_in_polygons(e.id, g(), inside, cnt));
                if (cnt < 0 || cnt > m.numNodes())
                    c.fail("select:count", "count %d with %d nodes", cnt, m.numNodes());
                std::vector<int> got(cnt + 1, -12345);
                OK(c, "get_nodes_in_polygons", mkernel_mesh2d_get_nodes_in_polygons(e.id, g(), inside, got.data()));
                if (got[cnt] != -12345 || (cnt > 0 && got[cnt - 1] == -12345))
                    c.fail("select:count-differs", "%d nodes counted, another number delivered", cnt);
                got.pop_back();
                std::set<int> s(got.begin(), got.end());
                if (s.size() != got.size())
                    c.fail("select:duplicate", "a node is selected twice");
                int dec = 0;
                for (int k = 0; k < m.numNodes(); ++k)
                {
                    if (!m.nodeValid(k) || in[k] < 0)
                        continue;
                    bool want = (in[k] == 1) == (inside == 1);
                    dec++;
                    if (want != (s.count(k) > 0))
                        c.fail(std::string("select:nodes:") + (proj == 0 ? "cartesian" : proj == 1 ? "spherical" : "accurate") + (inside ? ":inside" : ":outside"), "node %d at %.17g %.17g is %s the selection polygon, but %s", k, m.nx[k], m.ny[k], in[k] ? "inside" : "outside", s.count(k) ? "selected" : "not selected");
                }
                c.evals++;
                c.count("nodes_decided", dec);
                if (!s.empty() && static_cast<int>(s.size()) < m.nValidNodes)
                    c.observed(Hash().add(inside).vec(got).vec(g.x).h);
            }
            // points of a geometry list against one polygon with its holes
            if (!ps.empty())
            {
                PolySet one;
                one.enc.push_back(ps.enc[r.i(0, static_cast<int>(ps.enc.size()) - 1)]);
                GL og = one.list(), pts;
                int n = r.i(1, 30);
                for (int k = 0; k < n; ++k)
                {
                    P2 q = b.rnd(r, 0.2);
                    if (r.p(0.5))
                    { // aligned with polygon vertices
                        auto& ring = one.enc[0][r.i(0, static_cast<int>(one.enc[0].size()) - 1)];
                        q.x = r.pick(ring).x;
                        if (r.p(0.5))
                            q.y = r.pick(ring).y;
                    }
                    pts.add(q);
                }
                GL res(pts.size(), -5.0);
                auto resList = res();
                OK(c, "polygon_get_included_points", mkernel_polygon_get_included_points(e.id, og(), pts(), resList));
                c.evals++;
                for (size_t k = 0; k < pts.size(); ++k)
                {
                    int w = insideSet(one, {pts.x[k], pts.y[k]}, eps);
                    if (w >= 0 && res.v[k] != w)
                        c.fail(std::string("select:included-points:") + (proj == 0 ? "cartesian" : proj == 1 ? "spherical" : "accurate"), "point %.17g %.17g is %s the polygon but the result is %g", pts.x[k], pts.y[k], w ? "inside" : "outside", res.v[k]);
                }
            }
            randomStep(e, Mesh2, EX);
            if (!e.hasMesh())
                return;
        }
    }

    // ------------------------------------------------------------------ C10
    void caseC10(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 3, lattice, h);
        // the same kind of question in the same box throughout: what was prepared for one question must not be used for the next one after a change
        const int only = r.p(0.5) ? r.i(0, 4) : -1;
        const bool wide = only >= 0 || r.p(0.3);
        mk::BoundingBox all{-1e6, -1e6, 1e6, 1e6};
        struct
        {
            int what = -1, rc = 0, idx = -77;
            P2 p{0, 0};
        } pre; // asked before the mesh was read
        bool undone = false;
        for (int round = 0; round < 5; ++round)
        {
            M2 m;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
            e.refresh();
            if (m.nValidEdges == 0)
                return;
            Box b = boxOf(m);
            auto faces = m.faces();
            auto fes = m.faceEdges();
            std::vector<std::pair<P2, int>> loc[3];
            for (int k = 0; k < m.numNodes(); ++k)
                if (m.nodeValid(k))
                    loc[1].push_back({m.node(k), k});
            for (int k = 0; k < m.numEdges(); ++k)
                if (m.edgeValid(k))
                    loc[2].push_back({(m.node(m.en[2 * k]) + m.node(m.en[2 * k + 1])) * 0.5, k});
            // face centres are known exactly for triangles and rectangles; others lie somewhere in the (convex) face
            std::vector<char> known(faces.size(), 1);
            for (size_t f = 0; f < faces.size(); ++f)
            {
                P2 q;
                if (!faceCentre(m, faces[f], fes[f], q))
                {
                    known[f] = convexFace(m, faces[f]) ? 0 : 2;
                    q = m.node(faces[f][0]);
                }
                loc[0].push_back({q, static_cast<int>(f)});
            }
            auto range = [&](int l, const std::pair<P2, int>& x, P2 p) -> std::pair<double, double>
            {
                if (l != 0 || known[x.second] == 1)
                {
                    double d = dist(x.first, p);
                    return {d, d};
                }
                if (known[x.second] == 2)
                    return {0, 1e300};
                auto fp = facePoly(m, faces[x.second]);
                double lo = 1e300, hi = 0;
                auto cl = fp;
                cl.push_back(fp[0]);
                for (size_t k = 0; k < fp.size(); ++k)
                {
                    lo = std::min(lo, distPointSeg(p, cl[k], cl[k + 1]));
                    hi = std::max(hi, dist(p, fp[k]));
                }
                if (insideRing(cl, p, 1e-9) != 0)
                    lo = 0;
                return {lo, hi};
            };
            // 1 in the box, 0 outside, -1 unknown
            auto inBox = [&](int l, const std::pair<P2, int>& x, const mk::BoundingBox& bb) -> int
            {
                auto one = [&](P2 q) -> int
                {
                    double mx = std::min(std::min(std::abs(q.x - bb.xLowerLeft), std::abs(q.x - bb.xUpperRight)), std::min(std::abs(q.y - bb.yLowerLeft), std::abs(q.y - bb.yUpperRight)));
                    if (mx < 1e-9 * (1 + h))
                        return -1;
                    return q.x >= bb.xLowerLeft && q.x <= bb.xUpperRight && q.y >= bb.yLowerLeft && q.y <= bb.yUpperRight;
                };
                if (l != 0 || known[x.second] == 1)
                    return one(x.first);
                if (known[x.second] == 2)
                    return -1;
                bool allIn = true;
                double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
                for (int k : faces[x.second])
                {
                    P2 q = m.node(k);
                    allIn = allIn && one(q) == 1;
                    x0 = std::min(x0, q.x), x1 = std::max(x1, q.x), y0 = std::min(y0, q.y), y1 = std::max(y1, q.y);
                }
                if (allIn)
                    return 1;
                if (x1 < bb.xLowerLeft || x0 > bb.xUpperRight || y1 < bb.yLowerLeft || y0 > bb.yUpperRight)
                    return 0;
                return -1;
            };
            for (int q = 0; q < 6; ++q)
            {
                P2 p = b.rnd(r, 0.3);
                if (lattice && r.p(0.5))
                    p = {b.x0 + h * r.i(-1, 8), b.y0 + h * r.i(-1, 8)};
                if (r.p(0.2) && !loc[1].empty())
                    p = r.pick(loc[1]).first;
                int what = only >= 0 ? only : r.i(0, 4);
                const bool asked = pre.what > 0 && q == 0;
                if (asked)
                {
                    what = pre.what;
                    p = pre.p;
                }
                if (what == 0)
                { // node within a radius
                    double R = h * (r.p(0.3) ? r.d(2, 20) : r.d(0.05, 1.5));
                    int idx = -77;
                    c.op("mesh2d_get_node_index %.17g %.17g R=%g", p.x, p.y, R);
                    OK(c, "get_node_index", mkernel_mesh2d_get_node_index(e.id, p.x, p.y, R, b.x0 - 9, b.y0 - 9, b.x1 + 9, b.y1 + 9, idx));
                    double best = 1e300;
                    for (auto& [x, k] : loc[1])
                        best = std::min(best, dist(x, p));
                    c.evals++;
                    if (idx < 0)
                    {
                        if (best < R * (1 - 1e-9))
                            c.fail("nearest:node-not-found", "no node found within %g although one lies at distance %g", R, best);
                        c.count("node_none");
                    }
                    else
                    {
                        if (!m.nodeValid(idx))
                            c.fail("nearest:invalid-node", "index %d is not a valid node", idx);
                        double d = dist(m.node(idx), p);
                        if (d > best + 1e-9 * (1 + best) || d > R * (1 + 1e-9))
                            c.fail("nearest:node", "node %d at distance %.17g, the nearest is at %.17g, radius %g", idx, d, best, R);
                        c.count("node_found");
                        double x = 0, y = 0;
                        OK(c, "get_closest_node", mkernel_mesh2d_get_closest_node(e.id, p.x, p.y, R, b.x0 - 9, b.y0 - 9, b.x1 + 9, b.y1 + 9, x, y));
                        if (std::abs(dist({x, y}, p) - best) > 1e-9 * (1 + best))
                            c.fail("nearest:closest-node", "point %.17g %.17g is not the closest node", x, y);
                    }
                    c.observed(Hash().add(idx).add(p.x).h);
                    continue;
                }
                int l = what == 1 ? 2 : what - 2; // get_edge, or location index for 0 faces, 1 nodes, 2 edges
                mk::BoundingBox bb{b.x0 - 1e3, b.y0 - 1e3, b.x1 + 1e3, b.y1 + 1e3};
                if (wide)
                    bb = all;
                else if (r.p(0.5))
                {
                    P2 u = b.rnd(r, 0.1), w = b.rnd(r, 0.1);
                    bb = {std::min(u.x, w.x), std::min(u.y, w.y), std::max(u.x, w.x), std::max(u.y, w.y)};
                }
                double best = 1e300; // an upper bound of the smallest distance
                bool surely = false, maybe = false;
                for (auto& x : loc[l])
                {
                    int in = inBox(l, x, bb);
                    maybe = maybe || in != 0;
                    surely = surely || in == 1;
                    if (in == 1)
                        best = std::min(best, range(l, x, p).second);
                }
                int idx = -77;
                c.op("%s %d %.17g %.17g box %g %g %g %g", what == 1 ? "mesh2d_get_edge" : "mesh2d_get_location_index", l, p.x, p.y, bb.xLowerLeft, bb.yLowerLeft, bb.xUpperRight, bb.yUpperRight);
                int rc = pre.rc;
                if (asked)
                    idx = pre.idx;
                else
                    rc = what == 1 ? mkernel_mesh2d_get_edge(e.id, p.x, p.y, bb.xLowerLeft, bb.yLowerLeft, bb.xUpperRight, bb.yUpperRight, idx)
                                   : mkernel_mesh2d_get_location_index(e.id, p.x, p.y, l, bb, idx);
                c.evals++;
                static const char* ln[] = {"face", "node", "edge"};
                if (!maybe)
                {
                    if (rc == 0)
                        c.fail(std::string("nearest:found-outside-box:") + ln[l], "location %d returned although none lies in the bounding box", idx);
                    c.count("empty_box");
                    continue;
                }
                if (rc != 0)
                {
                    if (surely)
                        c.fail(std::string("nearest:error:") + ln[l], "error %d (%s) although there are locations in the bounding box", rc, lastError().c_str());
                    c.count("undecided");
                    continue;
                }
                const std::pair<P2, int>* hit = nullptr;
                for (auto& x : loc[l])
                    if (x.second == idx)
                        hit = &x;
                if (!hit)
                    c.fail(std::string("nearest:invalid:") + ln[l], "index %d is not a valid location", idx);
                double d = range(l, *hit, p).first;
                if (inBox(l, *hit, bb) == 0)
                    c.fail(std::string("nearest:outside-box:") + ln[l], "location %d lies outside the bounding box", idx);
                if (d > best + 1e-6 * (1 + best))
                    c.fail(std::string("nearest:") + ln[l], "location %d at distance %.17g, the nearest is at %.17g", idx, d, best);
                c.count(std::string("found_") + ln[l]);
                c.observed(Hash().add(idx).add(l).add(p.x).h);
            }
            const int back = round == 0 ? 2 : undone && r.p(0.5) ? 1 : r.i(0, 4);
            undone = back == 0;
            e.lazy = wide && r.p(0.6);
            if (back <= 1)
            {
                bool u;
                int id;
                c.op(back ? "redo" : "undo");
                back ? mkernel_redo_state(u, id) : mkernel_undo_state(u, id);
                bool ok = true;
                mkernel_is_valid_state(e.id, ok);
            }
            else
                randomStep(e, Mesh2, EX);
            pre.what = -1;
            if (wide && r.p(0.5))
            {
                pre.what = only > 0 ? only : r.i(1, 4);
                if (pre.what == 3)
                    pre.what = -1; // nodes without edges are only dropped when the mesh is read
                pre.p = b.rnd(r, 0.3);
                pre.idx = -77;
                if (pre.what > 0)
                {
                    c.op("before reading: %d %.17g %.17g", pre.what, pre.p.x, pre.p.y);
                    pre.rc = pre.what == 1 ? mkernel_mesh2d_get_edge(e.id, pre.p.x, pre.p.y, all.xLowerLeft, all.yLowerLeft, all.xUpperRight, all.yUpperRight, pre.idx)
                                           : mkernel_mesh2d_get_location_index(e.id, pre.p.x, pre.p.y, pre.what - 2, all, pre.idx);
                }
            }
            else
                e.refresh();
            if (!e.hasMesh())
                return;
        }
    }

    // ------------------------------------------------------------------ C11
    struct Uf
    {
        std::vector<int> p;
        explicit Uf(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; }
        int f(int a) { return p[a] == a ? a : p[a] = f(p[a]); }
        void u(int a, int b) { p[f(a)] = f(b); }
    };
    void caseC11(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 3, lattice, h);
        // add a mesh whose nodes lie close to those of the first
        for (int k = r.i(0, 2); k > 0; --k)
        {
            GenOpt o;
            o.maxN = 4;
            o.h = h;
            Box b = boxOf(e.m2);
            RawMesh q = r.p(0.5) ? genMesh(r, o) : latticeMesh(r, r.i(1, 4), r.i(1, 4), h, {0, 0}, 0.3, 0.1);
            if (q.edges.empty())
                continue;
            int n = e.rndNode();
            if (n < 0)
                return;
            P2 t = e.m2.node(n) - q.nodes[0] + P2{r.d(-0.1, 0.1) * h, r.d(-0.1, 0.1) * h};
            if (r.p(0.3))
                t = e.m2.node(n) - q.nodes[0];
            for (auto& x : q.nodes)
                x = x + t;
            c.op("mesh2d_add %zu nodes", q.nodes.size());
            OK(c, "mesh2d_add", addMesh2d(e.id, q));
            e.refresh();
        }
        for (int round = 0; round < 3; ++round)
        {
            M2 m;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
            if (m.nValidEdges == 0)
                return;
            if (m.numNodes() > 1500)
                return;
            Box b = boxOf(m);
            int kind = r.i(0, 2);
            std::set<std::pair<int, int>> before; // contracted
            Uf uf(m.numNodes());
            std::vector<int> selected(m.numNodes(), 0); // 1 yes, 0 no, -1 undecided
            double d = 0;
            PolySet ps;
            bool undecided = false;
            int a = -1, bb = -1;
            traceMesh(c, m);
            if (kind == 2)
            {
                a = e.rndNode();
                bb = e.rndNode();
                if (r.p(0.6))
                {
                    int k = e.rndEdge();
                    if (k >= 0)
                    {
                        a = m.en[2 * k];
                        bb = m.en[2 * k + 1];
                    }
                }
                if (a < 0 || bb < 0 || a == bb || !m.nodeValid(a) || !m.nodeValid(bb))
                    return;
                uf.u(a, bb);
                c.op("merge_two_nodes %d %d", a, bb);
                OK(c, "merge_two_nodes", mkernel_mesh2d_merge_two_nodes(e.id, a, bb));
            }
            else
            {
                if (r.p(0.7))
                    ps = makePoly(r, b, h, lattice);
                GL g = ps.list();
                for (int k = 0; k < m.numNodes(); ++k)
                    if (m.nodeValid(k))
                    {
                        selected[k] = ps.empty() ? 1 : insideSet(ps, m.node(k), 1e-9 * (1 + h));
                        undecided = undecided || selected[k] < 0;
                    }
                if (undecided)
                {
                    c.count("undecided");
                    continue;
                }
                if (kind == 0)
                {
                    double ml = 1e300;
                    for (int k = 0; k < m.numEdges(); ++k)
                        if (m.edgeValid(k) && (selected[m.en[2 * k]] || selected[m.en[2 * k + 1]]))
                            ml = std::min(ml, dist(m.node(m.en[2 * k]), m.node(m.en[2 * k + 1])));
                    if (ml > 1e200)
                        continue;
                    d = std::max(1e-6, 0.1 * ml);
                }
                else
                    d = h * (r.p(0.2) ? r.d(0.8, 1.6) : r.d(0.01, 0.3));
                for (int i = 0; i < m.numNodes(); ++i)
                    for (int j = i + 1; j < m.numNodes(); ++j)
                        if (selected[i] && selected[j])
                        {
                            double x = dist(m.node(i), m.node(j));
                            if (std::abs(x - d) < 1e-9 * (1 + d))
                                undecided = true;
                            if (x < d)
                                uf.u(i, j);
                        }
                if (undecided)
                {
                    c.count("undecided");
                    continue;
                }
                c.op(kind == 0 ? "mesh2d_merge_nodes (%g) np=%zu" : "merge_nodes_with_merging_distance %.17g np=%zu", d, g.size());
                tracePoly(c, g);
                if (kind == 0)
                    OK(c, "merge_nodes", mkernel_mesh2d_merge_nodes(e.id, g()));
                else
                    OK(c, "merge_nodes_with_merging_distance", mkernel_mesh2d_merge_nodes_with_merging_distance(e.id, g(), d));
            }
            M2 s;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, s));
            c.evals++;
            // at most 16 edges can meet in a node
            std::vector<int> deg(s.numNodes(), 0);
            for (auto* q : {&m, &s})
            {
                std::fill(deg.begin(), deg.end(), 0);
                for (int k = 0; k < q->numEdges(); ++k)
                    if (q->edgeValid(k) && q->en[2 * k] < s.numNodes() && q->en[2 * k + 1] < s.numNodes())
                        deg[q->en[2 * k]]++, deg[q->en[2 * k + 1]]++;
                if (*std::max_element(deg.begin(), deg.end()) > 14)
                    c.skip();
            }
            if (s.numNodes() != m.numNodes())
                c.fail("merge:numbering", "the number of nodes including invalid ones changed from %d to %d", m.numNodes(), s.numNodes());
            auto contracted = [&](const M2& q, bool check)
            {
                std::set<std::pair<int, int>> r2;
                std::set<std::pair<int, int>> seen;
                for (int k = 0; k < q.numEdges(); ++k)
                    if (q.edgeValid(k))
                    {
                        int x = q.en[2 * k], y = q.en[2 * k + 1];
                        if (check && !seen.insert({std::min(x, y), std::max(x, y)}).second)
                            c.fail("merge:duplicate-edge", "nodes %d and %d are connected twice", x, y);
                        x = uf.f(x);
                        y = uf.f(y);
                        if (x != y)
                            r2.insert({std::min(x, y), std::max(x, y)});
                    }
                return r2;
            };
            auto cb = contracted(m, false), ca = contracted(s, true);
            if (cb != ca)
            {
                for (auto& x : cb)
                    if (!ca.count(x))
                        c.fail("merge:lost-edge", "the connection between the nodes (groups) %d and %d is lost", x.first, x.second);
                for (auto& x : ca)
                    if (!cb.count(x))
                        c.fail("merge:new-edge", "nodes (groups) %d and %d were not connected before", x.first, x.second);
            }
            std::map<int, int> size, left;
            for (int k = 0; k < m.numNodes(); ++k)
                if (m.nodeValid(k))
                {
                    size[uf.f(k)]++;
                    if (s.nodeValid(k))
                    {
                        left[uf.f(k)]++;
                        if (!(s.node(k) == m.node(k)))
                            c.fail("merge:moved", "node %d moved", k);
                    }
                }
                else if (s.nodeValid(k))
                    c.fail("merge:revived", "the deleted node %d exists again", k);
            int merged = 0;
            for (auto& [g, n] : size)
            {
                // a group of which no connection to other groups is left disappears, as do nodes without edges
                bool conn = false;
                for (auto& x : cb)
                    conn = conn || x.first == g || x.second == g;
                if (n == 1 && conn && left[g] != 1)
                    c.fail("merge:unselected-removed", "node (group) %d had nothing to merge with but is gone", g);
                if (n == 2 && conn && left[g] != 1)
                    c.fail(left[g] == 2 ? "merge:not-merged" : "merge:both-removed", "of two nodes to be merged %d are left (distance %g)", left[g], d);
                if (n > 2 && conn && left[g] < 1)
                    c.fail("merge:group-removed", "all %d nodes of a group are gone", n);
                merged += n > 1;
            }
            if (kind == 2 && s.nodeValid(a))
                c.fail("merge:first-kept", "the first node still exists");
            if (kind != 2)
                for (int i = 0; i < m.numNodes(); ++i)
                    for (int j = i + 1; j < m.numNodes(); ++j)
                        if (selected[i] && selected[j] && s.nodeValid(i) && s.nodeValid(j) && dist(s.node(i), s.node(j)) < d * (1 - 1e-9))
                            c.fail("merge:still-close", "nodes %d and %d at distance %g are left, the merging distance is %g", i, j, dist(s.node(i), s.node(j)), d);
            c.count("merged_groups", merged);
            if (merged)
                c.observed(Hash().add(m.hash()).add(s.hash()).h);
            e.refresh();
        }
    }

    // ------------------------------------------------------------------ C12
    void caseC12(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 4, lattice, h);
        for (int round = 0; round < 4; ++round)
        {
            M2 m;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
            if (m.nValidEdges == 0)
                return;
            int n = -7;
            c.op("mesh boundaries");
            traceMesh(c, m);
            OK(c, "count_mesh_boundaries", mkernel_mesh2d_count_mesh_boundaries_as_polygons(e.id, n));
            if (n < 0)
                c.fail("boundary:count", "count %d", n);
            GL g(static_cast<size_t>(n), -7777.0);
            OK(c, "get_mesh_boundaries", mkernel_mesh2d_get_mesh_boundaries_as_polygons(e.id, g()));
            std::multiset<EdgeKey> want, have;
            std::map<std::pair<double, double>, int> deg;
            std::map<int, int> ndeg;
            for (int k = 0; k < m.numEdges(); ++k)
                if (m.edgeValid(k) && (m.ef[2 * k] < 0) != (m.ef[2 * k + 1] < 0))
                {
                    want.insert(ekey(m.node(m.en[2 * k]), m.node(m.en[2 * k + 1])));
                    ndeg[m.en[2 * k]]++;
                    ndeg[m.en[2 * k + 1]]++;
                }
            bool odd = false;
            for (auto& [k, d] : ndeg)
                odd = odd || d % 2;
            size_t start = 0;
            int rings = 0;
            for (size_t k = 0; k <= g.size(); ++k)
            {
                if (k < g.size() && g.x[k] != MISSING)
                {
                    if (k > start)
                        have.insert(ekey({g.x[k - 1], g.y[k - 1]}, {g.x[k], g.y[k]}));
                    continue;
                }
                if (k > start)
                {
                    rings++;
                    if (!odd && !(g.x[start] == g.x[k - 1] && g.y[start] == g.y[k - 1]))
                        c.fail("boundary:open", "boundary polygon %d is not closed", rings);
                }
                start = k + 1;
            }
            c.evals++;
            for (auto& k : want)
                if (have.count(k) != want.count(k))
                    c.fail(have.count(k) < want.count(k) ? "boundary:missing-edge" : "boundary:repeated-edge", "boundary edge (%g %g)-(%g %g) occurs %zu times in the boundary polygons", k[0], k[1], k[2], k[3], have.count(k));
            for (auto& k : have)
                if (!want.count(k))
                    c.fail("boundary:extra-edge", "(%g %g)-(%g %g) is in a boundary polygon but is not a boundary edge", k[0], k[1], k[2], k[3]);
            c.count("boundary_edges", static_cast<long long>(want.size()));
            c.count("rings", rings);
            if (!want.empty())
                c.observed(m.hash());
            randomStep(e, Mesh2, EX);
            if (!e.hasMesh())
                return;
        }
    }
    Reg r8("C08", caseC08, 22000, 250000);
    Reg r9("C09", caseC09, 22000, 250000);
    Reg r10("C10", caseC10, 22000, 250000);
    Reg r11("C11", caseC11, 22000, 250000);
    Reg r12("C12", caseC12, 15400, 200000);
} // namespace
