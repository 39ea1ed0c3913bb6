// C16: contacts between the 1D and the 2D mesh. C17: the 1D mesh of a network.
#include "pcommon.hpp"

namespace
{
    // -1 undecided, 0 no crossing, 1 proper crossing; t, s: fractions along ab and cd
    int crossing(P2 a, P2 b, P2 p, P2 q, double& t, double& s)
    {
        P2 d = b - a, e = q - p;
        double den = cross(d, e), L = std::hypot(d.x, d.y), M = std::hypot(e.x, e.y);
        if (L == 0 || M == 0)
            return -1;
        if (std::abs(den) < 1e-6 * L * M)
            return distSegSeg(a, b, p, q) > 1e-6 * (L + M) ? 0 : -1;
        t = cross(p - a, e) / den;
        s = cross(p - a, d) / den;
        const double eps = 1e-5;
        if (t < -eps || t > 1 + eps || s < -eps || s > 1 + eps)
            return 0;
        if (t > eps && t < 1 - eps && s > eps && s < 1 - eps)
            return 1;
        return -1;
    }
    struct World
    {
        M2 m;
        M1 l;
        double h = 1;
        std::vector<std::vector<int>> faces, fedges;
        std::vector<std::vector<P2>> poly;
        std::vector<int> known; // representative point known
        std::vector<P2> centre;
        std::vector<std::vector<int>> inc; // 1D edges per node
        std::vector<double> maxLen;
        int faceOf(P2 p) const // -1 none, -2 undecided
        {
            int r = -1;
            for (size_t f = 0; f < poly.size(); ++f)
            {
                int k = insideRing(poly[f], p, 1e-6 * h);
                if (k < 0)
                    return -2;
                if (k == 1)
                {
                    if (r >= 0)
                        return -2;
                    r = (int)f;
                }
            }
            return r;
        }
        bool boundaryFace(int f) const
        {
            for (int e : fedges[f])
                if (m.ef[2 * e] < 0 || m.ef[2 * e + 1] < 0)
                    return true;
            return false;
        }
        double dist(int n, P2 q) const { return std::hypot(l.nx[n] - q.x, l.ny[n] - q.y); }
    };
    void caseC16(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        World w;
        Env e = makeMesh(c, 4, lattice, w.h);
        int id = e.id;
        Box b = boxOf(e.m2);
        if (b.diag() > 1e5 * w.h || !planarRegions(e.m2.compact()).usable)
            c.skip();
        // 1D mesh: one or more chains, possibly branching
        std::vector<P2> nodes;
        std::vector<std::array<int, 2>> edges;
        int chains = r.i(1, 3);
        for (int k = 0; k < chains; ++k)
        {
            double step = w.h * r.d(0.3, 2.5), a = r.d(0, 6.28318);
            P2 p = b.rnd(r, 0.3);
            int prev = -1;
            if (k > 0 && r.p(0.4))
            {
                prev = r.i(0, (int)nodes.size() - 1);
                p = nodes[prev];
            }
            int n = r.i(2, 9);
            for (int i = 0; i < n; ++i)
            {
                if (i > 0 || prev < 0)
                {
                    nodes.push_back(p);
                    if (prev >= 0)
                        edges.push_back(r.p(0.5) ? std::array<int, 2>{prev, (int)nodes.size() - 1} : std::array<int, 2>{(int)nodes.size() - 1, prev});
                    prev = (int)nodes.size() - 1;
                }
                a += r.d(-0.7, 0.7);
                double s = step * r.d(0.6, 1.4);
                p = p + P2{s * std::cos(a), s * std::sin(a)};
            }
        }
        if (edges.empty())
            c.skip();
        if (r.p(0.25) && e.m2.numEdges() > 0) // some nodes exactly on edges and nodes of the 2D mesh
            for (auto& p : nodes)
                if (r.p(0.4))
                {
                    int best = -1;
                    double db = 1e300;
                    for (int k = 0; k < e.m2.numEdges(); ++k)
                        if (e.m2.en[2 * k] >= 0 && e.m2.en[2 * k + 1] >= 0)
                        {
                            P2 q = (e.m2.node(e.m2.en[2 * k]) + e.m2.node(e.m2.en[2 * k + 1])) * 0.5;
                            double d = std::hypot(p.x - q.x, p.y - q.y);
                            if (d < db)
                                db = d, best = k;
                        }
                    if (best >= 0)
                        p = r.p(0.3) ? e.m2.node(e.m2.en[2 * best]) : (e.m2.node(e.m2.en[2 * best]) + e.m2.node(e.m2.en[2 * best + 1])) * 0.5;
                }
        for (size_t i = edges.size(); i > 1; --i)
            std::swap(edges[i - 1], edges[r.i(0, (int)i - 1)]);
        c.op("mesh1d_set nodes=%zu edges=%zu", nodes.size(), edges.size());
        OK(c, "mesh1d_set", setMesh1d(id, nodes, edges));
        for (size_t i = 0; c.verbose && i < nodes.size(); ++i)
            c.op("   1d node %zu %.17g %.17g", i, nodes[i].x, nodes[i].y);
        for (size_t i = 0; c.verbose && i < edges.size(); ++i)
            c.op("   1d edge %zu: %d %d", i, edges[i][0], edges[i][1]);
        if (r.p(0.3))
        {
            e.lazy = true; // the contacts follow directly on an edit of the 2D mesh
            randomStep(e, Mesh2, {"mesh2d_convert_projection", "mesh2d_set"});
            e.lazy = false;
        }
        int method = r.i(0, 4);
        int rounds = r.i(1, 3);
        for (int round = 0; round < rounds; ++round, method = r.i(0, 4))
        {
            std::vector<int> mask(nodes.size(), 1);
            if (r.p(0.5))
                for (auto& k : mask)
                    k = r.p(0.7);
            PolySet ps;
            GL pts, none;
            double factor = r.d(0.2, 6), radius = r.p(0.4) ? MISSING : w.h * r.d(0.3, 3);
            static const char* names[] = {"contacts_compute_single", "contacts_compute_multiple", "contacts_compute_with_polygons", "contacts_compute_with_points", "contacts_compute_boundary"};
            std::string name = names[method];
            M2 pre;
            if (method == 3)
            {
                int k = r.i(1, 12);
                for (int i = 0; i < k; ++i)
                {
                    P2 q = r.p(0.2) ? r.pick(nodes) : b.rnd(r, 0.1);
                    if (i == 0 || !(q.x == pts.pts().back().x && q.y == pts.pts().back().y))
                        pts.add(q);
                }
            }
            else if (method != 1)
                ps = method == 2 || r.p(0.6) ? makePoly(r, b, w.h, lattice && r.p(0.5)) : PolySet{};
            if (method == 2)
                for (auto& enc : ps.enc)
                    enc.resize(1);
            if (method == 2 && ps.empty())
                continue;
            GL pg = ps.list();
            c.op("%s factor=%g radius=%g polygons=%zu points=%zu", name.c_str(), factor, radius, ps.enc.size(), pts.size());
            if (c.verbose)
            {
                tracePoly(c, pg);
                std::string s;
                for (int k : mask)
                    s += k ? '1' : '0';
                c.op("   mask %s", s.c_str());
            }
            int rc = method == 0   ? mkernel_contacts_compute_single(id, mask.data(), pg(), factor)
                     : method == 1 ? mkernel_contacts_compute_multiple(id, mask.data())
                     : method == 2 ? mkernel_contacts_compute_with_polygons(id, mask.data(), pg())
                     : method == 3 ? mkernel_contacts_compute_with_points(id, mask.data(), pts())
                                   : mkernel_contacts_compute_boundary(id, mask.data(), pg(), radius);
            obsMesh2d(id, w.m);
            obsMesh1d(id, w.l);
            if (w.m.numFaces() == 0 || !planarRegions(w.m.compact()).usable)
                c.skip();
            if (rc)
                c.fail("unexpected-error:" + name, "%s returned %d: %s", name.c_str(), rc, lastError().c_str());
            CT ct;
            OK(c, "contacts_get_data", obsContacts(id, ct));
            if (c.verbose)
            {
                traceMesh(c, w.m);
                for (size_t i = 0; i < ct.i1.size(); ++i)
                    c.op("   contact %d - face %d", ct.i1[i], ct.i2[i]);
            }
            w.faces = w.m.faces();
            w.fedges = w.m.faceEdges();
            const int nf = (int)w.faces.size(), n1 = w.l.numNodes();
            if (n1 != (int)nodes.size())
                c.fail("mesh1d-changed", "%s changed the number of 1D nodes", name.c_str());
            w.poly.clear();
            w.known.assign(nf, 0);
            w.centre.assign(nf, {0, 0});
            for (int f = 0; f < nf; ++f)
            {
                w.poly.push_back(facePoly(w.m, w.faces[f]));
                w.poly.back().push_back(w.poly.back().front());
                w.known[f] = convexFace(w.m, w.faces[f]) && faceCentre(w.m, w.faces[f], w.fedges[f], w.centre[f]);
            }
            w.inc.assign(n1, {});
            w.maxLen.assign(n1, -1e300);
            for (int k = 0; k < w.l.numEdges(); ++k)
                for (int s = 0; s < 2; ++s)
                {
                    int n = w.l.en[2 * k + s];
                    w.inc[n].push_back(k);
                    w.maxLen[n] = std::max(w.maxLen[n], w.dist(n, w.l.node(w.l.en[2 * k + 1 - s])));
                }
            for (size_t i = 0; i < ct.i1.size(); ++i)
            {
                if (ct.i1[i] < 0 || ct.i1[i] >= n1 || ct.i2[i] < 0 || ct.i2[i] >= nf)
                    c.fail("contact-range:" + name, "contact %zu connects 1D node %d of %d with face %d of %d", i, ct.i1[i], n1, ct.i2[i], nf);
                if (!mask[ct.i1[i]])
                    c.fail("contact-masked:" + name, "1D node %d is masked out but is connected to face %d", ct.i1[i], ct.i2[i]);
            }
            std::map<int, std::vector<int>> byNode, byFace;
            for (size_t i = 0; i < ct.i1.size(); ++i)
            {
                byNode[ct.i1[i]].push_back(ct.i2[i]);
                byFace[ct.i2[i]].push_back(ct.i1[i]);
            }
            const double tol = 1e-7 * (b.diag() + w.h);
            long long decided = 0, made = 0;
            if (method == 0)
            {
                for (int n = 0; n < n1; ++n)
                {
                    P2 p = w.l.node(n);
                    auto& got = byNode[n];
                    int in = ps.empty() ? 1 : insideSet(ps, p, 1e-6 * w.h);
                    if (!mask[n])
                        continue;
                    if (in < 0)
                        continue;
                    if (in == 0)
                    {
                        decided++;
                        if (!got.empty())
                            c.fail("single-outside-polygon", "1D node %d lies outside the polygons but is connected to face %d", n, got[0]);
                        continue;
                    }
                    int f = w.faceOf(p);
                    if (f == -2)
                        continue;
                    if (f >= 0)
                    {
                        decided++;
                        made++;
                        if (got != std::vector<int>{f})
                            c.fail("single-inside", "1D node %d lies in face %d but has %zu contacts%s", n, f, got.size(), got.empty() ? "" : (", the first to face " + std::to_string(got[0])).c_str());
                        continue;
                    }
                    P2 o1, o2;
                    auto other = [&](int k) { return w.l.node(w.l.en[2 * k] == n ? w.l.en[2 * k + 1] : w.l.en[2 * k]); };
                    if (w.inc[n].size() == 1)
                        o1 = p, o2 = other(w.inc[n][0]);
                    else if (w.inc[n].size() == 2)
                        o1 = other(w.inc[n][0]), o2 = other(w.inc[n][1]);
                    else
                        continue;
                    P2 d = o2 - o1;
                    if (std::hypot(d.x, d.y) < 1e-3 * w.h)
                        continue;
                    std::set<int> must, may;
                    for (int side = -1; side <= 1; side += 2)
                    {
                        P2 q = p + P2{d.y, -d.x} * (side * factor);
                        double best = 1e300, second = 1e300;
                        int face = -1;
                        bool unsure = false;
                        for (int k = 0; k < w.m.numEdges() && !unsure; ++k)
                        {
                            if (!w.m.edgeValid(k) || (w.m.ef[2 * k] < 0) == (w.m.ef[2 * k + 1] < 0))
                                continue;
                            double t, s;
                            int x = crossing(p, q, w.m.node(w.m.en[2 * k]), w.m.node(w.m.en[2 * k + 1]), t, s);
                            if (x < 0)
                                unsure = true;
                            if (x != 1)
                                continue;
                            if (t < best)
                                second = best, best = t, face = std::max(w.m.ef[2 * k], w.m.ef[2 * k + 1]);
                            else
                                second = std::min(second, t);
                        }
                        if (unsure || (face >= 0 && (second - best < 1e-6 || !w.known[face])))
                        {
                            for (int k = 0; k < nf; ++k)
                                may.insert(k);
                            continue;
                        }
                        if (face < 0)
                            continue;
                        int hit = 0; // 1 crossed, -1 unsure
                        for (int k = 0; k < w.l.numEdges() && hit != 1; ++k)
                        {
                            int a = w.l.en[2 * k], z = w.l.en[2 * k + 1];
                            if (a == n || z == n)
                            {
                                P2 v = other(k) - p, u = w.centre[face] - p;
                                if (std::abs(cross(u, v)) < 1e-5 * std::hypot(u.x, u.y) * std::hypot(v.x, v.y) && dot(u, v) > 0)
                                    hit = -1;
                                continue;
                            }
                            double t, s;
                            int x = crossing(p, w.centre[face], w.l.node(a), w.l.node(z), t, s);
                            hit = x == 1 ? 1 : x < 0 ? -1 : hit;
                        }
                        for (size_t i = 0; i < ct.i1.size() && hit != 1; ++i)
                        {
                            if (ct.i1[i] == n)
                                break;
                            int g = ct.i2[i];
                            if (g == face) // they meet in the centre: rounding decides
                            {
                                hit = -1;
                                continue;
                            }
                            double t, s;
                            int x = w.known[g] ? crossing(p, w.centre[face], w.l.node(ct.i1[i]), w.centre[g], t, s) : -1;
                            hit = x == 1 ? 1 : x < 0 ? -1 : hit;
                        }
                        if (hit == 0)
                            must.insert(face);
                        if (hit <= 0)
                            may.insert(face);
                    }
                    for (int k : got)
                        may.count(k) ? 0 : (c.fail("single-projection", "1D node %d outside the mesh is connected to face %d, which is not the first one its perpendicular meets", n, k), 0);
                    for (int k : must)
                        if (std::find(got.begin(), got.end(), k) == got.end())
                            c.fail("single-missed", "1D node %d outside the mesh is not connected to face %d, the first one its perpendicular meets", n, k);
                    decided++;
                    made += (long long)must.size();
                }
            }
            else if (method == 1)
            {
                for (int f = 0; f < nf; ++f)
                {
                    auto& got = byFace[f];
                    if (got.size() > 1)
                        c.fail("multiple-face-twice", "face %d has %zu contacts", f, got.size());
                    if (!w.known[f])
                        continue;
                    int want = -1;
                    bool unsure = false;
                    for (int k = 0; k < w.l.numEdges() && want < 0 && !unsure; ++k)
                    {
                        int a = w.l.en[2 * k], z = w.l.en[2 * k + 1], x = 0;
                        P2 A = w.l.node(a), Z = w.l.node(z);
                        for (int q : w.fedges[f])
                        {
                            double t, s;
                            int y = crossing(A, Z, w.m.node(w.m.en[2 * q]), w.m.node(w.m.en[2 * q + 1]), t, s);
                            if (y == 1)
                                x = 1;
                            else if (y < 0 && x == 0)
                                x = -1;
                        }
                        if (x == 0)
                            continue;
                        double da = w.dist(a, w.centre[f]), dz = w.dist(z, w.centre[f]), rad = std::sqrt(1.1) * w.maxLen[a];
                        if (da > rad * (1 + 1e-6))
                            continue;
                        if (x < 0 || std::abs(da - dz) < tol || da > rad * (1 - 1e-6))
                        {
                            unsure = true;
                            break;
                        }
                        int n = da < dz ? a : z;
                        int in = w.faceOf(w.l.node(n));
                        if (in == -2)
                            unsure = true;
                        else if (mask[n] && in >= 0)
                            want = n;
                    }
                    if (unsure)
                        continue;
                    decided++;
                    made += want >= 0;
                    if (want >= 0 && (got.size() != 1 || got[0] != want))
                        c.fail("multiple-missed", "face %d is crossed by the 1D mesh and should be connected to node %d, but %s", f, want, got.empty() ? "is not connected" : ("is connected to " + std::to_string(got[0])).c_str());
                    if (want < 0 && !got.empty())
                        c.fail("multiple-extra", "face %d should not be connected but is to node %d", f, got[0]);
                }
            }
            else if (method == 2)
            {
                std::vector<double> best(ps.enc.size(), 1e300);
                std::vector<int> owner(nf, -1);
                bool unsure = false;
                for (int f = 0; f < nf; ++f)
                {
                    P2 q{w.m.fx[f], w.m.fy[f]};
                    for (size_t k = 0; k < ps.enc.size() && owner[f] < 0; ++k)
                    {
                        int in = insideRing(ps.enc[k][0], q, 1e-6 * w.h);
                        if (in < 0)
                            unsure = true;
                        if (in == 1)
                            owner[f] = (int)k;
                    }
                    if (owner[f] >= 0)
                        for (int n = 0; n < n1; ++n)
                            if (mask[n])
                                best[owner[f]] = std::min(best[owner[f]], w.dist(n, q));
                }
                if (unsure)
                    continue;
                size_t j = 0;
                for (size_t k = 0; k < ps.enc.size(); ++k)
                {
                    decided++;
                    if (best[k] > 1e299)
                        continue;
                    made++;
                    if (j >= ct.i1.size())
                        c.fail("polygon-missed", "polygon %zu contains faces but has no contact", k);
                    int f = ct.i2[j], n = ct.i1[j];
                    ++j;
                    if (owner[f] != (int)k)
                        c.fail("polygon-face", "the contact of polygon %zu is with face %d outside it", k, f);
                    double d = w.dist(n, {w.m.fx[f], w.m.fy[f]});
                    if (d > best[k] + tol)
                        c.fail("polygon-nearest", "the contact of polygon %zu has length %.12g, the shortest possible one %.12g", k, d, best[k]);
                }
                if (j != ct.i1.size())
                    c.fail("polygon-extra", "%zu contacts for %zu polygons with faces", ct.i1.size(), j);
            }
            else if (method == 3)
            {
                size_t j = 0;
                bool unsure = false, any = std::find(mask.begin(), mask.end(), 1) != mask.end();
                std::vector<std::pair<P2, int>> want;
                for (auto& q : pts.pts())
                {
                    int f = w.faceOf(q);
                    if (f == -2)
                        unsure = true;
                    if (f >= 0 && any)
                        want.push_back({q, f});
                }
                if (unsure)
                    continue;
                if (want.size() != ct.i1.size())
                    c.fail("points-count", "%zu points lie in the mesh, %zu contacts", want.size(), ct.i1.size());
                for (auto& [q, f] : want)
                {
                    decided++;
                    made++;
                    double best = 1e300;
                    for (int n = 0; n < n1; ++n)
                        if (mask[n])
                            best = std::min(best, w.dist(n, q));
                    if (ct.i2[j] != f)
                        c.fail("points-face", "point %.12g %.12g lies in face %d, the contact is with face %d", q.x, q.y, f, ct.i2[j]);
                    if (w.dist(ct.i1[j], q) > best + tol)
                        c.fail("points-nearest", "point %.12g %.12g is connected to a node at %.12g, the nearest one is at %.12g", q.x, q.y, w.dist(ct.i1[j], q), best);
                    ++j;
                }
            }
            else
            {
                for (size_t i = 1; i < ct.i2.size(); ++i)
                    if (ct.i2[i] == ct.i2[i - 1])
                        c.fail("boundary-face-twice", "face %d has two contacts", ct.i2[i]);
                for (int f = 0; f < nf; ++f)
                {
                    auto& got = byFace[f];
                    if (!w.boundaryFace(f))
                    {
                        decided++;
                        if (!got.empty())
                            c.fail("boundary-inner", "face %d is not on the boundary but connected to node %d", f, got[0]);
                        continue;
                    }
                    if (!w.known[f])
                        continue;
                    int in = ps.empty() ? 1 : insideSet(ps, w.centre[f], 1e-6 * w.h);
                    if (in < 0)
                        continue;
                    double best = 1e300;
                    bool unsure = false;
                    for (int n = 0; n < n1; ++n)
                    {
                        if (!mask[n])
                            continue;
                        double d = w.dist(n, w.centre[f]), R = radius == MISSING ? w.maxLen[n] : radius;
                        unsure = unsure || std::abs(d - R) < 1e-6 * R;
                        if (d < R)
                            best = std::min(best, d);
                    }
                    if (unsure)
                        continue;
                    decided++;
                    if (best > 1e299 || !in)
                    {
                        if (!got.empty())
                            c.fail("boundary-extra", "face %d should not be connected but is to node %d", f, got[0]);
                        continue;
                    }
                    made++;
                    if (got.size() != 1)
                        c.fail("boundary-missed", "boundary face %d has a 1D node at %.12g but %zu contacts", f, best, got.size());
                    if (w.dist(got[0], w.centre[f]) > best + tol)
                        c.fail("boundary-nearest", "boundary face %d is connected to a node at %.12g, the nearest one is at %.12g", f, w.dist(got[0], w.centre[f]), best);
                }
            }
            c.evals += decided;
            c.count("decided:" + name, decided);
            c.count("contacts_expected:" + name, made);
            c.observed(Hash().str(name).vec(ct.i1).vec(ct.i2).add(w.m.hash()).h);
        }
    }

    // ------------------------------------------------------------------------------------------------ C17
    void caseC17(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        double h = r.p(0.3) ? 1.0 : r.d(5, 200);
        std::vector<P2> oldN;
        std::vector<std::array<int, 2>> oldE;
        if (r.p(0.3))
        {
            int n = r.i(2, 5);
            for (int i = 0; i < n; ++i)
            {
                oldN.push_back({1e5 + i * h, r.d(0, h)});
                if (i)
                    oldE.push_back({i - 1, i});
            }
            OK(c, "mesh1d_set", setMesh1d(id, oldN, oldE));
            c.op("mesh1d_set n=%d", n);
        }
        std::vector<std::vector<P2>> lines;
        int nl = r.i(1, 5);
        GL g;
        for (int k = 0; k < nl; ++k)
        {
            std::vector<P2> p;
            P2 q{r.d(-10, 10) * h, r.d(-10, 10) * h};
            if (k && r.p(0.5))
                q = r.p(0.5) ? lines[r.i(0, k - 1)].front() : lines[r.i(0, k - 1)].back();
            p.push_back(q);
            int n = r.i(1, 7);
            double a = r.d(0, 6.28318);
            for (int i = 0; i < n; ++i)
            {
                a += r.d(-1, 1);
                double s = h * (r.p(0.3) ? r.d(0.01, 0.2) : r.d(0.3, 3));
                q = q + P2{s * std::cos(a), s * std::sin(a)};
                p.push_back(q);
            }
            if (k && n > 1 && r.p(0.2))
                p.back() = lines[r.i(0, k - 1)].back();
            lines.push_back(p);
            if (k)
                g.add({MISSING, MISSING});
            for (auto& t : p)
            {
                g.add(t);
                if (c.verbose)
                    c.op("   line %d: %.17g %.17g", k, t.x, t.y);
            }
        }
        c.op("network1d_set lines=%d", nl);
        OK(c, "network1d_set", mkernel_network1d_set(id, g()));
        std::vector<double> len(nl);
        std::vector<std::vector<double>> chain(nl);
        for (int k = 0; k < nl; ++k)
        {
            for (size_t i = 1; i < lines[k].size(); ++i)
                len[k] += std::hypot(lines[k][i].x - lines[k][i - 1].x, lines[k][i].y - lines[k][i - 1].y);
            chain[k] = {0.0, len[k]};
        }
        bool fixed = r.p(0.6);
        if (fixed)
        {
            double minSize = h * (r.p(0.3) ? 0.01 : r.d(0.05, 0.6)), off = h * r.d(0.02, 0.5);
            std::vector<double> flat;
            for (int k = 0; k < nl; ++k)
            {
                std::vector<double> f;
                int n = r.i(0, 4);
                if (n && r.p(0.25))
                    f.push_back(0.0);
                for (int i = 0; i < n; ++i)
                    f.push_back(r.d(0, len[k]));
                if (n && r.p(0.2))
                    f.push_back(len[k]);
                std::sort(f.begin(), f.end());
                for (double v : f)
                {
                    flat.push_back(v);
                    if (c.verbose)
                        c.op("   fixed %d: %.17g", k, v);
                }
                flat.push_back(MISSING);
                if (f.empty())
                    continue;
                std::vector<double> inner; // points in order of appearance
                double prev = 0;
                bool prevFixed = std::abs(f.front()) < 1e-12;
                for (double v : f)
                {
                    double before = v - off, after = v + off;
                    if (std::abs(before - prev - minSize) < 1e-9 * h || std::abs(after - prev - minSize) < 1e-9 * h || std::abs(after - len[k]) < 1e-9 * h || std::abs(before) < 1e-9 * h)
                        c.skip();
                    if (before - prev >= minSize && before > 0)
                    {
                        inner.push_back(before);
                        prev = before;
                        prevFixed = true;
                    }
                    else if (prevFixed && !inner.empty())
                    {
                        // one point half way between the two fixed locations
                        inner.back() = 0.5 * (before + prev);
                        prev = inner.back();
                    }
                    if (after - prev >= minSize && after < len[k])
                    {
                        inner.push_back(after);
                        prev = after;
                        prevFixed = true;
                    }
                }
                chain[k].insert(chain[k].end(), inner.begin(), inner.end());
            }
            c.op("network1d_compute_fixed_chainages min=%.17g offset=%.17g", minSize, off);
            std::vector<double> exact(flat); // exactly sized
            OK(c, "network1d_compute_fixed_chainages", mkernel_network1d_compute_fixed_chainages(id, exact.data(), (int)exact.size(), minSize, off));
        }
        int times = r.p(0.8) ? 1 : r.i(0, 2);
        for (int t = 0; t < times; ++t)
        {
            double off = h * r.d(0.1, 2);
            c.op("network1d_compute_offsetted_chainages %.17g", off);
            for (int k = 0; k < nl; ++k)
            {
                std::sort(chain[k].begin(), chain[k].end());
                std::vector<double> add;
                for (size_t i = 1; i < chain[k].size(); ++i)
                {
                    double s = chain[k][i] - chain[k][i - 1], q = s / off;
                    if (std::abs(q - std::round(q)) < 1e-7)
                        c.skip();
                    int n = (int)std::ceil(q);
                    for (int j = 1; j < n; ++j)
                        add.push_back(chain[k][i - 1] + j * s / n);
                }
                chain[k].insert(chain[k].end(), add.begin(), add.end());
            }
            OK(c, "network1d_compute_offsetted_chainages", mkernel_network1d_compute_offsetted_chainages(id, off));
        }
        double merge = h * (r.p(0.6) ? 1e-4 : r.d(0.01, 0.3));
        c.op("network1d_to_mesh1d %.17g", merge);
        OK(c, "network1d_to_mesh1d", mkernel_network1d_to_mesh1d(id, merge));
        // expected points and connections
        std::vector<P2> ep;
        std::vector<std::pair<int, int>> ee;
        for (int k = 0; k < nl; ++k)
        {
            std::sort(chain[k].begin(), chain[k].end());
            for (size_t i = 0; i < chain[k].size(); ++i)
            {
                double s = chain[k][i], acc = 0;
                P2 q = lines[k].back();
                for (size_t j = 1; j < lines[k].size(); ++j)
                {
                    double L = std::hypot(lines[k][j].x - lines[k][j - 1].x, lines[k][j].y - lines[k][j - 1].y);
                    if (s <= acc + L || j + 1 == lines[k].size())
                    {
                        q = lines[k][j - 1] + (lines[k][j] - lines[k][j - 1]) * std::min(1.0, (s - acc) / L);
                        break;
                    }
                    acc += L;
                }
                ep.push_back(q);
                if (i)
                    ee.push_back({(int)ep.size() - 2, (int)ep.size() - 1});
            }
        }
        M1 raw;
        OK(c, "mesh1d_get_data", obsMesh1d(id, raw));
        M1 m = raw.compact();
        if (c.verbose)
            for (int i = 0; i < m.numNodes(); ++i)
                c.op("   got node %d %.17g %.17g", i, m.nx[i], m.ny[i]);
        const double tol = 1e-7 * h;
        const int o = (int)oldN.size(), oe = (int)oldE.size();
        if (m.numNodes() < o || m.numEdges() < oe)
            c.fail("old-mesh-lost", "%d nodes and %d edges, the mesh had %d and %d before the network was added", m.numNodes(), m.numEdges(), o, oe);
        for (int i = 0; i < o; ++i)
            if (m.nx[i] != oldN[i].x || m.ny[i] != oldN[i].y)
                c.fail("old-mesh-moved", "node %d of the mesh that was there has changed", i);
        for (int i = 0; i < oe; ++i)
            if (m.en[2 * i] != oldE[i][0] || m.en[2 * i + 1] != oldE[i][1])
                c.fail("old-mesh-edge", "edge %d of the mesh that was there has changed", i);
        c.evals += m.numNodes();
        // points that coincide are one point; points closer than the merging distance make the result order dependent
        std::vector<int> rep(ep.size());
        bool clear = true;
        for (size_t i = 0; i < ep.size(); ++i)
        {
            rep[i] = (int)i;
            for (size_t j = 0; j < i; ++j)
            {
                double d = std::hypot(ep[i].x - ep[j].x, ep[i].y - ep[j].y);
                if (d < tol)
                {
                    rep[i] = rep[j];
                    break;
                }
                if (d < 1.05 * merge)
                    clear = false;
            }
        }
        std::vector<int> to(m.numNodes(), -1);
        std::map<int, int> seen;
        for (int i = o; i < m.numNodes(); ++i)
        {
            double best = 1e300;
            for (size_t j = 0; j < ep.size(); ++j)
            {
                double d = std::hypot(ep[j].x - m.nx[i], ep[j].y - m.ny[i]);
                if (d < best)
                    best = d, to[i] = rep[j];
            }
            if (best > tol && (clear || best > 3 * merge))
                c.fail("node-misplaced", "node %d at %.12g %.12g is %.6g away from every point of the network that is prescribed", i, m.nx[i], m.ny[i], best);
            seen[to[i]]++;
        }
        if (!clear)
        {
            c.count("merging_order_dependent");
            return;
        }
        for (size_t i = 0; i < ep.size(); ++i)
            if (!seen.count(rep[i]))
                c.fail("node-missing", "there is no node at the prescribed point %.12g %.12g", ep[i].x, ep[i].y);
        for (auto& [k, n] : seen)
            if (n > 1)
                c.fail("node-twice", "%d nodes at %.12g %.12g", n, ep[k].x, ep[k].y);
        std::set<std::pair<int, int>> want, got;
        for (auto& [a, b] : ee)
            if (rep[a] != rep[b])
                want.insert(std::minmax(rep[a], rep[b]));
        for (int i = oe; i < m.numEdges(); ++i)
        {
            int a = m.en[2 * i], b = m.en[2 * i + 1];
            if (a < o || b < o)
                c.fail("edge-to-old", "edge %d connects a node of the network with the mesh that was there", i);
            got.insert(std::minmax(to[a], to[b]));
        }
        for (auto& p : want)
            if (!got.count(p))
                c.fail("edge-missing", "consecutive points %.12g %.12g and %.12g %.12g are not connected", ep[p.first].x, ep[p.first].y, ep[p.second].x, ep[p.second].y);
        for (auto& p : got)
            if (!want.count(p))
                c.fail("edge-extra", "points %.12g %.12g and %.12g %.12g are connected but not consecutive", ep[p.first].x, ep[p.first].y, ep[p.second].x, ep[p.second].y);
        c.count("exact_networks");
        c.count("nodes_compared", m.numNodes());
        c.evals += (long long)want.size();
        c.observed(Hash().vec(m.nx).vec(m.ny).vec(m.en).h);
    }
    Reg r16("C16", caseC16, 24000, 300000);
    Reg r17("C17", caseC17, 220000, 1500000);
} // namespace
