// C18 transformations and projections, C19 mesh measures.
#include "pcommon.hpp"
using namespace mk;

namespace
{
    // Transverse Mercator (Krueger series, sixth order in n), WGS84, scale 0.9996
    P2 utm(double lon, double lat, int zone, bool south)
    {
        const double a = 6378137.0, f = 1 / 298.257223563, n = f / (2 - f), D = M_PI / 180;
        const double n2 = n * n, n3 = n2 * n, n4 = n3 * n, n5 = n4 * n, n6 = n5 * n;
        const double A = a / (1 + n) * (1 + n2 / 4 + n4 / 64 + n6 / 256);
        const double al[7] = {0,
                              n / 2 - 2 * n2 / 3 + 5 * n3 / 16 + 41 * n4 / 180 - 127 * n5 / 288 + 7891 * n6 / 37800,
                              13 * n2 / 48 - 3 * n3 / 5 + 557 * n4 / 1440 + 281 * n5 / 630 - 1983433 * n6 / 1935360,
                              61 * n3 / 240 - 103 * n4 / 140 + 15061 * n5 / 26880 + 167603 * n6 / 181440,
                              49561 * n4 / 161280 - 179 * n5 / 168 + 6601661 * n6 / 7257600,
                              34729 * n5 / 80640 - 3418889 * n6 / 1995840,
                              212378941 * n6 / 319334400};
        const double e = std::sqrt(f * (2 - f));
        double phi = lat * D, lam = (lon - (6 * zone - 183)) * D;
        double t = std::sinh(std::atanh(std::sin(phi)) - e * std::atanh(e * std::sin(phi)));
        double xi = std::atan2(t, std::cos(lam)), eta = std::asinh(std::sin(lam) / std::sqrt(t * t + std::cos(lam) * std::cos(lam)));
        double X = xi, Y = eta;
        for (int j = 1; j <= 6; ++j)
        {
            X += al[j] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
            Y += al[j] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
        }
        return {500000 + 0.9996 * A * Y, (south ? 10000000.0 : 0.0) + 0.9996 * A * X};
    }
    void sameTopology(Ctx& c, const M2& a, const M2& b, const char* what)
    {
        if (a.numNodes() != b.numNodes() || a.en != b.en)
            c.fail(std::string(what) + ":topology", "the nodes or edges are not those of before");
        for (int k = 0; k < a.numNodes(); ++k)
            if (a.nodeValid(k) != b.nodeValid(k))
                c.fail(std::string(what) + ":invalid-node", "node %d is %s after the transformation", k, b.nodeValid(k) ? "valid" : "invalid");
        // faces are only determined by the edges where these do not cross or overlap
        if (!planarRegions(a.compact()).usable)
        {
            c.count("not_planar");
            return;
        }
        std::set<std::vector<int>> fa, fb;
        for (auto f : a.faces())
            fa.insert(canon(f));
        for (auto f : b.faces())
            fb.insert(canon(f));
        if (fa != fb)
            c.fail(std::string(what) + ":faces", "%zu faces before, %zu after, or other ones", fa.size(), fb.size());
    }

    // ------------------------------------------------------------------ C18
    void caseC18(Ctx& c)
    {
        Rng& r = c.rng;
        if (r.p(0.55))
        { // rigid transformations
            bool lattice;
            double h;
            Env e = makeMesh(c, 4, lattice, h);
            for (int round = 0; round < 4; ++round)
            {
                M2 m, a;
                OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
                if (m.nValidEdges == 0)
                    return;
                Box b = boxOf(m);
                double scale = std::max({std::abs(b.x0), std::abs(b.x1), std::abs(b.y0), std::abs(b.y1), 1.0});
                bool rot = r.p(0.6);
                P2 o{r.d(-2, 2) * scale, r.d(-2, 2) * scale};
                if (r.p(0.2))
                    o = {0, 0};
                if (r.p(0.2))
                    o = b.c();
                double th = r.p(0.3) ? 90.0 * r.i(-5, 5) : r.d(-720, 720);
                if (r.p(0.15)) // small ones
                    th = std::pow(10.0, r.d(-6, 0)) * (r.p(0.5) ? 1 : -1);
                if (!rot && r.p(0.15))
                    o = o * std::pow(10.0, r.d(-6, 0));
                if (rot)
                {
                    c.op("rotate about %.17g %.17g by %.17g", o.x, o.y, th);
                    OK(c, "mesh2d_rotate", mkernel_mesh2d_rotate(e.id, o.x, o.y, th));
                }
                else
                {
                    c.op("translate %.17g %.17g", o.x, o.y);
                    OK(c, "mesh2d_translate", mkernel_mesh2d_translate(e.id, o.x, o.y));
                }
                OK(c, "mesh2d_get_data", obsMesh2d(e.id, a));
                c.evals++;
                const char* what = rot ? "rotate" : "translate";
                sameTopology(c, m, a, what);
                double cs = std::cos(th * M_PI / 180), sn = std::sin(th * M_PI / 180);
                double tol = 1e-10 * (scale + std::abs(o.x) + std::abs(o.y));
                for (int k = 0; k < m.numNodes(); ++k)
                    if (m.nodeValid(k))
                    {
                        P2 d = m.node(k) - o;
                        P2 w = rot ? P2{o.x + cs * d.x - sn * d.y, o.y + sn * d.x + cs * d.y} : m.node(k) + o;
                        if (dist(w, a.node(k)) > tol)
                            c.fail(std::string(what) + ":coordinates", "node %d at %.12g %.12g, expected %.12g %.12g", k, a.nx[k], a.ny[k], w.x, w.y);
                    }
                c.count(what);
                c.observed(Hash().add(o.x).add(th).add(m.hash()).h);
                randomStep(e, Mesh2, EX);
                if (!e.hasMesh())
                    return;
            }
            return;
        }
        // geographic to projected coordinates and back
        int zone = r.i(1, 60);
        bool south = r.p(0.4);
        mkernel_clear_state();
        int id = allocate(1);
        GenOpt o;
        o.h = r.p(0.5) ? r.d(0.001, 0.01) : r.d(0.02, 0.2);
        o.maxN = 5;
        RawMesh q = genMesh(r, o);
        Box qb = boxOf(q.nodes);
        double lon0 = 6 * zone - 183, lat0 = south ? -r.d(2, 70) : r.d(2, 70);
        P2 shift = P2{lon0 + r.d(-2, 2), lat0} - qb.c();
        for (auto& x : q.nodes)
            x = x + shift;
        OK(c, "mesh2d_set", setMesh2d(id, q));
        Env e(c, id);
        e.projection = 1;
        e.refresh();
        if (r.p(0.5) && e.rndEdge() >= 0)
            OK(c, "delete_edge_by_index", mkernel_mesh2d_delete_edge_by_index(id, e.rndEdge()));
        M2 m, a, b;
        OK(c, "mesh2d_get_data", obsMesh2d(id, m));
        char z[100];
        snprintf(z, sizeof z, "+proj=utm %s+zone=%d%s", r.p(0.5) ? "+lat_1=0.5 +lat_2=2 +n=0.5 " : "", zone, south ? " +south" : "");
        c.op("convert_projection 1 -> 0 '%s' nodes=%d", z, m.numNodes());
        OK(c, "convert_projection", mkernel_mesh2d_convert_projection(id, 0, z));
        int pr = -1;
        OK(c, "get_projection", mkernel_get_projection(id, pr));
        if (pr != 0)
            c.fail("convert:projection", "projection %d reported after conversion to Cartesian", pr);
        OK(c, "mesh2d_get_data", obsMesh2d(id, a));
        c.evals++;
        sameTopology(c, m, a, "convert");
        for (int k = 0; k < m.numNodes(); ++k)
            if (m.nodeValid(k))
            {
                P2 w = utm(m.nx[k], m.ny[k], zone, south);
                if (dist(w, a.node(k)) > 0.02)
                    c.fail("convert:forward", "lon %.9f lat %.9f converted to %.4f %.4f, expected %.4f %.4f (%s)", m.nx[k], m.ny[k], a.nx[k], a.ny[k], w.x, w.y, z);
            }
        c.op("convert_projection 0 -> 1");
        OK(c, "convert_projection", mkernel_mesh2d_convert_projection(id, 1, z));
        OK(c, "get_projection", mkernel_get_projection(id, pr));
        if (pr != 1)
            c.fail("convert:projection", "projection %d reported after conversion to spherical", pr);
        OK(c, "mesh2d_get_data", obsMesh2d(id, b));
        c.evals++;
        sameTopology(c, m, b, "convert-back");
        for (int k = 0; k < m.numNodes(); ++k)
            if (m.nodeValid(k) && dist(m.node(k), b.node(k)) > 1e-6)
                c.fail("convert:round-trip", "lon %.9f lat %.9f came back as %.9f %.9f", m.nx[k], m.ny[k], b.nx[k], b.ny[k]);
        c.count("conversions");
        c.observed(Hash().add(zone).add(m.hash()).h);
    }

    // ------------------------------------------------------------------ C19
    std::vector<std::vector<P2>> rings(const GL& g)
    {
        std::vector<std::vector<P2>> v(1);
        for (size_t k = 0; k < g.size(); ++k)
            if (g.x[k] == MISSING)
                v.emplace_back();
            else
                v.back().push_back({g.x[k], g.y[k]});
        if (v.back().empty())
            v.pop_back();
        return v;
    }
    std::vector<std::array<double, 2>> canonRing(std::vector<P2> p, bool closed)
    {
        std::vector<std::array<double, 2>> q;
        for (auto& x : p)
            q.push_back({x.x, x.y});
        if (closed)
            q.pop_back();
        std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end());
        return q;
    }
    void caseC19(Ctx& c)
    {
        Rng& r = c.rng;
        bool lattice;
        double h;
        Env e = makeMesh(c, 4, lattice, h);
        for (int round = 0; round < 5; ++round)
        {
            int what = r.i(0, 6);
            // ask the measure right after the edit, read the mesh only afterwards
            int ne = -1;
            OK(c, "get_property_dimension", mkernel_mesh2d_get_property_dimension(e.id, 0, ne));
            if (ne < 0)
            {
                e.refresh();
                if (!e.hasMesh())
                    return;
            }
            if (ne < 0)
                c.fail("measure:dimension", "dimension %d", ne);
            GL v(static_cast<size_t>(ne), -7777.0), w;
            double thr = r.p(0.5) ? 0.1 : r.d(0, 1.5), lo = r.p(0.4) ? -1000 : r.d(0, 0.5), hi = lo < 0 ? r.d(0, 1) : lo + r.d(0, 0.6);
            int nf = r.i(3, 6), cnt = -7;
            switch (what)
            {
            case 0:
                c.op("orthogonality");
                if (r.p(0.5))
                    OK(c, "get_orthogonality", mkernel_mesh2d_get_orthogonality(e.id, v()));
                else
                    OK(c, "get_property", mkernel_mesh2d_get_property(e.id, 0, v()));
                break;
            case 1:
                c.op("smoothness");
                OK(c, "get_smoothness", mkernel_mesh2d_get_smoothness(e.id, v()));
                break;
            case 2:
                c.op("edge length");
                OK(c, "get_property", mkernel_mesh2d_get_property(e.id, 1, v()));
                break;
            case 3:
                c.op("obtuse triangles");
                OK(c, "count_obtuse_triangles", mkernel_mesh2d_count_obtuse_triangles(e.id, cnt));
                if (cnt < 0)
                    c.fail("measure:count", "count %d", cnt);
                w = GL(static_cast<size_t>(cnt), -7777.0);
                OK(c, "get_obtuse_triangles", mkernel_mesh2d_get_obtuse_triangles_mass_centers(e.id, w()));
                break;
            case 4:
                c.op("small flow edges %g", thr);
                OK(c, "count_small_flow_edge_centers", mkernel_mesh2d_count_small_flow_edge_centers(e.id, thr, cnt));
                if (cnt < 0)
                    c.fail("measure:count", "count %d", cnt);
                w = GL(static_cast<size_t>(cnt), -7777.0);
                OK(c, "get_small_flow_edge_centers", mkernel_mesh2d_get_small_flow_edge_centers(e.id, thr, w()));
                break;
            case 5:
                c.op("face polygons %d", nf);
                OK(c, "get_face_polygons_dimension", mkernel_mesh2d_get_face_polygons_dimension(e.id, nf, cnt));
                if (cnt < 0)
                    c.fail("measure:count", "count %d", cnt);
                w = GL(static_cast<size_t>(cnt), -7777.0);
                OK(c, "get_face_polygons", mkernel_mesh2d_get_face_polygons(e.id, nf, w()));
                break;
            case 6:
                c.op("filtered face polygons %g %g", lo, hi);
                OK(c, "get_filtered_face_polygons_dimension", mkernel_mesh2d_get_filtered_face_polygons_dimension(e.id, 0, lo, hi, cnt));
                if (cnt < 0)
                    c.fail("measure:count", "count %d", cnt);
                w = GL(static_cast<size_t>(cnt), -7777.0);
                OK(c, "get_filtered_face_polygons", mkernel_mesh2d_get_filtered_face_polygons(e.id, 0, lo, hi, w()));
                OK(c, "get_orthogonality", mkernel_mesh2d_get_orthogonality(e.id, v()));
                break;
            }
            M2 m;
            OK(c, "mesh2d_get_data", obsMesh2d(e.id, m));
            c.evals++;
            traceMesh(c, m);
            if (m.nValidNodes == 0 || boxOf(m).diag() > 1e5 * h)
                return; // thrown away by an earlier operation; no accuracy to judge
            if (m.numEdges() != ne)
                c.fail("measure:size", "%d values for %d edges", ne, m.numEdges());
            auto faces = m.faces();
            auto fes = m.faceEdges();
            std::vector<P2> cen(faces.size());
            std::vector<char> known(faces.size());
            std::vector<double> area(faces.size());
            for (size_t f = 0; f < faces.size(); ++f)
            {
                known[f] = faceCentre(m, faces[f], fes[f], cen[f]);
                area[f] = std::abs(m.faceArea(faces[f]));
            }
            int decided = 0;
            if (what <= 2)
                for (int k = 0; k < ne; ++k)
                {
                    int f1 = m.ef[2 * k], f2 = m.ef[2 * k + 1];
                    bool in = m.edgeValid(k) && f1 >= 0 && f2 >= 0;
                    double want = MISSING, got = v.v[k];
                    static const char* nm[] = {"orthogonality", "smoothness", "edge-length"};
                    if (what == 2)
                    {
                        if (m.edgeValid(k))
                            want = dist(m.node(m.en[2 * k]), m.node(m.en[2 * k + 1]));
                    }
                    else if (in && what == 1)
                    {
                        // (nearly) zero areas are rounding errors of the coordinates
                        if (std::min(area[f1], area[f2]) < 1e-6 * h * h)
                            continue;
                        want = std::max(area[f1], area[f2]) / std::min(area[f1], area[f2]);
                    }
                    else if (in && what == 0)
                    {
                        if (!known[f1] || !known[f2])
                        {
                            if (got != MISSING && !(got >= 0 && got <= 1 + 1e-9))
                                c.fail("measure:orthogonality-range", "edge %d: %g", k, got);
                            continue;
                        }
                        P2 d = cen[f2] - cen[f1], s = m.node(m.en[2 * k + 1]) - m.node(m.en[2 * k]);
                        if (norm(d) < 1e-4 * h || norm(s) < 1e-4 * h)
                            continue;
                        want = std::abs(dot(d, s)) / (norm(d) * norm(s));
                    }
                    decided++;
                    double tol = what == 0 ? 1e-6 : (what == 1 ? 1e-6 : 1e-9) * (1 + std::abs(want));
                    if (!(std::abs(got - want) <= tol))
                        c.fail(std::string("measure:") + nm[what], "edge %d: %.12g reported, %.12g expected", k, got, want);
                    c.count(std::string("edges_") + nm[what]);
                }
            else if (what == 3 || what == 4)
            {
                // points that must and points that may be reported
                std::vector<P2> must, may;
                std::map<int, int> small; // edge -> 1 small, 0 not, -1 undecided
                int unknown = 0;
                if (what == 3)
                {
                    for (auto& f : faces)
                        if (f.size() == 3)
                        {
                            double a = dist(m.node(f[0]), m.node(f[1])), b = dist(m.node(f[1]), m.node(f[2])), d = dist(m.node(f[2]), m.node(f[0]));
                            double mx = std::max({a, b, d}), rest = a * a + b * b + d * d - mx * mx;
                            P2 q = (m.node(f[0]) + m.node(f[1]) + m.node(f[2])) * (1.0 / 3);
                            if (std::abs(m.faceArea(f)) < 1e-6 * mx * mx)
                            { // the mass centre is not well determined
                                unknown++;
                                continue;
                            }
                            if (mx * mx > rest * (1 - 1e-9))
                                may.push_back(q);
                            if (mx * mx > rest * (1 + 1e-9))
                                must.push_back(q);
                        }
                }
                else
                    for (int k = 0; k < ne; ++k)
                    {
                        int f1 = m.ef[2 * k], f2 = m.ef[2 * k + 1];
                        if (f1 < 0 || f2 < 0)
                            continue;
                        if (!known[f1] || !known[f2])
                        {
                            unknown++;
                            small[k] = -1;
                            continue;
                        }
                        double d = dist(cen[f1], cen[f2]), t = thr * 0.5 * (std::sqrt(area[f1]) + std::sqrt(area[f2]));
                        if (d < t * (1 + 1e-6) + 1e-9 * h)
                            may.push_back((cen[f1] + cen[f2]) * 0.5);
                        if (d < t * (1 - 1e-6) - 1e-9 * h)
                            must.push_back((cen[f1] + cen[f2]) * 0.5);
                        small[k] = d < t * (1 - 1e-6) - 1e-9 * h ? 1 : d < t * (1 + 1e-6) + 1e-9 * h ? -1 : 0;
                    }
                auto has = [&](const std::vector<P2>& s, P2 q)
                {
                    for (auto& x : s)
                        if (dist(x, q) < 1e-6 * h)
                            return true;
                    return false;
                };
                auto got = w.pts();
                const char* nm = what == 3 ? "obtuse" : "small-flow-edge";
                for (auto& q : must)
                    if (!has(got, q))
                        c.fail(std::string("measure:missing:") + nm, "%g %g is not reported", q.x, q.y);
                if (got.size() < must.size() || (unknown == 0 && got.size() > may.size()))
                    c.fail(std::string("measure:number:") + nm, "%zu reported, %zu to %zu expected", got.size(), must.size(), may.size());
                if (unknown == 0)
                    for (auto& q : got)
                        if (!has(may, q))
                            c.fail(std::string("measure:extra:") + nm, "%g %g is reported", q.x, q.y);
                decided = static_cast<int>(must.size());
                c.count(std::string("points_") + nm, decided);
                bool sound = what == 4;
                for (size_t f = 0; sound && f < faces.size(); ++f) // triangles without area are removed as well
                    sound = faces[f].size() != 3 || area[f] > 1e-6 * h * h;
                if (sound && r.p(0.6))
                {
                    c.op("delete small flow edges %g", thr);
                    OK(c, "delete_small_flow_edges", mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(e.id, thr, 0.0));
                    M2 q;
                    OK(c, "mesh2d_get_data", obsMesh2d(e.id, q));
                    if (q.numNodes() != m.numNodes() || q.numEdges() != m.numEdges())
                        c.fail("small-flow-edges:numbering", "%d nodes and %d edges, before %d and %d", q.numNodes(), q.numEdges(), m.numNodes(), m.numEdges());
                    std::vector<char> used(m.numNodes(), 0);
                    for (int k = 0; k < ne; ++k)
                    {
                        c.evals++;
                        bool was = m.edgeValid(k), is = q.edgeValid(k);
                        int s = small.count(k) ? small[k] : 0;
                        if (is && (!was || q.en[2 * k] != m.en[2 * k] || q.en[2 * k + 1] != m.en[2 * k + 1]))
                            c.fail("small-flow-edges:edge", "edge %d is not what it was", k);
                        if (was && s == 0 && !is)
                            c.fail("small-flow-edges:removed", "edge %d has no small flow edge and is gone", k);
                        if (was && s == 1 && is)
                            c.fail("small-flow-edges:left", "edge %d has a small flow edge and is still there", k);
                        if (is)
                            used[q.en[2 * k]] = used[q.en[2 * k + 1]] = 1;
                    }
                    for (int n = 0; n < m.numNodes(); ++n)
                        if (used[n] ? !q.nodeValid(n) || q.nx[n] != m.nx[n] || q.ny[n] != m.ny[n] : q.nodeValid(n))
                            c.fail("small-flow-edges:node", "node %d is %s", n, used[n] ? "not where it was" : "left without edge");
                    c.count("deleted_small_flow_edges", decided);
                }
            }
            else
            {
                std::multiset<std::vector<std::array<double, 2>>> want, got;
                for (size_t f = 0; f < faces.size(); ++f)
                {
                    bool in = static_cast<int>(faces[f].size()) == nf;
                    if (what == 6)
                    {
                        in = true;
                        for (int k : fes[f])
                            in = in && v.v[k] >= lo && v.v[k] <= hi;
                    }
                    if (in)
                        want.insert(canonRing(facePoly(m, faces[f]), false));
                }
                for (auto& p : rings(w))
                {
                    if (p.size() < 4 || !(p.front() == p.back()))
                        c.fail("measure:polygon-open", "a face polygon is not closed");
                    got.insert(canonRing(p, true));
                }
                if (want != got && c.verbose)
                {
                    for (auto* p : {&want, &got})
                        for (auto& q : *p)
                            if (!(p == &want ? got : want).count(q))
                            {
                                std::string t;
                                for (auto& x : q)
                                    t += " " + std::to_string(x[0]) + "," + std::to_string(x[1]);
                                c.op("  only %s:%s", p == &want ? "expected" : "delivered", t.c_str());
                            }
                }
                if (want != got)
                    c.fail(what == 5 ? "measure:face-polygons" : "measure:filtered-polygons", "%zu polygons delivered, %zu faces expected, or other ones", got.size(), want.size());
                decided = static_cast<int>(want.size());
                c.count(what == 5 ? "face_polygons" : "filtered_polygons", decided);
            }
            if (decided)
                c.observed(Hash().add(what).add(m.hash()).h);
            // several edits without reading the mesh in between
            e.refresh();
            for (int k = r.i(1, 2); k > 0; --k)
            {
                e.lazy = k == 1 && r.p(0.7); // the measure is asked for right after the last edit
                randomStep(e, Mesh2, EX);
            }
            e.lazy = false;
            if (!e.hasMesh())
                return;
        }
    }
    Reg r18("C18", caseC18, 19800, 200000);
    Reg r19("C19", caseC19, 11000, 150000);
} // namespace
