#include "topo.hpp"
#include "gen.hpp"

std::vector<int> canon(std::vector<int> f)
{
    if (!f.empty())
        std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end());
    return f;
}
std::vector<P2> facePoly(const M2& m, const std::vector<int>& f)
{
    std::vector<P2> r;
    for (int n : f)
        r.push_back(m.node(n));
    return r;
}
P2 centroid(const std::vector<P2>& p, double* area)
{
    P2 o = p[0];
    double a = 0;
    P2 s{0, 0};
    for (size_t i = 0; i < p.size(); ++i)
    {
        P2 u = p[i] - o, v = p[(i + 1) % p.size()] - o;
        double w = cross(u, v);
        a += w;
        s = s + (u + v) * w;
    }
    if (area)
        *area = 0.5 * a;
    return a != 0 ? o + s * (1.0 / (3 * a)) : o;
}
double distSegSeg(P2 a, P2 b, P2 c, P2 d)
{
    P2 r = b - a, s = d - c;
    double rs = cross(r, s);
    if (rs != 0)
    {
        double t = cross(c - a, s) / rs, u = cross(c - a, r) / rs;
        if (t >= 0 && t <= 1 && u >= 0 && u <= 1)
            return 0;
    }
    return std::min(std::min(distPointSeg(a, c, d), distPointSeg(b, c, d)), std::min(distPointSeg(c, a, b), distPointSeg(d, a, b)));
}
bool segCross(P2 a, P2 b, P2 c, P2 d, double eps) { return distSegSeg(a, b, c, d) < eps; }

void checkTables(Ctx& c, const M2& m, const std::string& after, bool cart, bool planar)
{
    auto F = [&](const char* k)
    { return std::string("topology:") + k + ":" + after; };
    int nn = m.numNodes(), ne = m.numEdges(), nf = m.numFaces();
    c.evals++;
    int vn = 0, ve = 0;
    std::vector<int> deg(nn, 0);
    std::map<std::pair<int, int>, int> seen;
    for (int e = 0; e < ne; ++e)
    {
        int a = m.en[2 * e], b = m.en[2 * e + 1];
        bool va = m.nodeValid(a), vb = m.nodeValid(b);
        if (!va || !vb)
        {
            if (a == -1 && b == -1)
                continue; // deleted edge
            c.fail(F("dangling-edge"), "edge %d has nodes (%d,%d) of which not all exist (%d nodes)", e, a, b, nn);
        }
        ve++;
        if (a == b)
            c.fail(F("self-edge"), "edge %d connects node %d with itself", e, a);
        deg[a]++;
        deg[b]++;
        auto [it, fresh] = seen.insert({{std::min(a, b), std::max(a, b)}, e});
        if (!fresh)
            c.fail(F("duplicate-edge"), "edges %d and %d both connect nodes %d and %d", it->second, e, a, b);
        if (cart)
        {
            P2 mid = (m.node(a) + m.node(b)) * 0.5;
            double h = dist(m.node(a), m.node(b));
            if (!(dist(mid, {m.ex[e], m.ey[e]}) <= 1e-9 * (h + std::abs(mid.x) + std::abs(mid.y))))
                c.fail(F("edge-centre"), "edge %d centre (%g,%g) is not the middle (%g,%g) of its nodes", e, m.ex[e], m.ey[e], mid.x, mid.y);
        }
    }
    for (int n = 0; n < nn; ++n)
        if (m.nodeValid(n))
        {
            vn++;
            if (deg[n] == 0)
                c.fail(F("isolated-node"), "node %d is valid but no edge is connected to it", n);
            if (!std::isfinite(m.nx[n]) || !std::isfinite(m.ny[n]))
                c.fail(F("not-finite"), "node %d is at (%g,%g)", n, m.nx[n], m.ny[n]);
        }
    if (vn != m.nValidNodes || ve != m.nValidEdges)
        c.fail(F("valid-count"), "reported valid nodes/edges %d/%d, exported %d/%d", m.nValidNodes, m.nValidEdges, vn, ve);
    std::vector<std::vector<int>> ef(ne);
    auto faces = m.faces();
    auto fe = m.faceEdges();
    size_t total = 0;
    std::set<std::vector<int>> nodeSets;
    for (int f = 0; f < nf; ++f)
    {
        auto& fn = faces[f];
        int k = static_cast<int>(fn.size());
        total += k;
        if (k < 3 || k > 6)
            c.fail(F("face-size"), "face %d has %d nodes", f, k);
        auto s = fn;
        std::sort(s.begin(), s.end());
        if (std::adjacent_find(s.begin(), s.end()) != s.end())
            c.fail(F("face-repeats-node"), "face %d visits a node twice", f);
        if (!nodeSets.insert(canon(fn)).second)
            c.fail(F("duplicate-face"), "face %d occurs twice", f);
        for (int i = 0; i < k; ++i)
        {
            int a = fn[i], b = fn[(i + 1) % k], e = fe[f][i];
            if (!m.nodeValid(a))
                c.fail(F("face-node"), "face %d uses node %d that does not exist", f, a);
            if (e < 0 || e >= ne || !((m.en[2 * e] == a && m.en[2 * e + 1] == b) || (m.en[2 * e] == b && m.en[2 * e + 1] == a)))
                c.fail(F("face-edge"), "face %d edge %d is %d (%d,%d) which does not connect nodes %d,%d", f, i, e, e >= 0 && e < ne ? m.en[2 * e] : -9, e >= 0 && e < ne ? m.en[2 * e + 1] : -9, a, b);
            ef[e].push_back(f);
        }
        if (cart)
        {
            auto poly = facePoly(m, fn);
            double area;
            P2 cen = centroid(poly, &area);
            Box b = boxOf(poly);
            double L2 = b.diag() * b.diag();
            if (area < -1e-7 * L2)
                c.fail(F("clockwise-face"), "face %d is clockwise (area %g)", f, area);
            if (area > 1e-3 * L2 && !(dist(cen, {m.fx[f], m.fy[f]}) <= 1e-6 * b.diag() + 1e-9 * (std::abs(cen.x) + std::abs(cen.y))))
                c.fail(F("face-centre"), "face %d centre (%.12g,%.12g) is not its centre of mass (%.12g,%.12g)", f, m.fx[f], m.fy[f], cen.x, cen.y);
        }
    }
    if (total != m.fn.size())
        c.fail(F("face-node-count"), "sum of nodes per face %zu, exported %zu", total, m.fn.size());
    for (int e = 0; e < ne; ++e)
    {
        std::vector<int> got;
        for (int k = 0; k < 2; ++k)
            if (m.ef[2 * e + k] != -1)
                got.push_back(m.ef[2 * e + k]);
        std::sort(got.begin(), got.end());
        auto want = ef[e];
        std::sort(want.begin(), want.end());
        if (got != want)
            c.fail(F("edge-faces"), "edge %d lists faces (%d,%d) but %zu faces have it as a side (first %d)", e, m.ef[2 * e], m.ef[2 * e + 1], want.size(), want.empty() ? -1 : want[0]);
        if (want.size() == 2)
        { // both faces must lie on different sides: opposite traversal
            int dir = 0;
            for (int f : want)
                for (size_t i = 0; i < faces[f].size(); ++i)
                    if (fe[f][i] == e)
                        dir += faces[f][i] == m.en[2 * e] ? 1 : -1;
            if (planar && dir != 0)
                c.fail(F("same-side-faces"), "faces %d and %d traverse edge %d in the same direction", want[0], want[1], e);
        }
    }
    c.count("topology_faces", nf);
    c.count("topology_edges", ne);
}

Planar planarRegions(const M2& m)
{
    Planar r;
    int ne = m.numEdges(), nn = m.numNodes();
    if (ne == 0 || ne > 900)
        return r;
    std::vector<std::vector<int>> adj(nn);
    double hmin = 1e300, hs = 0;
    for (int e = 0; e < ne; ++e)
    {
        int a = m.en[2 * e], b = m.en[2 * e + 1];
        double l = dist(m.node(a), m.node(b));
        hmin = std::min(hmin, l);
        hs += l;
        adj[a].push_back(b);
        adj[b].push_back(a);
    }
    double eps = 1e-4 * hs / ne;
    if (hmin < 5 * eps)
        return r;
    for (auto& a : adj)
        if (a.size() >= 16)
            return r;
    // crossing edges
    struct Seg
    {
        P2 a, b;
        int i, j;
        double x0, x1, y0, y1;
    };
    std::vector<Seg> s;
    for (int e = 0; e < ne; ++e)
    {
        int a = m.en[2 * e], b = m.en[2 * e + 1];
        P2 p = m.node(a), q = m.node(b);
        s.push_back({p, q, a, b, std::min(p.x, q.x), std::max(p.x, q.x), std::min(p.y, q.y), std::max(p.y, q.y)});
    }
    std::sort(s.begin(), s.end(), [](auto& a, auto& b)
              { return a.x0 < b.x0; });
    for (int i = 0; i < ne; ++i)
        for (int j = i + 1; j < ne && s[j].x0 <= s[i].x1 + eps; ++j)
        {
            if (s[j].y0 > s[i].y1 + eps || s[j].y1 < s[i].y0 - eps)
                continue;
            int shared = (s[i].i == s[j].i || s[i].i == s[j].j) + (s[i].j == s[j].i || s[i].j == s[j].j);
            if (shared == 2)
                return r;
            if (shared == 0)
            {
                if (distSegSeg(s[i].a, s[i].b, s[j].a, s[j].b) < eps)
                    return r;
            }
            else
            {
                int n = (s[i].i == s[j].i || s[i].i == s[j].j) ? s[i].i : s[i].j;
                P2 o = m.node(n), p = (s[i].i == n ? s[i].b : s[i].a) - o, q = (s[j].i == n ? s[j].b : s[j].a) - o;
                if (std::abs(cross(p, q)) < 1e-3 * norm(p) * norm(q) && dot(p, q) > 0)
                    return r; // nearly the same direction: order around the node is a matter of rounding
            }
        }
    for (int n = 0; n < nn; ++n)
        std::sort(adj[n].begin(), adj[n].end(), [&](int a, int b)
                  { P2 p = m.node(a) - m.node(n), q = m.node(b) - m.node(n); return std::atan2(p.y, p.x) < std::atan2(q.y, q.x); });
    std::map<std::pair<int, int>, int> reg; // half edge -> region
    std::vector<std::vector<int>> cycles;
    for (int n = 0; n < nn; ++n)
        for (int k : adj[n])
        {
            if (reg.count({n, k}))
                continue;
            int a = n, b = k;
            std::vector<int> cyc;
            do
            {
                reg[{a, b}] = static_cast<int>(cycles.size());
                cyc.push_back(a);
                auto it = std::find(adj[b].begin(), adj[b].end(), a);
                // region on the left of a->b: next half edge is the clockwise neighbour of b->a
                size_t p = it - adj[b].begin();
                int nx = adj[b][(p + adj[b].size() - 1) % adj[b].size()];
                a = b;
                b = nx;
            } while (!(a == n && b == k));
            cycles.push_back(cyc);
        }
    for (size_t q = 0; q < cycles.size(); ++q)
    {
        auto& cyc = cycles[q];
        if (cyc.size() < 3 || cyc.size() > 6)
            continue;
        auto t = cyc;
        std::sort(t.begin(), t.end());
        if (std::adjacent_find(t.begin(), t.end()) != t.end())
            continue;
        auto poly = facePoly(m, cyc);
        double area;
        centroid(poly, &area);
        Box bx = boxOf(poly);
        if (std::abs(area) < 1e-6 * bx.diag() * bx.diag())
            return r;
        if (area < 0)
            continue;
        std::map<int, int> nb;
        bool sh = false;
        for (size_t i = 0; i < cyc.size(); ++i)
            if (++nb[reg[{cyc[(i + 1) % cyc.size()], cyc[i]}]] > 1)
                sh = true;
        r.regions.push_back(canon(cyc));
        r.shares.push_back(sh);
    }
    r.usable = true;
    return r;
}

bool segProper(P2 a, P2 b, P2 c, P2 d)
{
    double o1 = cross(b - a, c - a), o2 = cross(b - a, d - a), o3 = cross(d - c, a - c), o4 = cross(d - c, b - c);
    return ((o1 > 0) != (o2 > 0)) && ((o3 > 0) != (o4 > 0));
}

bool convexFace(const M2& m, const std::vector<int>& f)
{
    auto p = facePoly(m, f);
    const int n = static_cast<int>(p.size());
    double L = 0, area = 0;
    for (int k = 0; k < n; ++k)
    {
        if (cross(p[(k + 1) % n] - p[k], p[(k + 2) % n] - p[(k + 1) % n]) < 0)
            return false;
        L = std::max(L, dist(p[k], p[(k + 1) % n]));
        area += cross(p[k] - p[0], p[(k + 1) % n] - p[0]) / 2;
    }
    return area > 1e-2 * L * L;
}

bool faceCentre(const M2& m, const std::vector<int>& f, const std::vector<int>& fe, P2& res)
{
    bool isolated = true;
    for (int e : fe)
        isolated = isolated && (m.ef[2 * e] < 0 || m.ef[2 * e + 1] < 0);
    if (isolated) // the library uses the mass centre
        return false;
    auto p = facePoly(m, f);
    const int n = static_cast<int>(p.size());
    P2 mean{0, 0};
    for (auto& q : p)
        mean = mean + q;
    mean = mean * (1.0 / n);
    res = mean;
    if (n == 4)
    { // rectangle: the diagonals are equal and bisect each other
        double d1 = dist(p[0], p[2]), d2 = dist(p[1], p[3]);
        return std::min(dist(p[0], p[1]), dist(p[1], p[2])) > 1e-3 * d1 && std::abs(d1 - d2) < 1e-9 * d1 && norm((p[0] + p[2]) * 0.5 - (p[1] + p[3]) * 0.5) < 1e-9 * d1;
    }
    if (n != 3)
        return false;
    P2 b = p[1] - p[0], d = p[2] - p[0];
    double D = 2 * cross(b, d);
    double L = std::max({norm(b), norm(d), norm(d - b)});
    if (std::abs(D) < 1e-3 * L * L)
        return false;
    res = p[0] + P2{(d.y * dot(b, b) - b.y * dot(d, d)) / D, (b.x * dot(d, d) - d.x * dot(b, b)) / D};
    // kept inside the face: moved towards the mean
    double best = 1;
    for (int k = 0; k < 3; ++k)
    {
        P2 a = p[k], q = p[(k + 1) % 3], v = res - mean, u = q - a;
        double den = cross(v, u);
        if (std::abs(den) < 1e-12 * L * L)
            continue;
        double t = cross(a - mean, u) / den, w = cross(a - mean, v) / den;
        if (t >= 0 && t < best && w >= -1e-12 && w <= 1 + 1e-12)
            best = t;
    }
    res = mean + (res - mean) * best;
    return true;
}
