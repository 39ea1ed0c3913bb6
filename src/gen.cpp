#include "gen.hpp"
using namespace mk;

RawMesh genMesh(Rng& r, const GenOpt& o)
{
    RawMesh out;
    int blocks = r.p(o.blocks2Prob) ? 2 : 1;
    double ang = o.randomAffine ? r.d(-0.6, 0.6) : 0.0;
    double sx = o.randomAffine ? r.d(0.6, 1.6) : 1.0, sy = o.randomAffine ? r.d(0.6, 1.6) : 1.0, sh = o.randomAffine ? r.d(-0.3, 0.3) : 0.0;
    for (int b = 0; b < blocks; ++b)
    {
        int nx = r.i(o.minN, o.maxN), ny = r.i(o.minN, o.maxN);
        int base = static_cast<int>(out.nodes.size());
        double offx = b * (o.maxN + 2) * o.h * 1.7;
        for (int j = 0; j <= ny; ++j)
            for (int i = 0; i <= nx; ++i)
            {
                double x = (i + r.d(-o.perturb, o.perturb)) * o.h, y = (j + r.d(-o.perturb, o.perturb)) * o.h;
                double X = sx * x + sh * y, Y = sy * y;
                out.nodes.push_back({o.origin.x + offx + std::cos(ang) * X - std::sin(ang) * Y, o.origin.y + std::sin(ang) * X + std::cos(ang) * Y});
            }
        auto id = [&](int i, int j)
        { return base + j * (nx + 1) + i; };
        size_t facesBefore = out.faces.size();
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
            {
                if (r.p(o.holeProb))
                    continue;
                int a = id(i, j), bb = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
                if (r.p(o.triProb))
                {
                    if (r.p(0.5))
                    {
                        out.faces.push_back({a, bb, c});
                        out.faces.push_back({a, c, d});
                    }
                    else
                    {
                        out.faces.push_back({a, bb, d});
                        out.faces.push_back({bb, c, d});
                    }
                }
                else
                    out.faces.push_back({a, bb, c, d});
            }
        if (out.faces.size() == facesBefore)
            out.faces.push_back({id(0, 0), id(1, 0), id(1, 1), id(0, 1)});
    }
    // drop unused nodes
    std::vector<int> nm(out.nodes.size(), -1), used;
    for (auto& f : out.faces)
        for (int n : f)
            if (nm[n] < 0)
            {
                nm[n] = 1;
            }
    for (size_t i = 0; i < nm.size(); ++i)
        if (nm[i] > 0)
            used.push_back(static_cast<int>(i));
    if (o.shuffle)
        for (size_t i = used.size(); i > 1; --i)
            std::swap(used[i - 1], used[r.next() % i]);
    std::vector<P2> nn;
    for (int u : used)
    {
        nm[u] = static_cast<int>(nn.size());
        nn.push_back(out.nodes[u]);
    }
    out.nodes = nn;
    std::set<std::pair<int, int>> es;
    for (auto& f : out.faces)
    {
        for (auto& n : f)
            n = nm[n];
        for (size_t k = 0; k < f.size(); ++k)
        {
            int a = f[k], b = f[(k + 1) % f.size()];
            if (es.insert({std::min(a, b), std::max(a, b)}).second)
                out.edges.push_back({a, b});
        }
    }
    if (o.shuffle)
    {
        for (size_t i = out.edges.size(); i > 1; --i)
            std::swap(out.edges[i - 1], out.edges[r.next() % i]);
        for (auto& e : out.edges)
            if (r.p(0.5))
                std::swap(e[0], e[1]);
    }
    return out;
}

static void fillM2(const RawMesh& m, std::vector<double>& x, std::vector<double>& y, std::vector<int>& e)
{
    for (auto& p : m.nodes)
    {
        x.push_back(p.x);
        y.push_back(p.y);
    }
    for (auto& q : m.edges)
    {
        e.push_back(q[0]);
        e.push_back(q[1]);
    }
}
int setMesh2d(int id, const RawMesh& m, bool withFaces)
{
    std::vector<double> x, y;
    std::vector<int> e, fn, npf;
    fillM2(m, x, y, e);
    Mesh2D d{};
    d.num_nodes = static_cast<int>(x.size());
    d.num_edges = static_cast<int>(e.size() / 2);
    d.node_x = x.data();
    d.node_y = y.data();
    d.edge_nodes = e.data();
    if (withFaces)
    {
        for (auto& f : m.faces)
        {
            npf.push_back(static_cast<int>(f.size()));
            fn.insert(fn.end(), f.begin(), f.end());
        }
        d.num_faces = static_cast<int>(npf.size());
        d.nodes_per_face = npf.data();
        d.face_nodes = fn.data();
        d.num_face_nodes = static_cast<int>(fn.size());
    }
    return mkernel_mesh2d_set(id, d);
}
int addMesh2d(int id, const RawMesh& m)
{
    std::vector<double> x, y;
    std::vector<int> e;
    fillM2(m, x, y, e);
    Mesh2D d{};
    d.num_nodes = static_cast<int>(x.size());
    d.num_edges = static_cast<int>(e.size() / 2);
    d.node_x = x.data();
    d.node_y = y.data();
    d.edge_nodes = e.data();
    return mkernel_mesh2d_add(id, d);
}
int setMesh1d(int id, const std::vector<P2>& nodes, const std::vector<std::array<int, 2>>& edges)
{
    std::vector<double> x, y;
    std::vector<int> e;
    for (auto& p : nodes)
    {
        x.push_back(p.x);
        y.push_back(p.y);
    }
    for (auto& q : edges)
    {
        e.push_back(q[0]);
        e.push_back(q[1]);
    }
    Mesh1D d{};
    d.num_nodes = static_cast<int>(x.size());
    d.num_edges = static_cast<int>(e.size() / 2);
    d.num_valid_nodes = d.num_nodes;
    d.num_valid_edges = d.num_edges;
    d.node_x = x.data();
    d.node_y = y.data();
    d.edge_nodes = e.data();
    return mkernel_mesh1d_set(id, d);
}
int setCurvi(int id, const CG& g)
{
    CurvilinearGrid d{};
    CG c = g;
    d.num_m = c.m;
    d.num_n = c.n;
    d.node_x = c.x.data();
    d.node_y = c.y.data();
    return mkernel_curvilinear_set(id, d);
}
CG genCurvi(Rng& r, int minN, int maxN, double h, double perturb, P2 o)
{
    CG g;
    g.m = r.i(minN, maxN) + 1;
    g.n = r.i(minN, maxN) + 1;
    double ang = r.d(-0.5, 0.5), sh = r.d(-0.2, 0.2), sx = r.d(0.7, 1.4);
    for (int n = 0; n < g.n; ++n)
        for (int m = 0; m < g.m; ++m)
        {
            double x = (m + r.d(-perturb, perturb)) * h * sx, y = (n + r.d(-perturb, perturb)) * h;
            x += sh * y;
            g.x.push_back(o.x + std::cos(ang) * x - std::sin(ang) * y);
            g.y.push_back(o.y + std::sin(ang) * x + std::cos(ang) * y);
        }
    return g;
}

std::vector<P2> starPolygon(Rng& r, P2 c, double rmin, double rmax, int n)
{
    std::vector<P2> p;
    double a0 = r.d(0, 6.28);
    for (int i = 0; i < n; ++i)
    {
        double a = a0 + 2 * M_PI * (i + r.d(-0.3, 0.3)) / n, q = r.d(rmin, rmax);
        p.push_back({c.x + q * std::cos(a), c.y + q * std::sin(a)});
    }
    p.push_back(p.front());
    return p;
}
std::vector<P2> rectPolygon(double x0, double y0, double x1, double y1)
{
    return {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}, {x0, y0}};
}
void reverseRing(std::vector<P2>& p) { std::reverse(p.begin(), p.end()); }

Box boxOf(const M2& m)
{
    Box b;
    for (int i = 0; i < m.numNodes(); ++i)
        if (m.nodeValid(i))
            b.add(m.node(i));
    return b;
}
Box boxOf(const CG& g)
{
    Box b;
    for (size_t i = 0; i < g.x.size(); ++i)
        if (g.x[i] != MISSING)
            b.add({g.x[i], g.y[i]});
    return b;
}
Box boxOf(const std::vector<P2>& p)
{
    Box b;
    for (auto& q : p)
        b.add(q);
    return b;
}

GL PolySet::list() const
{
    GL g;
    bool first = true;
    for (auto& e : enc)
    {
        if (!first)
            g.add({MISSING, MISSING});
        first = false;
        for (size_t k = 0; k < e.size(); ++k)
        {
            if (k)
                g.add({INNER_SEP, INNER_SEP});
            for (auto& p : e[k])
                g.add(p);
        }
    }
    return g;
}

PolySet genPolySet(Rng& r, const Box& b, bool allowHoles, bool allowMany)
{
    PolySet s;
    double D = std::max(b.w(), b.ht());
    auto one = [&](P2 c, double R, bool hole)
    {
        std::vector<std::vector<P2>> e;
        if (r.p(0.35))
            e.push_back(rectPolygon(c.x - R * r.d(0.5, 1), c.y - R * r.d(0.5, 1), c.x + R * r.d(0.5, 1), c.y + R * r.d(0.5, 1)));
        else
            e.push_back(starPolygon(r, c, 0.5 * R, R, r.i(3, 12)));
        if (hole)
        {
            auto h = starPolygon(r, c, 0.1 * R, 0.25 * R, r.i(3, 8));
            // keep hole strictly inside
            bool in = true;
            for (auto& p : h)
                in = in && insideRing(e[0], p, 1e-6 * R) == 1;
            // segments of hole could still cross a concave outer ring; star shape with rmin 0.5R and >=6 vertices is safe enough, verify by sampling
            for (size_t k = 0; in && k + 1 < h.size(); ++k)
                for (int t = 1; t < 8; ++t)
                    in = in && insideRing(e[0], h[k] + (h[k + 1] - h[k]) * (t / 8.0), 1e-6 * R) == 1;
            if (in)
            {
                if (r.p(0.5))
                    reverseRing(h);
                e.push_back(h);
            }
        }
        if (r.p(0.5))
            reverseRing(e[0]);
        return e;
    };
    int many = allowMany && r.p(0.3) ? r.i(2, 3) : 1;
    if (many == 1)
        s.enc.push_back(one(b.rnd(r, 0.1), D * r.d(0.1, 0.8), allowHoles && r.p(0.35)));
    else
    {
        // disjoint: one slot per vertical strip
        for (int k = 0; k < many; ++k)
        {
            double w = b.w() / many;
            double R = 0.45 * std::min(w, std::max(b.ht(), 1e-9)) * r.d(0.5, 1);
            P2 c{b.x0 + (k + 0.5) * w, r.d(b.y0, b.y1)};
            s.enc.push_back(one(c, R, allowHoles && r.p(0.3)));
        }
    }
    return s;
}

double distPointSeg(P2 p, P2 a, P2 b)
{
    P2 d = b - a;
    double l2 = dot(d, d);
    double t = l2 > 0 ? dot(p - a, d) / l2 : 0;
    t = std::min(1.0, std::max(0.0, t));
    return dist(p, a + d * t);
}

int insideRing(const std::vector<P2>& ring, P2 p, double eps)
{
    size_t n = ring.size();
    bool in = false;
    for (size_t i = 0; i < n; ++i)
    {
        P2 a = ring[i], b = ring[(i + 1) % n];
        if (distPointSeg(p, a, b) < eps)
            return -1;
        if ((a.y > p.y) != (b.y > p.y))
        {
            double x = a.x + (p.y - a.y) * (b.x - a.x) / (b.y - a.y);
            if (x > p.x)
                in = !in;
        }
    }
    return in ? 1 : 0;
}
int insideSet(const PolySet& s, P2 p, double eps)
{
    int res = 0;
    for (auto& e : s.enc)
    {
        int o = insideRing(e[0], p, eps);
        if (o == -1)
            return -1;
        if (o == 1)
        {
            int v = 1;
            for (size_t k = 1; k < e.size(); ++k)
            {
                int h = insideRing(e[k], p, eps);
                if (h == -1)
                    return -1;
                if (h == 1)
                    v = 0;
            }
            if (v)
                res = 1;
        }
        else
            for (size_t k = 1; k < e.size(); ++k)
                if (insideRing(e[k], p, eps) == -1)
                    return -1;
    }
    return res;
}

GL genSamples(Rng& r, const Box& b, int n, double lo, double hi)
{
    GL g;
    for (int i = 0; i < n; ++i)
        g.add(b.rnd(r, 0.05), r.d(lo, hi));
    return g;
}

std::vector<P2> skylinePolygon(Rng& r, const Box& b, double step)
{
    int n = std::max(2, std::min(12, static_cast<int>(std::min(b.w() / step, 100.0))));
    int h = std::max(2, std::min(12, static_cast<int>(std::min(b.ht() / step, 100.0))));
    double x0 = b.x0 + step * r.i(0, 2) - step, y0 = b.y0 + step * r.i(0, 2) - step;
    std::vector<P2> p{{x0, y0}};
    int k = r.i(1, n);
    std::vector<int> top(k);
    for (int i = 0; i < k; ++i)
        top[i] = r.i(1, h);
    p.push_back({x0 + k * step, y0});
    for (int i = k - 1; i >= 0; --i)
    {
        p.push_back({x0 + (i + 1) * step, y0 + top[i] * step});
        p.push_back({x0 + i * step, y0 + top[i] * step});
    }
    // drop repeated points
    std::vector<P2> q;
    for (auto& a : p)
        if (q.empty() || !(q.back() == a))
            q.push_back(a);
    if (r.p(0.3)) // transpose around the lower left corner
        for (auto& a : q)
            a = {x0 + (a.y - y0), y0 + (a.x - x0)};
    q.push_back(q.front());
    if (r.p(0.5))
        reverseRing(q);
    return q;
}
PolySet genLatticePolySet(Rng& r, const Box& b, double step)
{
    PolySet s;
    s.enc.push_back({skylinePolygon(r, b, step)});
    return s;
}
RawMesh latticeMesh(Rng& r, int nx, int ny, double h, P2 o, double triProb, double dropProb)
{
    RawMesh m;
    auto id = [&](int i, int j)
    { return j * (nx + 1) + i; };
    for (int j = 0; j <= ny; ++j)
        for (int i = 0; i <= nx; ++i)
            m.nodes.push_back({o.x + i * h, o.y + j * h});
    std::set<std::pair<int, int>> es;
    auto edge = [&](int a, int b)
    {
        if (es.insert({std::min(a, b), std::max(a, b)}).second)
            m.edges.push_back({a, b});
    };
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i)
        {
            if (r.p(dropProb))
                continue;
            int a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
            edge(a, b);
            edge(b, c);
            edge(c, d);
            edge(d, a);
            if (r.p(triProb))
            {
                if (r.p(0.5))
                    edge(a, c);
                else
                    edge(b, d);
            }
        }
    return m;
}
