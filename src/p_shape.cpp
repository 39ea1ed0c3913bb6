// C24: shaping operations (smoothing, attraction, line shift, snapping, orthogonalization): which nodes move, and where to.
#include "pcommon.hpp"

using meshkernel::OrthogonalizationParameters;
namespace
{
    struct G
    {
        int n, m;
        std::vector<P2> p;
        P2& at(int i, int j) { return p[size_t(i) * m + j]; }
        P2 at(int i, int j) const { return p[size_t(i) * m + j]; }
    };
    G of(const CG& g)
    {
        G r{g.n, g.m, {}};
        for (int i = 0; i < g.n; ++i)
            for (int j = 0; j < g.m; ++j)
                r.p.push_back(g.at(i, j));
        return r;
    }
    CG to(const G& g)
    {
        CG r;
        r.n = g.n;
        r.m = g.m;
        for (auto& q : g.p)
            r.x.push_back(q.x), r.y.push_back(q.y);
        return r;
    }
    uint64_t hashG(const G& g)
    {
        Hash h;
        for (auto& q : g.p)
            h.raw(&q.x, 8), h.raw(&q.y, 8);
        return h.h;
    }
    struct Block
    {
        int n0, m0, n1, m1;
        bool in(int i, int j) const { return i >= n0 && i <= n1 && j >= m0 && j <= m1; }
    };
    struct Line
    {
        bool alongN; // m constant
        int c, a, b;
        int n(int k) const { return alongN ? k : c; }
        int m(int k) const { return alongN ? c : k; }
        bool on(int i, int j) const { return alongN ? j == c && i >= a && i <= b : i == c && j >= a && j <= b; }
    };
    Block rndBlock(Rng& r, const G& g, int minSpan)
    {
        Block b{};
        do
        {
            b.n0 = r.i(0, g.n - 1), b.n1 = r.i(0, g.n - 1), b.m0 = r.i(0, g.m - 1), b.m1 = r.i(0, g.m - 1);
            if (b.n0 > b.n1)
                std::swap(b.n0, b.n1);
            if (b.m0 > b.m1)
                std::swap(b.m0, b.m1);
        } while (b.n1 - b.n0 < minSpan || b.m1 - b.m0 < minSpan);
        return b;
    }
    Line rndLine(Rng& r, const G& g)
    {
        Line l{};
        l.alongN = r.p(0.5);
        int len = l.alongN ? g.n : g.m, oth = l.alongN ? g.m : g.n;
        l.c = r.i(0, oth - 1);
        do
        {
            l.a = r.i(0, len - 1), l.b = r.i(0, len - 1);
        } while (l.a == l.b);
        if (l.a > l.b)
            std::swap(l.a, l.b);
        return l;
    }
    // the corners of a block may be given in any order
    void corners(Rng& r, const G& g, const Block& b, P2& p, P2& q)
    {
        int k = r.i(0, 3);
        int i = k & 1 ? b.n1 : b.n0, j = k & 2 ? b.m1 : b.m0;
        p = g.at(i, j);
        q = g.at(b.n0 + b.n1 - i, b.m0 + b.m1 - j);
    }
    void ends(Rng& r, const G& g, const Line& l, P2& p, P2& q)
    {
        p = g.at(l.n(l.a), l.m(l.a));
        q = g.at(l.n(l.b), l.m(l.b));
        if (r.p(0.5))
            std::swap(p, q);
    }
    struct World
    {
        int id;
        G g;
        double h;
        bool holed = false;
    };
    bool ok(P2 q) { return q.x != MISSING && q.y != MISSING; }
    // the node and the eight around it exist
    bool whole(const G& g, int i, int j)
    {
        for (int a = std::max(0, i - 1); a <= std::min(g.n - 1, i + 1); ++a)
            for (int b = std::max(0, j - 1); b <= std::min(g.m - 1, j + 1); ++b)
                if (!ok(g.at(a, b)))
                    return false;
        return true;
    }
    World make(Ctx& c, int minN = 1, int maxN = 9, double pert = 0.25)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        World w;
        w.id = allocate(0);
        w.h = r.p(0.7) ? 10 : r.p(0.5) ? 0.1 : 1000;
        P2 o{w.h * r.d(-20, 20), w.h * r.d(-20, 20)};
        w.g = of(genCurvi(r, minN, maxN, w.h, r.p(0.2) ? 0 : pert, o));
        if (r.p(0.5)) // the other orientation
        {
            G t{w.g.m, w.g.n, std::vector<P2>(w.g.p.size())};
            for (int i = 0; i < t.n; ++i)
                for (int j = 0; j < t.m; ++j)
                    t.at(i, j) = w.g.at(j, i);
            w.g = t;
        }
        CG cg = to(w.g);
        c.op("grid %d x %d, spacing %g", w.g.n, w.g.m, w.h);
        OK(c, "curvilinear_set", setCurvi(w.id, cg));
        return w;
    }
    G read(Ctx& c, const World& w, const char* what)
    {
        CG cg;
        if (obsCurvi(w.id, cg))
            c.fail(std::string(what) + ":read", "grid cannot be read: %s", lastError().c_str());
        if (cg.n != w.g.n || cg.m != w.g.m)
            c.fail(std::string(what) + ":size", "grid is %d x %d, was %d x %d", cg.n, cg.m, w.g.n, w.g.m);
        return of(cg);
    }
    bool cellAt(const G& g, int i, int j)
    {
        return i >= 0 && j >= 0 && i + 1 < g.n && j + 1 < g.m && ok(g.at(i, j)) && ok(g.at(i + 1, j)) && ok(g.at(i, j + 1)) && ok(g.at(i + 1, j + 1));
    }
    enum Role
    {
        Unknown,
        Stays,  // a corner
        Inside,
        AlongM, // on a boundary along the m direction
        AlongN
    };
    // what an existing node is, from the cells around it
    Role roleOf(const G& g, int i, int j)
    {
        const bool ei = i == 0 || i == g.n - 1, ej = j == 0 || j == g.m - 1;
        if (ei && ej)
            return Stays;
        if (ei)
            return !ok(g.at(i, j - 1)) || !ok(g.at(i, j + 1)) ? Stays : whole(g, i, j) ? AlongM : Unknown;
        if (ej)
            return !ok(g.at(i - 1, j)) || !ok(g.at(i + 1, j)) ? Stays : whole(g, i, j) ? AlongN : Unknown;
        const bool a = cellAt(g, i - 1, j - 1), b = cellAt(g, i - 1, j), c = cellAt(g, i, j - 1), d = cellAt(g, i, j);
        switch (a + b + c + d)
        {
        case 4:
            return Inside;
        case 1:
        case 3:
            return Stays;
        case 2:
            return a == b ? AlongM : a == c ? AlongN : Unknown;
        }
        return Unknown;
    }
    // take some nodes out of the grid
    void punch(Ctx& c, World& w)
    {
        Rng& r = c.rng;
        if (w.g.n < 3 || w.g.m < 3 || !r.p(0.25))
            return;
        w.holed = true;
        int k = r.i(1, 4);
        for (int s = 0; s < k; ++s)
        {
            int i = r.i(0, w.g.n - 1), j = r.i(0, w.g.m - 1);
            w.g.at(i, j) = {MISSING, MISSING};
            c.op("  without node %d %d", i, j);
        }
        // nodes that belong to no cell are no part of a grid
        G& g = w.g;
        auto cell = [&](int i, int j)
        { return i >= 0 && j >= 0 && i + 1 < g.n && j + 1 < g.m && ok(g.at(i, j)) && ok(g.at(i + 1, j)) && ok(g.at(i, j + 1)) && ok(g.at(i + 1, j + 1)); };
        int left = 0;
        for (int i = 0; i < g.n; ++i)
            for (int j = 0; j < g.m; ++j)
                if (cell(i, j) || cell(i - 1, j) || cell(i, j - 1) || cell(i - 1, j - 1))
                    left++;
                else
                    g.at(i, j) = {MISSING, MISSING};
        if (!left)
            c.skip();
        CG cg = to(w.g);
        OK(c, "curvilinear_set", setCurvi(w.id, cg));
        w.g = read(c, w, "holes");
    }
    void needValid(Ctx& c, std::initializer_list<P2> pts)
    {
        for (auto& q : pts)
            if (!ok(q))
                c.skip();
    }
    void same(Ctx& c, const char* what, const char* kind, int i, int j, P2 got, P2 want, double tol)
    {
        c.evals++;
        if (!(std::abs(got.x - want.x) <= tol && std::abs(got.y - want.y) <= tol))
            c.fail(std::string(what) + ":" + kind, "node (%d,%d) is at %.15g %.15g, expected %.15g %.15g", i, j, got.x, got.y, want.x, want.y);
    }
    double tolOf(const World& w) { return 1e-9 * (w.h * 100); }

    // ------------------------------------------------------------------ smoothing
    // projection of q on the line a-b; t is the relative position
    P2 proj(P2 q, P2 a, P2 b, double& t)
    {
        P2 d = b - a;
        double l = d.x * d.x + d.y * d.y;
        t = l > 0 ? ((q.x - a.x) * d.x + (q.y - a.y) * d.y) / l : 0;
        return a + d * t;
    }
    void smooth(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c, 1, 9, 0.35);
        punch(c, w);
        const Block b = rndBlock(r, w.g, 1);
        const int k = r.p(0.6) || w.holed ? 1 : r.i(2, 5);
        P2 p, q;
        corners(r, w.g, b, p, q);
        needValid(c, {p, q});
        c.op("smoothing %d, block n %d-%d m %d-%d", k, b.n0, b.n1, b.m0, b.m1);
        OK(c, "curvilinear_smoothing", mkernel_curvilinear_smoothing(w.id, k, p.x, p.y, q.x, q.y));
        G got = read(c, w, "smoothing");
        const double tol = tolOf(w);
        G old = w.g;
        bool known = true;
        for (int s = 0; s < k && known; ++s)
        {
            G nw = old;
            for (int i = b.n0; i <= b.n1; ++i)
                for (int j = b.m0; j <= b.m1; ++j)
                {
                    bool ei = i == 0 || i == old.n - 1, ej = j == 0 || j == old.m - 1;
                    P2 prev, next, inner;
                    const int role = roleOf(old, i, j);
                    if (role == Stays || role == Unknown)
                        continue;
                    if (role == Inside)
                    {
                        nw.at(i, j) = old.at(i, j) * 0.5 + (old.at(i - 1, j) + old.at(i + 1, j) + old.at(i, j - 1) + old.at(i, j + 1)) * 0.125;
                        continue;
                    }
                    const bool hi = role == AlongM ? i + 1 < old.n && (ei || cellAt(old, i, j)) : j + 1 < old.m && (ej || cellAt(old, i, j));
                    if (role == AlongM)
                    {
                        prev = old.at(i, j - 1), next = old.at(i, j + 1);
                        inner = old.at(hi ? i + 1 : i - 1, j);
                    }
                    else
                    {
                        prev = old.at(i - 1, j), next = old.at(i + 1, j);
                        inner = old.at(i, hi ? j + 1 : j - 1);
                    }
                    P2 target = old.at(i, j) * 0.5 + (prev + next + inner) * (0.5 / 3);
                    double t1, t2;
                    P2 q1 = proj(target, old.at(i, j), prev, t1), q2 = proj(target, old.at(i, j), next, t2);
                    const double l1 = t1 * norm(prev - old.at(i, j)), l2 = t2 * norm(next - old.at(i, j));
                    auto on = [](double t)
                    { return t >= 0 && t <= 1; };
                    auto near = [](double t)
                    { return std::abs(t) < 1e-9 || std::abs(t - 1) < 1e-9; };
                    P2 g = got.at(i, j);
                    bool judged = !near(t1) && !near(t2) && (on(t1) != on(t2) || (on(t1) && std::abs(l1 - l2) > 1e-9 * w.h));
                    if (judged)
                        nw.at(i, j) = on(t1) && (!on(t2) || l1 > l2) ? q1 : q2;
                    else if (k == 1)
                    {
                        c.evals++;
                        if (!(std::isfinite(g.x) && std::isfinite(g.y) && norm(g - old.at(i, j)) < 100 * w.h))
                            c.fail("smoothing:boundary", "boundary node (%d,%d) went to %g %g", i, j, g.x, g.y);
                        nw.at(i, j) = g;
                    }
                    else
                        known = false;
                }
            old = nw;
        }
        for (int i = 0; i < got.n; ++i)
            for (int j = 0; j < got.m; ++j)
                if (!b.in(i, j))
                    same(c, "smoothing", "outside", i, j, got.at(i, j), w.g.at(i, j), 0);
                else if (!ok(w.g.at(i, j)))
                    same(c, "smoothing", "missing", i, j, got.at(i, j), w.g.at(i, j), 0);
                else if (roleOf(w.g, i, j) == Unknown)
                {
                    if (!ok(got.at(i, j)))
                        c.fail("smoothing:lost", "node (%d,%d) is missing after smoothing", i, j);
                }
                else if (known)
                    same(c, "smoothing", "position", i, j, got.at(i, j), old.at(i, j), tol);
        c.count("smooth");
        c.observed(hashG(got));
    }
    double factor(int d, int max) { return max == 0 ? 1.0 : 0.5 * (1 + std::cos(M_PI * d / max)); }
    // weight of grid line k for a line c in a block lo..hi
    double weight(int k, int c, int lo, int hi) { return k > c ? factor(k - c, hi - c) : factor(c - k, c - lo); }

    void directional(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c, 1, 9, 0.35);
        const Block b = rndBlock(r, w.g, 1);
        const Line l = rndLine(r, w.g);
        const int k = r.p(0.5) ? 1 : r.i(2, 5);
        P2 p, q, p2, q2;
        corners(r, w.g, b, p, q);
        ends(r, w.g, l, p2, q2);
        c.op("directional smoothing %d, block n %d-%d m %d-%d line %s=%d %d-%d", k, b.n0, b.n1, b.m0, b.m1, l.alongN ? "m" : "n", l.c, l.a, l.b);
        OK(c, "curvilinear_smoothing_directional", mkernel_curvilinear_smoothing_directional(w.id, k, p2.x, p2.y, q2.x, q2.y, p.x, p.y, q.x, q.y));
        G got = read(c, w, "directional");
        G old = w.g;
        const int lo = l.alongN ? b.m0 : b.n0, hi = l.alongN ? b.m1 : b.n1;
        const int last = (l.alongN ? old.n : old.m) - 1;
        auto moves = [&](int i, int j)
        {
            int along = l.alongN ? i : j, across = l.alongN ? j : i;
            return across >= lo && across <= hi && along >= l.a && along <= l.b && along > 0 && along < last;
        };
        bool known = true;
        for (int s = 0; s < k && known; ++s)
        {
            G nw = old;
            for (int i = 0; i < old.n; ++i)
                for (int j = 0; j < old.m; ++j)
                {
                    if (!moves(i, j))
                        continue;
                    P2 x = old.at(i, j), u = l.alongN ? old.at(i - 1, j) : old.at(i, j - 1), v = l.alongN ? old.at(i + 1, j) : old.at(i, j + 1);
                    double lu = dot(x - u, x - u), lv = dot(x - v, x - v);
                    // towards the neighbour that is further away
                    double a = weight(l.alongN ? j : i, l.c, lo, hi) * 0.25 * std::abs(lu - lv) / std::max(lu, lv);
                    nw.at(i, j) = x + ((lu > lv ? u : v) - x) * a;
                }
            old = nw;
        }
        for (int i = 0; i < got.n; ++i)
            for (int j = 0; j < got.m; ++j)
                if (!moves(i, j))
                    same(c, "directional", "outside", i, j, got.at(i, j), w.g.at(i, j), 0);
                else if (known)
                    same(c, "directional", "position", i, j, got.at(i, j), old.at(i, j), tolOf(w));
        c.count("directional");
        c.observed(hashG(got));
    }
    // unit vector of the n direction at a node
    P2 nDir(const G& g, int i, int j)
    {
        int hi = std::min(i + 1, g.n - 1), lo = std::max(i - 1, 0);
        if (!ok(g.at(hi, j)))
            hi = i;
        if (!ok(g.at(lo, j)))
            lo = i;
        if (hi == lo)
            return {0, 0};
        P2 d = g.at(hi, j) - g.at(lo, j);
        return d * (1 / norm(d));
    }
    P2 turn(P2 v, P2 u) { return {v.x * u.x - v.y * u.y, v.x * u.y + v.y * u.x}; }
    P2 turnBack(P2 v, P2 u) { return {v.x * u.x + v.y * u.y, v.y * u.x - v.x * u.y}; }

    void attract(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c);
        punch(c, w);
        Block b = rndBlock(r, w.g, 0);
        const Line l = rndLine(r, w.g);
        if (l.alongN ? b.m0 == b.m1 : b.n0 == b.n1)
            c.skip();
        const double f = r.d(-1, 1);
        P2 p, q, p2, q2;
        corners(r, w.g, b, p, q);
        ends(r, w.g, l, p2, q2);
        needValid(c, {p, q, p2, q2});
        c.op("attraction %g, block n %d-%d m %d-%d line %s=%d %d-%d", f, b.n0, b.n1, b.m0, b.m1, l.alongN ? "m" : "n", l.c, l.a, l.b);
        OK(c, "curvilinear_line_attraction_repulsion", mkernel_curvilinear_line_attraction_repulsion(w.id, f, p2.x, p2.y, q2.x, q2.y, p.x, p.y, q.x, q.y));
        G got = read(c, w, "attraction");
        const G& o = w.g;
        const int lo = l.alongN ? b.m0 : b.n0, hi = l.alongN ? b.m1 : b.n1;
        for (int i = 0; i < got.n; ++i)
            for (int j = 0; j < got.m; ++j)
            {
                int along = l.alongN ? i : j, across = l.alongN ? j : i;
                if (across < lo || across > hi || along < l.a || along > l.b)
                {
                    same(c, "attraction", "outside", i, j, got.at(i, j), o.at(i, j), 0);
                    continue;
                }
                if (!ok(o.at(i, j)))
                {
                    same(c, "attraction", "missing", i, j, got.at(i, j), o.at(i, j), 0);
                    continue;
                }
                if (!whole(o, i, j))
                {
                    if (!ok(got.at(i, j)))
                        c.fail("attraction:lost", "node (%d,%d) is missing afterwards", i, j);
                    continue;
                }
                if (across == l.c)
                {
                    same(c, "attraction", "line", i, j, got.at(i, j), o.at(i, j), 0);
                    continue;
                }
                // the mean distance to the neighbours along the line
                double dist = 0;
                int cnt = 0;
                const int lastA = (l.alongN ? o.n : o.m) - 1;
                for (int s : {-1, 1})
                    if (along + s >= 0 && along + s <= lastA)
                        dist += norm(o.at(i, j) - (l.alongN ? o.at(i + s, j) : o.at(i, j + s))), cnt++;
                dist /= cnt;
                double size = dist * f * weight(across, l.c, lo, hi) * (across < l.c ? 1 : -1);
                P2 d = turn(l.alongN ? P2{0, size} : P2{size, 0}, nDir(o, i, j));
                same(c, "attraction", "position", i, j, got.at(i, j), o.at(i, j) + d, tolOf(w));
            }
        c.count("attract");
        c.observed(hashG(got));
    }

    void shift(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c);
        punch(c, w);
        const Block b = rndBlock(r, w.g, 0);
        if (b.n0 == b.n1 && b.m0 == b.m1)
            c.skip();
        const Line l = rndLine(r, w.g);
        P2 p, q, p2, q2;
        corners(r, w.g, b, p, q);
        ends(r, w.g, l, p2, q2);
        needValid(c, {p, q, p2, q2});
        for (int k = l.a; k <= l.b; ++k)
            needValid(c, {w.g.at(l.n(k), l.m(k))});
        c.op("line shift, block n %d-%d m %d-%d line %s=%d %d-%d", b.n0, b.n1, b.m0, b.m1, l.alongN ? "m" : "n", l.c, l.a, l.b);
        OK(c, "curvilinear_initialize_line_shift", mkernel_curvilinear_initialize_line_shift(w.id));
        if (r.p(0.5))
        {
            OK(c, "curvilinear_set_line_line_shift", mkernel_curvilinear_set_line_line_shift(w.id, p2.x, p2.y, q2.x, q2.y));
            OK(c, "curvilinear_set_block_line_shift", mkernel_curvilinear_set_block_line_shift(w.id, p.x, p.y, q.x, q.y));
        }
        else
        {
            OK(c, "curvilinear_set_block_line_shift", mkernel_curvilinear_set_block_line_shift(w.id, p.x, p.y, q.x, q.y));
            OK(c, "curvilinear_set_line_line_shift", mkernel_curvilinear_set_line_line_shift(w.id, p2.x, p2.y, q2.x, q2.y));
        }
        const G& o = w.g;
        std::map<int, P2> delta;
        int moves = r.i(1, 3);
        for (int s = 0; s < moves; ++s)
        {
            int k = r.i(l.a, l.b);
            if (delta.count(k))
                continue;
            P2 d{w.h * r.d(-0.4, 0.4), w.h * r.d(-0.4, 0.4)};
            P2 from = o.at(l.n(k), l.m(k));
            c.op("  move node %d of the line by %g %g", k, d.x, d.y);
            OK(c, "curvilinear_move_node_line_shift", mkernel_curvilinear_move_node_line_shift(w.id, from.x, from.y, from.x + d.x, from.y + d.y));
            delta[k] = P2{from.x + d.x, from.y + d.y} - from;
        }
        if (!delta.count(l.a))
            delta[l.a] = {0, 0};
        if (!delta.count(l.b))
            delta[l.b] = {0, 0};
        OK(c, "curvilinear_line_shift", mkernel_curvilinear_line_shift(w.id));
        OK(c, "curvilinear_finalize_line_shift", mkernel_curvilinear_finalize_line_shift(w.id));
        G got = read(c, w, "lineshift");
        const int lo = l.alongN ? b.m0 : b.n0, hi = l.alongN ? b.m1 : b.n1;
        for (int i = 0; i < got.n; ++i)
            for (int j = 0; j < got.m; ++j)
            {
                int along = l.alongN ? i : j, across = l.alongN ? j : i;
                bool inBlock = across >= lo && across <= hi;
                if (along < l.a || along > l.b || (!inBlock && across != l.c))
                {
                    same(c, "lineshift", "outside", i, j, got.at(i, j), o.at(i, j), 0);
                    continue;
                }
                if (!ok(o.at(i, j)))
                {
                    same(c, "lineshift", "missing", i, j, got.at(i, j), o.at(i, j), 0);
                    continue;
                }
                auto up = delta.lower_bound(along);
                P2 d = up->second;
                if (up->first != along)
                {
                    auto dn = std::prev(up);
                    double t = double(along - dn->first) / (up->first - dn->first);
                    d = dn->second * (1 - t) + up->second * t;
                }
                if (across == l.c)
                {
                    same(c, "lineshift", "line", i, j, got.at(i, j), o.at(i, j) + d, tolOf(w));
                    continue;
                }
                P2 loc = turnBack(d, nDir(o, l.n(along), l.m(along)));
                P2 e = turn(loc * weight(across, l.c, lo, hi), nDir(o, i, j));
                same(c, "lineshift", "position", i, j, got.at(i, j), o.at(i, j) + e, tolOf(w));
            }
        c.count("shift");
        c.observed(hashG(got));
    }

    void snapGrid(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c);
        const Line l = rndLine(r, w.g);
        const G& o = w.g;
        Box bx;
        for (auto& q : o.p)
            bx.add(q);
        std::vector<P2> land;
        int lines = r.i(1, 3);
        for (int s = 0; s < lines; ++s)
        {
            if (s)
                land.push_back({MISSING, MISSING});
            P2 q = bx.rnd(r, 0.3);
            int k = r.i(2, 6);
            for (int t = 0; t < k; ++t)
            {
                land.push_back(q);
                q = q + P2{bx.diag() * r.d(-0.5, 0.5), bx.diag() * r.d(-0.5, 0.5)};
            }
        }
        GL lg(land);
        P2 p2, q2;
        ends(r, o, l, p2, q2);
        const int ext = r.i(0, 1);
        P2 e1{MISSING, MISSING};
        Block b{l.n(l.a), l.m(l.a), l.n(l.b), l.m(l.b)};
        if (ext)
        {
            Block x{};
            x.n0 = r.i(0, o.n - 1), x.m0 = r.i(0, o.m - 1);
            x.n1 = x.n0, x.m1 = x.m0;
            e1 = o.at(x.n0, x.m0);
            b = {std::min({b.n0, x.n0, x.n1}), std::min({b.m0, x.m0, x.m1}), std::max({b.n1, x.n0, x.n1}), std::max({b.m1, x.m0, x.m1})};
        }
        c.op("snap to land boundary, line %s=%d %d-%d, %d region points, region n %d-%d m %d-%d", l.alongN ? "m" : "n", l.c, l.a, l.b, ext, b.n0, b.n1, b.m0, b.m1);
        for (auto& q : land)
            c.op("   land %.17g %.17g", q.x, q.y);
        OK(c, "curvilinear_snap_to_landboundary", mkernel_curvilinear_snap_to_landboundary(w.id, lg(), p2.x, p2.y, q2.x, q2.y, e1.x, e1.y));
        G got = read(c, w, "gridsnap");
        const double tol = 1e-7 * (bx.diag() + w.h) * 10;
        const int lo = l.alongN ? b.m0 : b.n0, hi = l.alongN ? b.m1 : b.n1;
        for (int k = l.a; k <= l.b; ++k)
        {
            P2 x = o.at(l.n(k), l.m(k)), y = got.at(l.n(k), l.m(k));
            double best = 1e300, on = 1e300;
            for (size_t s = 0; s + 1 < land.size(); ++s)
                if (land[s].x != MISSING && land[s + 1].x != MISSING)
                    best = std::min(best, distPointSeg(x, land[s], land[s + 1])), on = std::min(on, distPointSeg(y, land[s], land[s + 1]));
            c.evals++;
            if (!(on <= tol) || !(std::abs(norm(y - x) - best) <= tol))
                c.fail("gridsnap:nearest", "node (%d,%d) moved by %.12g to %.15g %.15g at %g from the land boundary, which was at %.12g", l.n(k), l.m(k), norm(y - x), y.x, y.y, on, best);
        }
        for (int i = 0; i < got.n; ++i)
            for (int j = 0; j < got.m; ++j)
            {
                int along = l.alongN ? i : j, across = l.alongN ? j : i;
                if (across == l.c && along >= l.a && along <= l.b)
                    continue;
                if (along < l.a || along > l.b || (ext && (across < lo || across > hi)))
                {
                    same(c, "gridsnap", "outside", i, j, got.at(i, j), o.at(i, j), 0);
                    continue;
                }
                P2 d = got.at(l.n(along), l.m(along)) - o.at(l.n(along), l.m(along));
                P2 e = got.at(i, j) - o.at(i, j);
                if (ext)
                {
                    if (norm(d) < 1e-3 * w.h)
                        continue;
                    same(c, "gridsnap", "position", i, j, got.at(i, j), o.at(i, j) + d * weight(across, l.c, lo, hi), tol);
                    continue;
                }
                c.evals++;
                double dd = dot(d, d), t = dd > 0 ? dot(e, d) / dd : 0;
                if (!(std::abs(cross(d, e)) <= tol * (norm(d) + tol)) || !(t >= -1e-6 && t <= 1 + 1e-6))
                    if (norm(e) > tol)
                        c.fail("gridsnap:region", "node (%d,%d) moved by %g %g, the line node by %g %g", i, j, e.x, e.y, d.x, d.y);
                // further away from the line less
                double near = norm(o.at(i, j) - o.at(l.n(along), l.m(along)));
                for (int k2 = 0; k2 < (l.alongN ? o.m : o.n); ++k2)
                {
                    int i2 = l.alongN ? i : k2, j2 = l.alongN ? k2 : j;
                    if (k2 == l.c)
                        continue;
                    double dist = norm(o.at(i2, j2) - o.at(l.n(along), l.m(along)));
                    if (dist > near && norm(got.at(i2, j2) - o.at(i2, j2)) > norm(e) + tol && std::abs(k2 - l.c) <= 5 && std::abs(across - l.c) <= 5)
                        c.fail("gridsnap:decay", "node (%d,%d) at %g from the line moved more than node (%d,%d) at %g", i2, j2, dist, i, j, near);
                }
            }
        c.count("snapgrid");
        c.observed(hashG(got));
    }

    OrthogonalizationParameters params(Rng& r)
    {
        OrthogonalizationParameters p;
        p.outer_iterations = r.i(1, 3);
        p.boundary_iterations = r.i(1, 6);
        p.inner_iterations = r.i(1, 6);
        p.orthogonalization_to_smoothing_factor = r.p(0.2) ? 1 : r.p(0.2) ? 0 : r.d(0, 1);
        p.orthogonalization_to_smoothing_factor_at_boundary = r.d(0, 1);
        p.areal_to_angle_smoothing_factor = r.d(0, 1);
        return p;
    }
    G orthoGrid(Ctx& c, World& w, const OrthogonalizationParameters& p, const Block& b, const std::vector<Line>& frozen)
    {
        P2 u, v;
        OK(c, "curvilinear_set", setCurvi(w.id, to(w.g)));
        OK(c, "curvilinear_initialize_orthogonalize", mkernel_curvilinear_initialize_orthogonalize(w.id, p));
        u = w.g.at(b.n0, b.m0), v = w.g.at(b.n1, b.m1);
        OK(c, "curvilinear_set_block_orthogonalize", mkernel_curvilinear_set_block_orthogonalize(w.id, u.x, u.y, v.x, v.y));
        for (auto& f : frozen)
        {
            u = w.g.at(f.n(f.a), f.m(f.a)), v = w.g.at(f.n(f.b), f.m(f.b));
            OK(c, "curvilinear_set_frozen_lines_orthogonalize", mkernel_curvilinear_set_frozen_lines_orthogonalize(w.id, u.x, u.y, v.x, v.y));
        }
        OK(c, "curvilinear_orthogonalize", mkernel_curvilinear_orthogonalize(w.id));
        OK(c, "curvilinear_finalize_orthogonalize", mkernel_curvilinear_finalize_orthogonalize(w.id));
        return read(c, w, "gridortho");
    }
    void ortho(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c, 2, 8, 0.2);
        Block b = rndBlock(r, w.g, 1);
        if (r.p(0.3))
            b = {0, 0, w.g.n - 1, w.g.m - 1};
        OrthogonalizationParameters p = params(r);
        std::vector<Line> frozen;
        int nf = r.i(0, 2);
        for (int s = 0; s < nf; ++s)
        {
            frozen.push_back(rndLine(r, w.g));
            if (s && frozen[s].alongN != frozen[0].alongN && frozen[s].c >= frozen[0].a && frozen[s].c <= frozen[0].b && frozen[0].c >= frozen[s].a && frozen[0].c <= frozen[s].b) // crossing lines are refused
                frozen.pop_back();
        }
        c.op("orthogonalize block n %d-%d m %d-%d, %d frozen lines, iterations %d %d %d factor %g", b.n0, b.n1, b.m0, b.m1, nf, p.outer_iterations, p.boundary_iterations, p.inner_iterations, p.orthogonalization_to_smoothing_factor);
        for (auto& f : frozen)
            c.op("   frozen %s=%d %d-%d", f.alongN ? "m" : "n", f.c, f.a, f.b);
        G got = orthoGrid(c, w, p, b, frozen);
        for (int i = 0; i < got.n; ++i)
            for (int j = 0; j < got.m; ++j)
            {
                bool fz = false;
                for (auto& f : frozen)
                    fz |= f.on(i, j);
                bool corner = (i == 0 || i == got.n - 1) && (j == 0 || j == got.m - 1);
                if (!b.in(i, j))
                    same(c, "gridortho", "outside", i, j, got.at(i, j), w.g.at(i, j), 0);
                else if (fz && i > 0 && j > 0 && i < got.n - 1 && j < got.m - 1)
                    same(c, "gridortho", "frozen", i, j, got.at(i, j), w.g.at(i, j), 0);
                else if (corner)
                    same(c, "gridortho", "corner", i, j, got.at(i, j), w.g.at(i, j), 0);
                else if (!(std::isfinite(got.at(i, j).x) && std::isfinite(got.at(i, j).y)) || norm(got.at(i, j) - w.g.at(i, j)) > 1e3 * w.h)
                    c.fail("gridortho:finite", "node (%d,%d) went to %g %g", i, j, got.at(i, j).x, got.at(i, j).y);
            }
        // the same grid elsewhere, turned by a quarter
        if (r.p(0.5))
        {
            World w2 = w;
            P2 o{w.h * r.i(-8, 8), w.h * r.i(-8, 8)};
            for (auto& q : w2.g.p)
                q = P2{-q.y, q.x} + o;
            G g2 = orthoGrid(c, w2, p, b, frozen);
            for (int i = 0; i < got.n; ++i)
                for (int j = 0; j < got.m; ++j)
                    same(c, "gridortho", "turned", i, j, g2.at(i, j), P2{-got.at(i, j).y, got.at(i, j).x} + o, 1e-4 * w.h);
        }
        c.count("orthogrid");
        c.observed(hashG(got));
    }
    // a regular grid of which inner nodes were displaced: the nodes go back
    void orthoRegular(Ctx& c)
    {
        Rng& r = c.rng;
        World w = make(c, 2, 7, 0);
        const int n = w.g.n, m = w.g.m;
        double ang = r.d(0, 6.28), dx = w.h * r.d(0.7, 1.4), dy = w.h * r.d(0.7, 1.4) * (r.p(0.5) ? 1 : -1);
        P2 u{std::cos(ang) * dx, std::sin(ang) * dx}, v{-std::sin(ang) * dy, std::cos(ang) * dy};
        G want = w.g;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j)
                want.at(i, j) = u * i + v * j;
        w.g = want;
        double e0 = 0;
        double amp = r.p(0.3) ? 0 : 0.2;
        for (int i = 1; i < n - 1; ++i)
            for (int j = 1; j < m - 1; ++j)
            {
                P2 d = u * r.d(-amp, amp) + v * r.d(-amp, amp);
                w.g.at(i, j) = w.g.at(i, j) + d;
                e0 = std::max(e0, norm(d));
            }
        OrthogonalizationParameters p;
        p.orthogonalization_to_smoothing_factor = r.d(0.5, 1);
        p.outer_iterations = 4;
        c.op("regular grid %d x %d displaced by up to %g", n, m, e0);
        G got = orthoGrid(c, w, p, {0, 0, n - 1, m - 1}, {});
        double e1 = 0;
        for (size_t k = 0; k < want.p.size(); ++k)
            e1 = std::max(e1, norm(got.p[k] - want.p[k]));
        c.evals++;
        if (getenv("MK_STAT"))
            fprintf(stderr, "STAT grid %g %g\n", e0 / w.h, e1 / w.h);
        if (!(e1 <= 0.8 * e0 + 1e-3 * w.h))
            c.fail("gridortho:regular", "nodes of a regular grid displaced by up to %g are %g off after orthogonalization", e0, e1);
        c.count("orthoregular");
        c.observed(hashG(got));
    }

    // ------------------------------------------------------------------ 2D mesh
    M2 readMesh(Ctx& c, int id)
    {
        M2 m;
        if (obsMesh2d(id, m))
            c.fail("ortho:read", "mesh cannot be read: %s", lastError().c_str());
        return m;
    }
    void sameTopo(Ctx& c, const M2& a, const M2& b)
    {
        c.evals++;
        if (a.en != b.en || a.npf != b.npf || a.nx.size() != b.nx.size())
            c.fail("ortho:connectivity", "orthogonalization changed the connections: %d nodes %d edges %d faces, was %d %d %d", b.numNodes(), b.numEdges(), b.numFaces(), a.numNodes(), a.numEdges(), a.numFaces());
    }
    void mesh(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        GenOpt go;
        go.minN = 1, go.maxN = 7;
        go.h = r.p(0.7) ? 10 : 0.5;
        go.perturb = r.d(0, 0.3);
        go.triProb = r.p(0.3) ? 0 : r.p(0.3) ? 1 : 0.3;
        go.holeProb = r.p(0.5) ? 0 : 0.15;
        go.origin = {go.h * r.d(-10, 10), go.h * r.d(-10, 10)};
        RawMesh rm = genMesh(r, go);
        if (rm.edges.empty())
            return c.skip();
        OK(c, "mesh2d_set", setMesh2d(id, rm));
        M2 a = readMesh(c, id);
        PolySet ps;
        if (r.p(0.5))
            ps = genPolySet(r, boxOf(a), true, true);
        GL pg = ps.list(), none;
        auto p = params(r);
        c.op("orthogonalize mesh, %d nodes, polygon of %zu points, iterations %d %d %d factor %g", a.numNodes(), pg.size(), p.outer_iterations, p.boundary_iterations, p.inner_iterations, p.orthogonalization_to_smoothing_factor);
        OK(c, "mesh2d_compute_orthogonalization", mkernel_mesh2d_compute_orthogonalization(id, 0, p, pg(), none()));
        M2 b = readMesh(c, id);
        traceMesh(c, a);
        sameTopo(c, a, b);
        std::vector<std::vector<int>> bnd(a.numNodes());
        for (int e = 0; e < a.numEdges(); ++e)
            if (a.edgeValid(e) && a.ef[2 * e] >= 0 && a.ef[2 * e + 1] < 0)
                bnd[a.en[2 * e]].push_back(a.en[2 * e + 1]), bnd[a.en[2 * e + 1]].push_back(a.en[2 * e]);
        int moved = 0, fixedOut = 0;
        for (int i = 0; i < a.numNodes(); ++i)
        {
            if (!a.nodeValid(i))
                continue;
            c.evals++;
            P2 x = a.node(i), y = b.node(i);
            if (!(std::isfinite(y.x) && std::isfinite(y.y)) || !b.nodeValid(i))
                c.fail("ortho:finite", "node %d went to %g %g", i, y.x, y.y);
            if (!(x == y))
                moved++;
            if (!ps.empty() && insideSet(ps, x, 1e-6 * go.h) == 0)
            {
                fixedOut++;
                if (!(x == y))
                    c.fail("ortho:outside", "node %d outside the polygon moved from %.15g %.15g to %.15g %.15g", i, x.x, x.y, y.x, y.y);
            }
            if (!bnd[i].empty() && !(x == y))
            {
                double d = 1e300;
                for (int k : bnd[i])
                    d = std::min(d, distPointSeg(y, x, a.node(k)));
                if (d > 1e-6 * go.h)
                    c.fail("ortho:boundary", "boundary node %d went from %.15g %.15g to %.15g %.15g, which is %g from the boundary edges at it", i, x.x, x.y, y.x, y.y, d);
            }
        }
        c.count("moved", moved);
        c.count("outside", fixedOut);
        // step by step
        if (r.p(0.4))
        {
            OK(c, "mesh2d_set", setMesh2d(id, rm));
            OK(c, "mesh2d_initialize_orthogonalization", mkernel_mesh2d_initialize_orthogonalization(id, 0, p, pg(), none()));
            for (int o = 0; o < p.outer_iterations; ++o)
            {
                OK(c, "prepare", mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id));
                for (int k = 0; k < p.boundary_iterations * p.inner_iterations; ++k)
                    OK(c, "inner", mkernel_mesh2d_compute_inner_ortogonalization_iteration(id));
                OK(c, "finalize", mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id));
            }
            OK(c, "mesh2d_delete_orthogonalization", mkernel_mesh2d_delete_orthogonalization(id));
            M2 s = readMesh(c, id);
            for (int i = 0; i < a.numNodes(); ++i)
                if (a.nodeValid(i))
                    same(c, "ortho", "steps", i, 0, s.node(i), b.node(i), 1e-9 * go.h);
            c.count("steps");
        }
        // elsewhere, turned by a quarter
        if (r.p(0.4))
        {
            RawMesh r2 = rm;
            P2 o{go.h * r.i(-8, 8), go.h * r.i(-8, 8)};
            for (auto& q : r2.nodes)
                q = P2{-q.y, q.x} + o;
            PolySet p2 = ps;
            for (auto& e : p2.enc)
                for (auto& k : e)
                    for (auto& q : k)
                        q = P2{-q.y, q.x} + o;
            GL g2 = p2.list();
            OK(c, "mesh2d_set", setMesh2d(id, r2));
            OK(c, "mesh2d_compute_orthogonalization", mkernel_mesh2d_compute_orthogonalization(id, 0, p, g2(), none()));
            M2 s = readMesh(c, id);
            for (int i = 0; i < a.numNodes(); ++i)
                if (a.nodeValid(i))
                    same(c, "ortho", "turned", i, 0, s.node(i), P2{-b.ny[i], b.nx[i]} + o, 1e-4 * go.h);
            c.count("turned");
        }
        c.count("mesh");
        c.observed(b.hash());
    }
    P2 circum(const M2& m, const std::vector<int>& f)
    {
        P2 s{0, 0};
        for (int i : f)
            s = s + m.node(i) * (1.0 / f.size());
        return s;
    }
    void meshRegular(Ctx& c)
    {
        Rng& r = c.rng;
        mkernel_clear_state();
        int id = allocate(0);
        const double h = r.p(0.7) ? 10 : 0.5;
        const int nx = r.i(2, 7), ny = r.i(2, 7);
        const int kind = 0; // equilateral triangles at the boundary move
        double ang = r.d(0, 6.28);
        P2 u{h * std::cos(ang), h * std::sin(ang)}, v{-u.y, u.x};
        if (kind == 1)
            v = u * 0.5 + v * std::sqrt(0.75);
        else
            v = v * r.d(0.7, 1.4);
        RawMesh m;
        std::vector<P2> want;
        double amp = r.p(0.3) ? 0 : 0.1, e0 = 0;
        P2 org{h * r.d(-10, 10), h * r.d(-10, 10)};
        for (int j = 0; j <= ny; ++j)
            for (int i = 0; i <= nx; ++i)
            {
                P2 q = org + u * i + v * j;
                want.push_back(q);
                P2 d{0, 0};
                if (i > 0 && j > 0 && i < nx && j < ny)
                    d = P2{h * r.d(-amp, amp), h * r.d(-amp, amp)};
                e0 += dot(d, d);
                m.nodes.push_back(q + d);
                int k = j * (nx + 1) + i;
                if (i)
                    m.edges.push_back({k - 1, k});
                if (j)
                    m.edges.push_back({k - nx - 1, k});
                if (kind == 1 && j && i < nx)
                    m.edges.push_back({k - nx, k});
            }
        OK(c, "mesh2d_set", setMesh2d(id, m));
        M2 a = readMesh(c, id);
        OrthogonalizationParameters p;
        const bool pure = r.p(0.5);
        p.orthogonalization_to_smoothing_factor = pure ? 1 : r.d(0.2, 0.75);
        p.outer_iterations = 4;
        GL none, none2;
        c.op("regular mesh of %s %d x %d displaced by up to %g, factor %g", kind ? "triangles" : "rectangles", nx, ny, e0, p.orthogonalization_to_smoothing_factor);
        OK(c, "mesh2d_compute_orthogonalization", mkernel_mesh2d_compute_orthogonalization(id, 0, p, none(), none2()));
        M2 b = readMesh(c, id);
        sameTopo(c, a, b);
        double o0 = 0, o1 = 0;
        for (int e = 0; e < a.numEdges(); ++e)
            if (a.ef[2 * e] >= 0 && a.ef[2 * e + 1] >= 0)
                for (auto* mm : {&a, &b})
                {
                    auto fc = mm->faces();
                    P2 u1 = circum(*mm, fc[mm->ef[2 * e]]), u2 = circum(*mm, fc[mm->ef[2 * e + 1]]);
                    P2 ed = mm->node(mm->en[2 * e + 1]) - mm->node(mm->en[2 * e]);
                    double cs = dot(ed, u2 - u1) / (norm(ed) * norm(u2 - u1));
                    (mm == &a ? o0 : o1) += cs * cs;
                }
        double e1 = 0;
        for (int i = 0; i < a.numNodes(); ++i)
            e1 += dot(b.node(i) - want[i], b.node(i) - want[i]);
        e0 = std::sqrt(e0), e1 = std::sqrt(e1);
        c.evals++;
        if (getenv("MK_STAT"))
            fprintf(stderr, "STAT mesh%d %g %g %g %g %g\n", kind, p.orthogonalization_to_smoothing_factor, e0 / h, e1 / h, std::sqrt(o0), std::sqrt(o1));
        if (amp > 0 && !(o1 <= (pure ? 1.1 : 0.7) * (pure ? 1.1 : 0.7) * o0 + 1e-9))
            c.fail("ortho:improve", "the sum of squared deviations from orthogonality went from %g to %g", o0, o1);
        if (amp == 0 && !(e1 <= 1e-6 * h))
            c.fail("ortho:regular", "nodes of a regular mesh displaced by %g (root of sum of squares) are %g off after orthogonalization", e0, e1);
        c.count("meshregular");
        c.observed(b.hash());
    }

    void runCase(Ctx& c)
    {
        switch (c.rng.i(0, 9))
        {
        case 0:
            return smooth(c);
        case 1:
            return directional(c);
        case 2:
            return attract(c);
        case 3:
            return shift(c);
        case 4:
            return snapGrid(c);
        case 5:
            return ortho(c);
        case 6:
            return orthoRegular(c);
        case 7:
            return meshRegular(c);
        default:
            return mesh(c);
        }
    }
    Reg r24("C24", runCase, 40000, 250000);
} // namespace
