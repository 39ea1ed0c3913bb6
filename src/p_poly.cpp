// C23: polygon operations: refinement, linear refinement, offset, snapping to a land boundary.
#include "pcommon.hpp"

namespace
{
    constexpr double R = 6378137.0;
    constexpr double D2R = M_PI / 180;
    struct Metric
    {
        int proj;
        P2 local(P2 a, P2 b) const // vector from a to b in metres (small distances)
        {
            if (!proj)
                return b - a;
            return {(b.x - a.x) * D2R * R * std::cos(0.5 * (a.y + b.y) * D2R), (b.y - a.y) * D2R * R};
        }
        double len(P2 a, P2 b) const { return norm(local(a, b)); }
        // distance of q to the segment, sampled densely for spherical coordinates
        double toSeg(P2 q, P2 a, P2 b) const
        {
            if (!proj)
                return distPointSeg(q, a, b);
            P2 u = local(q, a), v = local(q, b);
            return distPointSeg({0, 0}, u, v);
        }
    };
    std::vector<P2> ring(Rng& r, P2 ctr, double size)
    {
        std::vector<P2> v;
        if (r.p(0.25))
        {
            double w = size * r.d(0.3, 1), h = size * r.d(0.3, 1);
            v = {ctr + P2{-w, -h}, ctr + P2{w, -h}, ctr + P2{w, h}, ctr + P2{-w, h}};
        }
        else
        {
            int n = r.i(3, 14);
            for (int i = 0; i < n; ++i)
            {
                double a = 2 * M_PI * (i + r.d(-0.35, 0.35)) / n, q = size * r.d(0.4, 1);
                v.push_back(ctr + P2{q * std::cos(a), q * std::sin(a)});
            }
        }
        if (r.p(0.4))
            std::reverse(v.begin(), v.end());
        v.push_back(v.front());
        return v;
    }
    struct Setup
    {
        int id;
        Metric me;
        double size;
        P2 ctr;
        std::vector<std::vector<std::vector<P2>>> enc;
        std::vector<int> start; // index of the first point of each outer ring
        std::vector<P2> pts;
    };
    Setup setup(Ctx& c, bool many, bool holes)
    {
        Rng& r = c.rng;
        Setup s;
        mkernel_clear_state();
        s.me.proj = r.p(0.6) ? 0 : r.i(1, 2);
        s.id = allocate(s.me.proj);
        if (s.me.proj)
        {
            s.size = r.d(0.005, 0.08);
            s.ctr = {r.d(-170, 170), r.d(-60, 60)};
            if (r.p(0.3))
                s.ctr = {r.d(-1, 1), r.d(-1, 1)};
        }
        else
        {
            s.size = r.p(0.5) ? 10 : r.d(0.5, 2000);
            s.ctr = r.p(0.3) ? P2{0, 0} : P2{s.size * r.d(-5, 5), s.size * r.d(-5, 5)};
        }
        int n = many ? r.i(1, 3) : 1;
        for (int k = 0; k < n; ++k)
        {
            std::vector<std::vector<P2>> e{ring(r, s.ctr + P2{2.5 * s.size * k, s.size * r.d(-0.5, 0.5)}, s.size)};
            if (holes && r.p(0.3))
                e.push_back(ring(r, s.ctr + P2{2.5 * s.size * k, 0}, s.size * 0.15));
            s.enc.push_back(e);
        }
        for (size_t k = 0; k < s.enc.size(); ++k)
        {
            if (k)
                s.pts.push_back({MISSING, MISSING});
            s.start.push_back((int)s.pts.size());
            for (size_t q = 0; q < s.enc[k].size(); ++q)
            {
                if (q)
                    s.pts.push_back({INNER_SEP, INNER_SEP});
                s.pts.insert(s.pts.end(), s.enc[k][q].begin(), s.enc[k][q].end());
            }
        }
        // the first point may lie on no separator value
        c.op("projection %d, %zu polygons", s.me.proj, s.enc.size());
        for (auto& p : s.pts)
            c.op("   %.17g %.17g", p.x, p.y);
        return s;
    }
    uint64_t hashPts(const std::vector<P2>& v)
    {
        Hash h;
        for (auto& p : v)
            h.add(p.x).add(p.y);
        return h.h;
    }
    void same(Ctx& c, const char* name, const std::vector<P2>& want, const std::vector<P2>& got, double tol)
    {
        c.evals += want.size();
        if (want.size() != got.size())
            c.fail(std::string(name) + ":number", "%zu points, %zu expected", got.size(), want.size());
        for (size_t i = 0; i < want.size(); ++i)
            if (!(std::abs(want[i].x - got[i].x) <= tol && std::abs(want[i].y - got[i].y) <= tol))
                c.fail(std::string(name) + ":point", "point %zu is %.15g %.15g, expected %.15g %.15g", i, got[i].x, got[i].y, want[i].x, want[i].y);
    }
    void range(Rng& r, int n, int& a, int& b) // indices in a closed ring of n points
    {
        a = r.i(0, n - 1);
        b = r.i(0, n - 1);
        if (r.p(0.25))
            a = 0, b = r.p(0.5) ? 0 : n - 1;
    }

    void refine(Ctx& c)
    {
        Rng& r = c.rng;
        Setup s = setup(c, true, true);
        int k = r.i(0, (int)s.enc.size() - 1);
        auto& ring = s.enc[k][0];
        const int n = (int)ring.size();
        int a, b;
        range(r, n, a, b);
        double m = 0;
        for (int i = 0; i + 1 < n; ++i)
            m = std::max(m, s.me.len(ring[i], ring[i + 1]));
        double d = m * (r.p(0.5) ? r.d(0.05, 0.4) : r.d(0.2, 1.5));
        if (r.p(0.01)) // very many points
            d = m / r.d(500, 5000);
        const int ga = s.start[k] + a, gb = s.start[k] + b;
        std::vector<char> in(n, 0);
        if (ga == 0 && gb == 0)
            std::fill(in.begin(), in.end(), 1);
        else if (a < b)
            std::fill(in.begin() + a, in.begin() + b, 1);
        else if (a > b)
            for (int i = 0; i < n - 1; ++i)
                in[i] = i < b || i >= a;
        std::vector<P2> want;
        for (int i = 0; i + 1 < n; ++i)
        {
            want.push_back(ring[i]);
            if (!in[i])
                continue;
            double q = s.me.len(ring[i], ring[i + 1]) / d;
            if (std::abs(q - std::floor(q) - 0.5) < (s.me.proj ? 1e-4 : 1e-9) * (1 + q))
                c.skip();
            int parts = std::max(1, (int)std::floor(q + 0.5));
            for (int j = 1; j < parts; ++j)
                want.push_back(ring[i] + (ring[i + 1] - ring[i]) * ((double)j / parts));
        }
        want.push_back(ring[n - 1]);
        c.op("refine polygon %d points %d - %d length %.17g", k, ga, gb, d);
        GL g(s.pts);
        int num = -5;
        OK(c, "polygon_count_refine", mkernel_polygon_count_refine(s.id, g(), ga, gb, d, num));
        if (num != (int)want.size())
            c.fail("refine:count", "%d points announced, %zu expected", num, want.size());
        GL out((size_t)num, -7777.0);
        OK(c, "polygon_refine", mkernel_polygon_refine(s.id, g(), ga, gb, d, out()));
        same(c, "refine", want, out.pts(), 1e-9 * (s.size + std::abs(s.ctr.x) + std::abs(s.ctr.y)));
        c.count("refine");
        c.observed(hashPts(want));
    }

    void linear(Ctx& c)
    {
        Rng& r = c.rng;
        Setup s = setup(c, false, false);
        auto& ring = s.enc[0][0];
        const int n = (int)ring.size();
        int a, b;
        range(r, n, a, b);
        c.op("linear refine points %d - %d", a, b);
        GL g(s.pts);
        int num = -5;
        OK(c, "polygon_count_linear_refine", mkernel_polygon_count_linear_refine(s.id, g(), a, b, num));
        if (num <= 0)
            c.fail("linear:count", "%d points announced", num);
        GL out((size_t)num, -7777.0);
        OK(c, "polygon_linear_refine", mkernel_polygon_linear_refine(s.id, g(), a, b, out()));
        auto got = out.pts();
        const double tol = 1e-9 * (s.size + std::abs(s.ctr.x) + std::abs(s.ctr.y));
        c.count("linear");
        c.observed(hashPts(got));
        if (a == b || (a == n - 1 && b == 0))
        {
            same(c, "linear", ring, got, tol);
            return;
        }
        // the stretch that is replaced, and what stays
        std::vector<P2> line, before, after;
        if (a < b)
        {
            line.assign(ring.begin() + a, ring.begin() + b + 1);
            before.assign(ring.begin(), ring.begin() + a);
            after.assign(ring.begin() + b + 1, ring.end());
        }
        else
        {
            line.assign(ring.begin() + a, ring.end());
            line.insert(line.end(), ring.begin() + 1, ring.begin() + b + 1);
            before.assign(ring.begin() + b, ring.begin() + a);
        }
        if (got.size() < before.size() + after.size() + 2)
            c.fail("linear:number", "%zu points, at least %zu expected", got.size(), before.size() + after.size() + 2);
        same(c, "linear-before", before, std::vector<P2>(got.begin(), got.begin() + before.size()), tol);
        same(c, "linear-after", after, std::vector<P2>(got.end() - after.size(), got.end()), tol);
        std::vector<P2> mid(got.begin() + before.size(), got.end() - after.size());
        if (dist(mid.front(), line.front()) > tol || dist(mid.back(), line.back()) > tol)
            c.fail("linear:ends", "the stretch now goes from %.15g %.15g to %.15g %.15g", mid.front().x, mid.front().y, mid.back().x, mid.back().y);
        // positions along the stretch
        std::vector<double> cum{0};
        for (size_t i = 1; i < line.size(); ++i)
            cum.push_back(cum.back() + s.me.len(line[i - 1], line[i]));
        const double L = cum.back();
        std::vector<double> pos;
        double prev = 0;
        for (size_t i = 0; i < mid.size(); ++i)
        {
            double best = 1e300, at = 0;
            for (size_t k = 0; k + 1 < line.size(); ++k)
            {
                P2 u = line[k + 1] - line[k];
                double t = std::clamp(dot(mid[i] - line[k], u) / dot(u, u), 0.0, 1.0);
                double dd = dist(mid[i], line[k] + u * t), q = cum[k] + t * (cum[k + 1] - cum[k]);
                // where the perimeter is met more than once the first position after the previous point counts
                if (dd <= tol && (best > tol || (at < prev && q > at)))
                    best = dd, at = q;
                else if (best > tol && dd < best)
                    best = dd, at = q;
            }
            c.evals++;
            if (best > 10 * tol)
                c.fail("linear:astray", "point %zu %.15g %.15g is %g off the perimeter", i, mid[i].x, mid[i].y, best);
            if (i + 1 == mid.size())
                at = L;
            if (i == 0)
                at = 0;
            if (i && at <= prev - 1e-9 * L)
                c.fail("linear:order", "point %zu comes before the previous one", i);
            pos.push_back(at);
            prev = at;
        }
        // the spacing goes gradually from that of the first to that of the last side of the stretch
        const double f = cum[1], l = L - cum[cum.size() - 2];
        double lo = 1e300, hi = 0;
        for (size_t i = 0; i + 1 < pos.size(); ++i)
        {
            double t = f + (l - f) * 0.5 * (pos[i] + pos[i + 1]) / L;
            double q = (pos[i + 1] - pos[i]) / t;
            lo = std::min(lo, q), hi = std::max(hi, q);
        }
        c.evals++;
        const double ratio = std::max(f, l) / std::min(f, l);
        if (ratio < 20 && pos.size() > 2 && hi > lo * 1.25)
            c.fail("linear:spacing", "spacing relative to the one aimed at (%g to %g) lies between %g and %g", f, l, lo, hi);
        if (ratio < 4 && pos.size() > 5 && (hi > 2.2 || lo < 0.4))
            c.fail("linear:number", "spacing relative to the one aimed at (%g to %g) lies between %g and %g", f, l, lo, hi);
    }

    void offset(Ctx& c)
    {
        Rng& r = c.rng;
        Setup s = setup(c, true, true);
        const bool both = r.p(0.5);
        double d = s.size * (s.me.proj ? D2R * R : 1) * r.d(0.01, 0.2);
        c.op("offset distance %.17g both=%d", d, both);
        GL g(s.pts);
        int num = -5;
        OK(c, "polygon_count_offset", mkernel_polygon_count_offset(s.id, g(), both, d, num));
        const int n = (int)s.pts.size();
        if (num != (both ? 2 * n + 1 : n))
            c.fail("offset:count", "%d points announced for %d points", num, n);
        GL out((size_t)num, -7777.0);
        OK(c, "polygon_get_offset", mkernel_polygon_get_offset(s.id, g(), both, d, out()));
        auto got = out.pts();
        auto sep = [](P2 p)
        { return p.x == MISSING || p.x == INNER_SEP; };
        if (both && !(got[n].x == MISSING && got[n].y == MISSING))
            c.fail("offset:separator", "no separator between the two offsets");
        size_t at = 0;
        std::vector<std::pair<size_t, size_t>> rings; // first and last
        for (size_t i = 0; i <= s.pts.size(); ++i)
            if (i == s.pts.size() || sep(s.pts[i]))
                rings.push_back({at, i - 1}), at = i + 1;
        for (int side = 0; side < (both ? 2 : 1); ++side)
        {
            const size_t o = side ? n + 1 : 0;
            for (size_t i = 0; i < s.pts.size(); ++i)
                if (sep(s.pts[i]) && !(got[o + i] == s.pts[i]))
                    c.fail("offset:separator", "separator %zu is %g %g", i, got[o + i].x, got[o + i].y);
            for (auto [f, l] : rings)
                for (size_t i = f; i <= l; ++i)
                {
                    P2 p = s.pts[i], pv = s.pts[i == f ? l - 1 : i - 1], nx = s.pts[i == l ? f + 1 : i + 1];
                    P2 u = s.me.local(pv, p), w = s.me.local(p, nx), v = s.me.local(p, got[o + i]);
                    u = u * (1 / norm(u)), w = w * (1 / norm(w));
                    // positive: to the right of the direction of the polygon, outward when it is counter clockwise
                    double a = -cross(u, v), b = -cross(w, v), e = side ? -d : d;
                    double sharp = 1 / std::max(1e-3, 1 + dot(u, w));
                    double tol = (s.me.proj ? 0.01 : 1e-8) * d * (1 + sharp) + 1e-9 * norm(p);
                    c.evals++;
                    if (sharp > 20)
                        continue;
                    if (!(std::abs(a - e) <= tol && std::abs(b - e) <= tol))
                        c.fail("offset:distance", "point %zu moved to a distance of %.12g and %.12g from its sides, expected %.12g", i, a, b, e);
                }
        }
        c.count("offset");
        c.observed(hashPts(got));
    }

    void snap(Ctx& c)
    {
        Rng& r = c.rng;
        Setup s = setup(c, true, true);
        std::vector<P2> land;
        std::vector<std::pair<P2, P2>> segs;
        int lines = r.i(1, 3);
        for (int k = 0; k < lines; ++k)
        {
            if (k)
                land.push_back({MISSING, MISSING});
            P2 p = s.ctr + P2{s.size * r.d(-2, 5), s.size * r.d(-2, 2)};
            int n = r.i(2, 8);
            for (int i = 0; i < n; ++i)
            {
                if (i)
                    segs.push_back({land.back(), p});
                land.push_back(p);
                p = p + P2{s.size * r.d(-0.8, 0.8), s.size * r.d(-0.8, 0.8)};
            }
        }
        int k = r.i(0, (int)s.enc.size() - 1);
        auto& ring = s.enc[k][0];
        const int n = (int)ring.size();
        int a, b;
        range(r, n, a, b);
        const int ga = s.start[k] + a, gb = s.start[k] + b;
        c.op("snap polygon %d points %d - %d to", k, ga, gb);
        for (auto& p : land)
            c.op("   land %.17g %.17g", p.x, p.y);
        std::vector<char> in(s.pts.size(), 0);
        for (int i = 0; i < n; ++i)
            in[s.start[k] + i] = (ga == 0 && gb == 0) || (a <= b ? i >= a && i <= b : i >= a || i <= b);
        GL g(s.pts), lg(land);
        OK(c, "polygon_snap_to_landboundary", mkernel_polygon_snap_to_landboundary(s.id, lg(), g(), ga, gb));
        auto got = g.pts();
        const double scale = s.me.proj ? D2R * R * s.size : s.size;
        for (size_t i = 0; i < s.pts.size(); ++i)
        {
            c.evals++;
            if (!in[i])
            {
                if (!(got[i] == s.pts[i]))
                    c.fail("snap:other", "point %zu outside the range moved from %.15g %.15g to %.15g %.15g", i, s.pts[i].x, s.pts[i].y, got[i].x, got[i].y);
                continue;
            }
            double best = 1e300, on = 1e300;
            for (auto& [p, q] : segs)
                best = std::min(best, s.me.toSeg(s.pts[i], p, q)), on = std::min(on, s.me.toSeg(got[i], p, q));
            const double tol = s.me.proj ? 2e-3 * (best + 0.1 * scale) : 1e-8 * (scale + norm(s.ctr) + best);
            double moved = s.me.len(s.pts[i], got[i]);
            if (!(on <= tol))
                c.fail("snap:off", "point %zu snapped to %.15g %.15g which is %g from the land boundary", i, got[i].x, got[i].y, on);
            if (!(std::abs(moved - best) <= tol))
                c.fail("snap:nearest", "point %zu moved by %.12g to %.15g %.15g, the land boundary is at %.12g", i, moved, got[i].x, got[i].y, best);
        }
        c.count("snap");
        c.observed(hashPts(got));
    }

    void runCase(Ctx& c)
    {
        switch (c.rng.i(0, 3))
        {
        case 0:
            return refine(c);
        case 1:
            return linear(c);
        case 2:
            return offset(c);
        default:
            return snap(c);
        }
    }
    Reg r23("C23", runCase, 88000, 800000);
} // namespace
