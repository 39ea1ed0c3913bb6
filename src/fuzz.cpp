#include "fuzz.hpp"
#include <tuple>
using namespace mk;

namespace
{
    constexpr size_t BIG = 300000;
    std::vector<int>& ibuf(int k)
    {
        static std::vector<int> b[12];
        if (b[k].empty())
            b[k].assign(BIG, 0);
        return b[k];
    }
    std::vector<double>& dbuf(int k)
    {
        static std::vector<double> b[16];
        if (b[k].empty())
            b[k].assign(BIG, 0.0);
        return b[k];
    }
    bool has(const std::string& s, const char* p)
    {
        auto low = [](std::string q)
        { for (auto& ch : q) ch = char(tolower(ch)); return q; };
        return low(s).find(low(p)) != std::string::npos;
    }
    Box area(Fuzz& f)
    {
        Box b;
        if (f.e.hasMesh())
            b = boxOf(f.e.m2);
        else if (f.e.hasGrid())
            b = boxOf(f.e.cg);
        if (!(b.x1 > b.x0) || !(b.y1 > b.y0) || !(b.diag() < 1e6) || !(std::abs(b.x0) + std::abs(b.y0) < 1e7))
        {
            b = Box{};
            b.add({0, 0});
            b.add({50, 50});
        }
        return b;
    }
    double cellSize(Fuzz& f)
    {
        double h = f.e.hasMesh() ? std::max(1e-3, f.e.cell()) : 10.0;
        return h < 1e6 ? h : 10.0;
    }
    bool sane(const P2& p) { return std::abs(p.x) + std::abs(p.y) < 1e7; }
    P2 coord(Fuzz& f)
    {
        Rng& r = f.e.r;
        if (!f.plain && r.p(0.1 * f.hostile))
            return r.p(0.5) ? P2{MISSING, MISSING} : P2{1e8 * r.d(-1, 1), 1e8};
        double u = r.u();
        if (u < 0.25 && f.e.hasMesh())
        {
            int n = f.e.rndNode();
            if (n >= 0 && sane(f.e.m2.node(n)))
                return f.e.m2.node(n);
        }
        if (u < 0.5 && f.e.hasGrid())
        {
            int n = r.i(0, f.e.cg.n - 1), m = r.i(0, f.e.cg.m - 1);
            if (f.e.cg.valid(n, m) && sane(f.e.cg.at(n, m)))
                return f.e.cg.at(n, m);
        }
        return area(f).rnd(r, 0.3);
    }
    double scalar(Fuzz& f)
    {
        Rng& r = f.e.r;
        const std::string& n = f.pname();
        double h = cellSize(f);
        if (f.plain)
            return h;
        bool bad = r.p(f.hostile);
        if (has(n, "angle") || has(n, "theta"))
            return bad ? r.d(-1000, 1000) : r.d(-90, 90);
        if (has(n, "fraction") || has(n, "factor") || has(n, "parameter") || has(n, "threshold"))
            return bad ? (r.p(0.3) ? -1.0 : r.p(0.5) ? 0.0 : 50.0) : r.d(0, 1.5);
        if (has(n, "relative"))
            return bad ? (r.p(0.5) ? 0.0 : -1.0) : r.d(0.5, 2);
        if (has(n, "radius") || has(n, "distance") || has(n, "size") || has(n, "length") || has(n, "offset"))
            return bad ? (r.p(0.3) ? -h : r.p(0.5) ? 0.0 : 1e7) : h * r.d(0.3, 4);
        if (has(n, "min") || has(n, "max"))
            return r.d(-0.2, 1.2);
        if (has(n, "lowerleft") || has(n, "upperright"))
        {
            Box b = area(f);
            bool x = n[0] == 'x' || has(n, "X");
            if (bad)
            {
                P2 q = b.rnd(r, 0.5);
                return x ? q.x : q.y;
            }
            if (has(f.fn->name, "curvilinear"))
            {
                P2 q = coord(f);
                return x ? q.x : q.y;
            }
            double m = b.diag();
            return has(n, "lower") ? (x ? b.x0 - m : b.y0 - m) : (x ? b.x1 + m : b.y1 + m);
        }
        P2 q = coord(f);
        return n[0] == 'y' || has(n, "Y") ? q.y : q.x;
    }
    int integer(Fuzz& f)
    {
        Rng& r = f.e.r;
        const std::string& n = f.pname();
        if (n == "meshKernelId")
            return f.id;
        if (f.plain)
            return 1;
        bool bad = r.p(f.hostile);
        if (has(n, "node") && !has(n, "num") || has(n, "index"))
        {
            int top = has(n, "edge") ? f.e.m2.numEdges() : has(n, "node") ? f.e.m2.numNodes() : 8;
            if (has(f.fn->name, "polygon") || has(f.fn->name, "spline") || has(f.fn->name, "transfinite"))
                top = r.i(3, 12);
            if (bad)
            {
                static const int w[] = {-1, -2, -1000, 0, 1000000, 2147483647, -2147483647 - 1};
                int k = r.i(0, 8);
                return k < 7 ? w[k] : top + k - 7;
            }
            return r.i(0, std::max(0, top - 1));
        }
        if (has(n, "lowerLeft") || has(n, "upperRight"))
            return bad ? r.i(-3, 12) : r.i(0, 6);
        if (has(n, "projectionType"))
            return r.i(-1, 3);
        if (has(n, "type") || has(n, "method") || has(n, "option") || has(n, "direction"))
            return bad ? r.i(-2, 9) : r.i(0, 3);
        if (has(n, "size"))
            return r.i(0, 6);
        return bad ? r.i(-3, 12) : r.i(0, 4);
    }
    GL geometry(Fuzz& f)
    {
        Rng& r = f.e.r;
        GL g;
        if (f.plain)
            return g;
        Box b = area(f);
        double h = cellSize(f);
        double u = r.u();
        auto sep = [&](double s)
        { g.add({s, s}, s); };
        bool spl = has(f.fn->name, "spline") || has(f.pname(), "land") || has(f.pname(), "polyline");
        if (has(f.fn->name, "orthogonal_grid_from_splines"))
        {
            // centre lines with several points crossed by straight lines of two points
            int nc = r.i(1, 2), nx = r.i(2, 3);
            for (int l = 0; l < nc; ++l)
            {
                if (l)
                    sep(MISSING);
                int n = r.i(3, 6);
                double o = (l + 0.5) / nc;
                for (int i = 0; i < n; ++i)
                    g.add({b.x0 + b.w() * i / (n - 1), b.y0 + b.ht() * (o + r.d(-0.08, 0.08) / nc)});
            }
            for (int l = 0; l < nx; ++l)
            {
                sep(MISSING);
                double q = b.x0 + b.w() * (l + 0.5 + r.d(-0.3, 0.3)) / nx;
                g.add({q, b.y0 - 0.1 * b.ht()});
                g.add({q + b.w() * r.d(-0.05, 0.05), b.y1 + 0.1 * b.ht()});
            }
            return g;
        }
        if (u < 0.1)
            return g;
        if (u < 0.15)
        {
            g.add(coord(f), r.d(-5, 50));
            return g;
        }
        if (u < 0.5 && !spl)
        {
            if (has(f.pname(), "sample"))
                return genSamples(r, b, r.i(1, 40), -20, 60);
            return genPolySet(r, b, r.p(0.5), r.p(0.5)).list();
        }
        if (r.p(f.hostile) && r.p(0.4))
        {
            // malformed: separators anywhere, repeated points, open rings
            int n = r.i(1, 14);
            P2 last = coord(f);
            for (int i = 0; i < n; ++i)
            {
                int k = r.i(0, 9);
                if (k == 0)
                    sep(MISSING);
                else if (k == 1)
                    sep(INNER_SEP);
                else
                {
                    if (k != 2)
                        last = coord(f);
                    g.add(last, r.p(0.1) ? MISSING : r.d(-20, 60));
                }
            }
            return g;
        }
        int lines = r.i(1, spl ? 5 : 2);
        bool cross = spl && r.p(0.6);
        for (int l = 0; l < lines; ++l)
        {
            if (l)
                sep(MISSING);
            int n = r.i(spl ? 2 : 4, 7);
            if (cross)
            {
                bool hor = l % 2 == 0;
                double o = r.d(0.1, 0.9);
                for (int i = 0; i < n; ++i)
                {
                    double t = double(i) / (n - 1), w = r.d(-0.05, 0.05);
                    g.add(hor ? P2{b.x0 + t * b.w(), b.y0 + (o + w) * b.ht()} : P2{b.x0 + (o + w) * b.w(), b.y0 + t * b.ht()});
                }
            }
            else
            {
                P2 p = b.rnd(r, 0.2);
                P2 first = p;
                double a = r.d(0, 6.3);
                for (int i = 0; i < n; ++i)
                {
                    g.add(p, r.d(-20, 60));
                    a += r.d(-1.2, 1.2);
                    p = p + P2{std::cos(a), std::sin(a)} * (h * r.d(0.5, 3));
                }
                if (!spl && r.p(0.7))
                    g.add(first);
            }
        }
        return g;
    }
    template <class T>
    struct Hold;
    template <>
    struct Hold<int>
    {
        int v;
        explicit Hold(Fuzz& f) : v(integer(f)) {}
        int get() { return v; }
    };
    template <>
    struct Hold<size_t>
    {
        size_t v;
        explicit Hold(Fuzz& f) : v(f.plain ? 1 : size_t(f.e.r.i(0, 6))) {}
        size_t get() { return v; }
    };
    template <>
    struct Hold<bool>
    {
        bool v;
        explicit Hold(Fuzz& f) : v(f.e.r.p(0.5)) {}
        bool get() { return v; }
    };
    template <>
    struct Hold<double>
    {
        double v;
        explicit Hold(Fuzz& f) : v(scalar(f))
        {
            // spacing is in metres: millions of 1D nodes on a network in degrees are slow, not endless
            if (f.e.projection && f.fn->name.find("network1d") == 0 && v > 0 && v < 1000)
                v = 1000;
        }
        double get() { return v; }
    };
    template <>
    struct Hold<int&>
    {
        int v = 0;
        explicit Hold(Fuzz&) {}
        int& get() { return v; }
    };
    template <>
    struct Hold<bool&>
    {
        bool v = false;
        explicit Hold(Fuzz&) {}
        bool& get() { return v; }
    };
    template <>
    struct Hold<double&>
    {
        double v = 0;
        explicit Hold(Fuzz&) {}
        double& get() { return v; }
    };
    template <>
    struct Hold<char*>
    {
        std::vector<char> v = std::vector<char>(4096, 0);
        explicit Hold(Fuzz&) {}
        char* get() { return v.data(); }
    };
    template <>
    struct Hold<const char*>
    {
        std::string v;
        explicit Hold(Fuzz& f)
        {
            static const std::vector<std::string> z{"+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31", "+proj=utm +zone=10", "", "garbage", "+proj=utm +zone=99"};
            v = f.plain ? z[0] : f.e.r.pick(z);
        }
        const char* get() { return v.c_str(); }
    };
    template <>
    struct Hold<int*>
    {
        std::vector<int>& v;
        explicit Hold(Fuzz& f) : v(ibuf(int(std::min<size_t>(f.arg, 11)))) {}
        int* get() { return v.data(); }
    };
    template <>
    struct Hold<const int*>
    {
        std::vector<int>& v;
        explicit Hold(Fuzz& f) : v(ibuf(0))
        {
            for (int i = 0; i < 300; ++i)
                v[i] = f.e.r.p(0.8);
        }
        const int* get() { return v.data(); }
    };
    template <>
    struct Hold<double*>
    {
        std::vector<double>& v;
        explicit Hold(Fuzz& f) : v(dbuf(int(std::min<size_t>(f.arg, 15))))
        {
            for (int i = 0; i < 20; ++i)
                v[i] = f.e.r.p(0.15) ? MISSING : f.e.r.d(0, 50);
        }
        double* get() { return v.data(); }
    };
    struct OutGL
    {
        GeometryList g{};
        OutGL()
        {
            g.geometry_separator = MISSING;
            g.inner_outer_separator = INNER_SEP;
            g.num_coordinates = int(BIG);
            g.coordinates_x = dbuf(13).data();
            g.coordinates_y = dbuf(14).data();
            g.values = dbuf(15).data();
        }
    };
    template <>
    struct Hold<const GeometryList&>
    {
        GL in;
        OutGL out;
        bool isOut;
        explicit Hold(Fuzz& f)
        {
            isOut = f.fn->name.find("_face_polygons") != std::string::npos || f.fn->name.find("get_property") != std::string::npos;
            if (!isOut)
                in = geometry(f);
        }
        const GeometryList& get() { return isOut ? out.g : in(); }
    };
    template <>
    struct Hold<GeometryList&>
    {
        GL in;
        OutGL out;
        bool isIn;
        explicit Hold(Fuzz& f)
        {
            isIn = f.fn->name.find("snap_to_landboundary") != std::string::npos;
            if (isIn)
                in = geometry(f);
        }
        GeometryList& get() { return isIn ? in() : out.g; }
    };
    template <>
    struct Hold<const Mesh2D&>
    {
        std::vector<double> x, y;
        std::vector<int> e;
        Mesh2D d{};
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            GenOpt o;
            o.h = f.e.projection == 0 ? 10 : 0.1;
            o.maxN = 4;
            Box b = area(f);
            P2 q = b.rnd(r, 0.7);
            o.origin = q;
            RawMesh m = genMesh(r, o);
            for (auto& p : m.nodes)
                x.push_back(p.x), y.push_back(p.y);
            for (auto& k : m.edges)
                e.push_back(k[0]), e.push_back(k[1]);
            if (!f.plain && r.p(0.3 * f.hostile) && !x.empty() && !e.empty())
            {
                int k = r.i(0, 4);
                if (k == 0)
                    e[r.i(0, int(e.size()) - 1)] = int(x.size()) + r.i(0, 3);
                if (k == 1)
                    e[r.i(0, int(e.size()) - 1)] = -1;
                if (k == 2)
                    x[r.i(0, int(x.size()) - 1)] = MISSING;
                if (k == 3)
                    x.clear(), y.clear(), e.clear();
                if (k == 4)
                    e.clear();
            }
            d.num_nodes = d.num_valid_nodes = int(x.size());
            d.num_edges = d.num_valid_edges = int(e.size() / 2);
        }
        const Mesh2D& get()
        {
            d.node_x = x.data();
            d.node_y = y.data();
            d.edge_nodes = e.data();
            return d;
        }
    };
    template <>
    struct Hold<Mesh2D&>
    {
        Mesh2D d{};
        explicit Hold(Fuzz&)
        {
            d.edge_faces = ibuf(1).data();
            d.edge_nodes = ibuf(2).data();
            d.face_edges = ibuf(3).data();
            d.face_nodes = ibuf(4).data();
            d.nodes_per_face = ibuf(5).data();
            d.node_x = dbuf(1).data();
            d.node_y = dbuf(2).data();
            d.edge_x = dbuf(3).data();
            d.edge_y = dbuf(4).data();
            d.face_x = dbuf(5).data();
            d.face_y = dbuf(6).data();
        }
        Mesh2D& get() { return d; }
    };
    template <>
    struct Hold<const Mesh1D&>
    {
        std::vector<double> x, y;
        std::vector<int> e;
        Mesh1D d{};
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            int n = f.plain ? 2 : r.i(0, 8);
            for (int i = 0; i < n; ++i)
            {
                P2 q = coord(f);
                x.push_back(q.x);
                y.push_back(q.y);
                if (i)
                    e.push_back(i - 1), e.push_back(i);
            }
            if (!f.plain && r.p(0.3 * f.hostile) && !e.empty())
                e[r.i(0, int(e.size()) - 1)] = r.p(0.5) ? n : -1;
            d.num_nodes = d.num_valid_nodes = n;
            d.num_edges = d.num_valid_edges = int(e.size() / 2);
        }
        const Mesh1D& get()
        {
            d.node_x = x.data();
            d.node_y = y.data();
            d.edge_nodes = e.data();
            return d;
        }
    };
    template <>
    struct Hold<Mesh1D&>
    {
        Mesh1D d{};
        explicit Hold(Fuzz&)
        {
            d.edge_nodes = ibuf(1).data();
            d.node_x = dbuf(1).data();
            d.node_y = dbuf(2).data();
        }
        Mesh1D& get() { return d; }
    };
    template <>
    struct Hold<const Contacts&>
    {
        std::vector<int> a, b;
        Contacts d{};
        explicit Hold(Fuzz& f)
        {
            int n = f.e.r.i(0, 5);
            for (int i = 0; i < n; ++i)
                a.push_back(f.e.r.i(0, 5)), b.push_back(f.e.r.i(0, 5));
            d.num_contacts = n;
        }
        const Contacts& get()
        {
            d.mesh1d_indices = a.data();
            d.mesh2d_indices = b.data();
            return d;
        }
    };
    template <>
    struct Hold<Contacts&>
    {
        Contacts d{};
        explicit Hold(Fuzz&)
        {
            d.mesh1d_indices = ibuf(1).data();
            d.mesh2d_indices = ibuf(2).data();
        }
        Contacts& get() { return d; }
    };
    template <>
    struct Hold<const CurvilinearGrid&>
    {
        CG g;
        CurvilinearGrid d{};
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            g = genCurvi(r, f.plain ? 2 : 0, 6, f.e.projection == 0 ? 10 : 0.1, 0.1, area(f).c());
            if (!f.plain && r.p(f.hostile))
                for (size_t i = 0; i < g.x.size(); ++i)
                    if (r.p(0.3))
                        g.x[i] = g.y[i] = MISSING;
        }
        const CurvilinearGrid& get()
        {
            d.num_m = g.m;
            d.num_n = g.n;
            d.node_x = g.x.data();
            d.node_y = g.y.data();
            return d;
        }
    };
    template <>
    struct Hold<CurvilinearGrid&>
    {
        CurvilinearGrid d{};
        explicit Hold(Fuzz&)
        {
            d.node_x = dbuf(1).data();
            d.node_y = dbuf(2).data();
        }
        CurvilinearGrid& get() { return d; }
    };
    template <>
    struct Hold<const BoundingBox&>
    {
        BoundingBox d{};
        explicit Hold(Fuzz& f)
        {
            Box b = area(f);
            Rng& r = f.e.r;
            double m = b.diag();
            d.xLowerLeft = b.x0 - m * r.d(-0.5, 1);
            d.yLowerLeft = b.y0 - m * r.d(-0.5, 1);
            d.xUpperRight = b.x1 + m * r.d(-0.5, 1);
            d.yUpperRight = b.y1 + m * r.d(-0.5, 1);
        }
        const BoundingBox& get() { return d; }
    };
    template <>
    struct Hold<const GriddedSamples&>
    {
        std::vector<double> x, y;
        std::vector<short> s;
        std::vector<float> fl;
        std::vector<int> iv;
        std::vector<double> dv;
        GriddedSamples d{};
        bool uniform = true;
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            Box b = area(f);
            d.num_x = f.plain ? 3 : r.i(0, 8);
            d.num_y = f.plain ? 3 : r.i(0, 8);
            d.x_origin = b.x0;
            d.y_origin = b.y0;
            d.cell_size = std::max(b.w(), b.ht()) / std::max(1, std::max(d.num_x, d.num_y) - 1);
            uniform = f.plain || r.p(0.5);
            for (int i = 0; i < d.num_x; ++i)
                x.push_back(b.x0 + b.w() * i / std::max(1, d.num_x - 1));
            for (int i = 0; i < d.num_y; ++i)
                y.push_back(b.y0 + b.ht() * i / std::max(1, d.num_y - 1));
            size_t n = size_t(d.num_x) * d.num_y;
            if (has(f.fn->name, "ridges")) // here the coordinates are given per sample
            {
                std::vector<double> u, v;
                for (int i = 0; i < d.num_y; ++i)
                    for (int j = 0; j < d.num_x; ++j)
                        u.push_back(x[j]), v.push_back(y[i]);
                x = u;
                y = v;
            }
            d.value_type = f.plain ? 1 : r.i(0, 3);
            for (size_t i = 0; i < n; ++i)
            {
                double v = r.p(0.1) ? -999 : r.d(-30, 60);
                s.push_back(short(v));
                fl.push_back(float(v));
                iv.push_back(int(v));
                dv.push_back(v);
            }
            if (!f.plain && r.p(0.1 * f.hostile))
                d.value_type = r.i(4, 9);
        }
        const GriddedSamples& get()
        {
            d.x_coordinates = uniform ? nullptr : x.data();
            d.y_coordinates = uniform ? nullptr : y.data();
            // the order of the numeric types is the one the library reports
            int ts = 0, tf = 1, ti = 2, td = 3;
            mkernel_get_interpolation_type_short(ts);
            mkernel_get_interpolation_type_float(tf);
            mkernel_get_interpolation_type_int(ti);
            mkernel_get_interpolation_type_double(td);
            d.values = d.value_type == ts ? (void*)s.data() : d.value_type == tf ? (void*)fl.data() : d.value_type == ti ? (void*)iv.data() : (void*)dv.data();
            return d;
        }
    };
    template <>
    struct Hold<const meshkernel::MakeGridParameters&>
    {
        meshkernel::MakeGridParameters p;
        explicit Hold(Fuzz& f)
        {
            if (f.plain)
                return;
            Rng& r = f.e.r;
            double h = std::max(f.e.projection == 0 ? 10 : 0.1, cellSize(f));
            auto bad = [&] { return r.p(0.15 * f.hostile); };
            p.num_columns = bad() ? r.i(-2, 1) : r.i(1, 6);
            p.num_rows = bad() ? r.i(-2, 1) : r.i(1, 6);
            p.angle = bad() ? 200 : r.p(0.5) ? 0 : r.d(-90, 90);
            P2 q = coord(f);
            p.origin_x = q.x;
            p.origin_y = q.y;
            p.block_size_x = bad() ? (r.p(0.5) ? 0 : -h) : h * r.d(0.5, 3);
            p.block_size_y = bad() ? (r.p(0.5) ? 0 : -h) : h * r.d(0.5, 3);
            p.upper_right_x = q.x + h * r.d(bad() ? -5 : 1, 8);
            p.upper_right_y = q.y + h * r.d(bad() ? -5 : 1, 8);
            p.radius_curvature = bad() ? -5 : r.d(0, 100);
            p.uniform_columns_fraction = bad() ? -1 : r.d(0, 1);
            p.uniform_rows_fraction = bad() ? 3 : r.d(0, 1);
            p.maximum_uniform_size_columns = bad() ? 0 : r.d(0.5, 6);
            p.maximum_uniform_size_rows = bad() ? 0 : r.d(0.5, 6);
        }
        const meshkernel::MakeGridParameters& get() { return p; }
    };
    template <>
    struct Hold<const meshkernel::CurvilinearParameters&>
    {
        meshkernel::CurvilinearParameters p;
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            auto bad = [&] { return !f.plain && r.p(0.15 * f.hostile); };
            p.m_refinement = bad() ? r.i(-2, 0) : r.i(1, 8);
            p.n_refinement = bad() ? r.i(-2, 0) : r.i(1, 8);
            p.smoothing_iterations = bad() ? r.i(-2, 0) : r.i(1, 5);
            p.smoothing_parameter = bad() ? 3 : r.d(0, 1);
            p.attraction_parameter = bad() ? -1 : r.d(0, 1);
        }
        const meshkernel::CurvilinearParameters& get() { return p; }
    };
    template <>
    struct Hold<const meshkernel::SplinesToCurvilinearParameters&>
    {
        meshkernel::SplinesToCurvilinearParameters p;
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            auto bad = [&] { return !f.plain && r.p(0.1 * f.hostile); };
            p.aspect_ratio = bad() ? 0 : r.d(0.2, 1.5);
            p.aspect_ratio_grow_factor = bad() ? -1 : r.d(1, 1.3);
            p.average_width = bad() ? 0 : cellSize(f) * r.d(0.5, 4);
            p.curvature_adapted_grid_spacing = r.i(0, 1);
            p.grow_grid_outside = r.i(0, 1);
            p.maximum_num_faces_in_uniform_part = bad() ? 0 : r.i(1, 6);
            p.check_front_collisions = r.i(0, 1);
            p.remove_skinny_triangles = bad() ? 2 : r.i(0, 1);
        }
        const meshkernel::SplinesToCurvilinearParameters& get() { return p; }
    };
    template <>
    struct Hold<const meshkernel::MeshRefinementParameters&>
    {
        meshkernel::MeshRefinementParameters p;
        explicit Hold(Fuzz& f)
        {
            Rng& r = f.e.r;
            auto bad = [&] { return !f.plain && r.p(0.1 * f.hostile); };
            p.max_num_refinement_iterations = bad() ? r.i(-1, 0) : r.i(1, 2);
            p.refine_intersected = bad() ? 2 : r.i(0, 1);
            p.use_mass_center_when_refining = r.i(0, 1);
            p.min_edge_size = bad() ? 0 : cellSize(f) * r.d(0.2, 1.2) * (f.e.projection ? 1e5 : 1);
            p.refinement_type = bad() ? 5 : r.i(1, 3);
            p.connect_hanging_nodes = bad() ? 3 : r.i(0, 1);
            p.account_for_samples_outside = r.i(0, 1);
            p.smoothing_iterations = bad() ? -1 : r.i(0, 3);
            p.max_courant_time = bad() ? 0 : r.d(1, 200);
            p.directional_refinement = bad() ? 2 : r.i(0, 1);
        }
        const meshkernel::MeshRefinementParameters& get() { return p; }
    };
    struct Ortho
    {
        meshkernel::OrthogonalizationParameters p;
        explicit Ortho(Fuzz& f)
        {
            Rng& r = f.e.r;
            auto bad = [&] { return !f.plain && r.p(0.1 * f.hostile); };
            p.outer_iterations = bad() ? 0 : r.i(1, 2);
            p.boundary_iterations = bad() ? -1 : r.i(1, 4);
            p.inner_iterations = bad() ? 0 : r.i(1, 4);
            p.orthogonalization_to_smoothing_factor = bad() ? 2 : r.d(0, 1);
            p.orthogonalization_to_smoothing_factor_at_boundary = bad() ? -2 : r.d(0, 1);
            p.areal_to_angle_smoothing_factor = bad() ? 2 : r.d(0, 1);
        }
    };
    template <>
    struct Hold<const meshkernel::OrthogonalizationParameters&> : Ortho
    {
        using Ortho::Ortho;
        const meshkernel::OrthogonalizationParameters& get() { return p; }
    };
    template <>
    struct Hold<meshkernel::OrthogonalizationParameters&> : Ortho
    {
        using Ortho::Ortho;
        meshkernel::OrthogonalizationParameters& get() { return p; }
    };

    void show(std::string& s, int v) { s += " " + std::to_string(v); }
    void show(std::string& s, double v)
    {
        char t[40];
        snprintf(t, sizeof t, " %.17g", v);
        s += t;
    }
    void show(std::string& s, const GeometryList& g)
    {
        s += " [";
        if (g.num_coordinates == int(BIG))
            s += "out";
        else
            for (int i = 0; i < g.num_coordinates && i < 40; ++i)
            {
                char t[60];
                snprintf(t, sizeof t, "%.9g,%.9g ", g.coordinates_x[i], g.coordinates_y[i]);
                s += t;
            }
        s += "]";
    }
    void show(std::string& s, const meshkernel::MeshRefinementParameters& p)
    {
        char t[160];
        snprintf(t, sizeof t, " {it %d inter %d mass %d min %g type %d hang %d out %d smooth %d cour %g dir %d}", p.max_num_refinement_iterations, p.refine_intersected, p.use_mass_center_when_refining, p.min_edge_size, p.refinement_type, p.connect_hanging_nodes, p.account_for_samples_outside, p.smoothing_iterations, p.max_courant_time, p.directional_refinement);
        s += t;
    }
    template <class T>
    void show(std::string& s, const T&) { s += " ."; }

    template <class... A>
    std::function<int(Fuzz&)> wrap(int (*fn)(A...))
    {
        return [fn](Fuzz& f)
        {
            f.arg = 0;
            auto next = [&]<class T>()
            {
                Hold<T> h(f);
                ++f.arg;
                return h;
            };
            std::tuple<Hold<A>...> args{next.template operator()<A>()...};
            std::string s;
            std::apply([&](auto&... h)
                       { (show(s, h.get()), ...); }, args);
            f.e.c.op("%s%s", f.fn->name.c_str(), s.c_str());
            return std::apply([&](auto&... h)
                              { return fn(h.get()...); }, args);
        };
    }
} // namespace

const std::vector<ApiFn>& allApi()
{
    static const std::vector<ApiFn> v = []
    {
        std::vector<ApiFn> l;
        auto add = [&](const char* name, const char* params, std::function<int(Fuzz&)> fn)
        {
            ApiFn a;
            a.name = std::string(name).substr(8);
            std::stringstream ss(params);
            for (std::string p; std::getline(ss, p, ',');)
                a.params.push_back(p);
            a.hasId = !a.params.empty() && a.params[0] == "meshKernelId";
            a.call = fn;
            l.push_back(a);
        };
#define API(f, p) add(#f, p, wrap(&f));
#include "api_list.inc"
#undef API
        return l;
    }();
    return v;
}
int fuzzCall(Fuzz& f, const ApiFn& fn)
{
    f.fn = &fn;
    return fn.call(f);
}
