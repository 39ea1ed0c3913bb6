// Core of the monitor binary: PRNG, case context, violation reporting, API observation helpers.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <MeshKernel/Parameters.hpp>
#include <MeshKernelApi/BoundingBox.hpp>
#include <MeshKernelApi/Contacts.hpp>
#include <MeshKernelApi/CurvilinearGrid.hpp>
#include <MeshKernelApi/GeometryList.hpp>
#include <MeshKernelApi/GriddedSamples.hpp>
#include <MeshKernelApi/Mesh1D.hpp>
#include <MeshKernelApi/Mesh2D.hpp>
#include <MeshKernelApi/MeshKernel.hpp>

namespace mk = meshkernelapi;

constexpr double MISSING = -999.0;    // missing value and geometry separator
constexpr double INNER_SEP = -998.0;  // separates an outer ring from its holes

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int i(int lo, int hi) { return hi <= lo ? lo : lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1)); } // inclusive
    double u() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double d(double lo, double hi) { return lo + (hi - lo) * u(); }
    bool p(double prob) { return u() < prob; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct CaseAbort
{
};
struct CaseSkip
{
};

struct P2
{
    double x = 0, y = 0;
    bool operator==(const P2&) const = default;
    P2 operator+(const P2& o) const { return {x + o.x, y + o.y}; }
    P2 operator-(const P2& o) const { return {x - o.x, y - o.y}; }
    P2 operator*(double f) const { return {x * f, y * f}; }
};
inline double cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
inline double dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
inline double norm(P2 a) { return std::hypot(a.x, a.y); }
inline double dist(P2 a, P2 b) { return norm(a - b); }

struct Ctx
{
    std::string prop;
    uint64_t seed = 1;
    uint64_t caseId = 0;
    bool thorough = false;
    bool verbose = false;
    Rng rng;
    std::string trace;                    // operations of the current case
    std::map<std::string, long long> cnt; // what the monitors observed
    std::unordered_set<uint64_t> distinct;
    long long evals = 0;
    std::vector<std::string> samples;

    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void count(const std::string& k, long long n = 1) { cnt[k] += n; }
    // one oracle evaluation on a non-trivial observation identified by hash
    void observed(uint64_t h) { distinct.insert(h); }
    [[noreturn]] void skip()
    {
        cnt["cases_skipped"]++;
        throw CaseSkip{};
    }
};

struct Hash
{
    uint64_t h = 1469598103934665603ull;
    void raw(const void* p, size_t n)
    {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i)
        {
            h ^= c[i];
            h *= 1099511628211ull;
        }
    }
    template <class T>
    Hash& add(const T& v)
    {
        raw(&v, sizeof(v));
        return *this;
    }
    template <class T>
    Hash& vec(const std::vector<T>& v)
    {
        size_t n = v.size();
        raw(&n, sizeof n);
        if (n)
            raw(v.data(), n * sizeof(T));
        return *this;
    }
    Hash& str(const std::string& s)
    {
        raw(s.data(), s.size());
        return *this;
    }
};

using CaseFn = void (*)(Ctx&);
struct PropDef
{
    CaseFn fn;
    int quickCases;
    int thoroughCases;
};
std::map<std::string, PropDef>& registry();
struct Reg
{
    Reg(const char* id, CaseFn f, int q, int t) { registry()[id] = PropDef{f, q, t}; }
};

// ---------------------------------------------------------------- geometry lists
struct GL
{
    std::vector<double> x, y, v;
    mk::GeometryList g{};
    GL() = default;
    GL(const std::vector<P2>& pts) { set(pts); }
    GL(const GL& o) : x(o.x), y(o.y), v(o.v) { sync(); }
    GL& operator=(const GL& o)
    {
        x = o.x;
        y = o.y;
        v = o.v;
        sync();
        return *this;
    }
    explicit GL(size_t n, double fill = 0.0) : x(n, fill), y(n, fill), v(n, fill) { sync(); }
    void set(const std::vector<P2>& pts)
    {
        x.clear();
        y.clear();
        for (auto& q : pts)
        {
            x.push_back(q.x);
            y.push_back(q.y);
        }
        v.assign(x.size(), 0.0);
        sync();
    }
    void add(P2 q, double val = 0.0)
    {
        x.push_back(q.x);
        y.push_back(q.y);
        v.push_back(val);
        sync();
    }
    void sync()
    {
        g.geometry_separator = MISSING;
        g.inner_outer_separator = INNER_SEP;
        g.num_coordinates = static_cast<int>(x.size());
        g.coordinates_x = x.data();
        g.coordinates_y = y.data();
        g.values = v.data();
    }
    size_t size() const { return x.size(); }
    std::vector<P2> pts() const
    {
        std::vector<P2> r;
        for (size_t i = 0; i < x.size(); ++i)
            r.push_back({x[i], y[i]});
        return r;
    }
    mk::GeometryList& operator()()
    {
        sync();
        return g;
    }
};

// ---------------------------------------------------------------- exported 2D mesh
struct M2
{
    std::vector<double> nx, ny;            // nodes, including invalid ones
    std::vector<int> en;                   // edge nodes (2 per edge), -1 if missing
    std::vector<int> ef;                   // edge faces (2 per edge), -1 if none
    std::vector<int> npf, fn, fe;          // nodes per face, face nodes, face edges
    std::vector<double> ex, ey, fx, fy;    // edge centres, face mass centres
    int nValidNodes = 0, nValidEdges = 0;
    bool operator==(const M2&) const = default;

    int numNodes() const { return static_cast<int>(nx.size()); }
    int numEdges() const { return static_cast<int>(en.size() / 2); }
    int numFaces() const { return static_cast<int>(npf.size()); }
    bool nodeValid(int n) const { return n >= 0 && n < numNodes() && nx[n] != MISSING && ny[n] != MISSING; }
    bool edgeValid(int e) const { return nodeValid(en[2 * e]) && nodeValid(en[2 * e + 1]); }
    P2 node(int n) const { return {nx[n], ny[n]}; }
    std::vector<std::vector<int>> faces() const
    {
        std::vector<std::vector<int>> r;
        size_t k = 0;
        for (int c : npf)
        {
            r.emplace_back(fn.begin() + k, fn.begin() + k + c);
            k += c;
        }
        return r;
    }
    std::vector<std::vector<int>> faceEdges() const
    {
        std::vector<std::vector<int>> r;
        size_t k = 0;
        for (int c : npf)
        {
            r.emplace_back(fe.begin() + k, fe.begin() + k + c);
            k += c;
        }
        return r;
    }
    // the same mesh with invalid nodes and edges removed (relative order kept)
    M2 compact() const;
    uint64_t hash() const;
    double faceArea(const std::vector<int>& f) const
    {
        double a = 0;
        for (size_t i = 0; i < f.size(); ++i)
            a += cross(node(f[i]), node(f[(i + 1) % f.size()]));
        return 0.5 * a;
    }
    double totalArea() const
    {
        double a = 0;
        for (auto& f : faces())
            a += std::abs(faceArea(f));
        return a;
    }
};

struct M1
{
    std::vector<double> nx, ny;
    std::vector<int> en;
    bool operator==(const M1&) const = default;
    int numNodes() const { return static_cast<int>(nx.size()); }
    int numEdges() const { return static_cast<int>(en.size() / 2); }
    P2 node(int n) const { return {nx[n], ny[n]}; }
    M1 compact() const;
};
struct CG
{
    int m = 0, n = 0; // num_m columns, num_n rows; node(n,m) at n*m_+m
    std::vector<double> x, y;
    bool operator==(const CG&) const = default;
    P2 at(int in, int im) const { return {x[in * m + im], y[in * m + im]}; }
    bool valid(int in, int im) const { return x[in * m + im] != MISSING && y[in * m + im] != MISSING; }
};
struct CT
{
    std::vector<int> i1, i2;
    bool operator==(const CT&) const = default;
};

// Observers. They return the exit code of the failing call, 0 on success.
int obsMesh2d(int id, M2& out);
int obsMesh1d(int id, M1& out);
int obsCurvi(int id, CG& out);
int obsContacts(int id, CT& out);

// Full observable state of one kernel id
struct Snap
{
    M2 m2; // compacted
    M1 m1; // compacted
    CG cg;
    CT ct;
    int projection = -1;
    int rc = 0; // first failing observer's code
    bool operator==(const Snap& o) const
    {
        // indices and counts exactly; coordinates up to the rounding of adding and subtracting a longitude offset
        auto c = [](const std::vector<double>& a, const std::vector<double>& b, double tol = 1e-11)
        {
            if (a.size() != b.size())
                return false;
            for (size_t i = 0; i < a.size(); ++i)
                if (!(a[i] == b[i]) && !(std::abs(a[i] - b[i]) <= tol * std::max(100.0, std::abs(a[i]))) && !(std::isnan(a[i]) && std::isnan(b[i])))
                    return false;
            return true;
        };
        return projection == o.projection && rc == o.rc && ct == o.ct &&
               m2.en == o.m2.en && m2.ef == o.m2.ef && m2.npf == o.m2.npf && m2.fn == o.m2.fn && m2.fe == o.m2.fe &&
               m2.nValidNodes == o.m2.nValidNodes && m2.nValidEdges == o.m2.nValidEdges &&
               c(m2.nx, o.m2.nx) && c(m2.ny, o.m2.ny) && c(m2.ex, o.m2.ex) && c(m2.ey, o.m2.ey) && c(m2.fx, o.m2.fx, 1e-7) && c(m2.fy, o.m2.fy, 1e-7) &&
               m1.en == o.m1.en && c(m1.nx, o.m1.nx) && c(m1.ny, o.m1.ny) &&
               cg.m == o.cg.m && cg.n == o.cg.n && c(cg.x, o.cg.x) && c(cg.y, o.cg.y);
    }
    std::string diff(const Snap& o) const;
    uint64_t hash() const;
};
Snap snap(int id);

std::string lastError();
inline bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }

// expect success of a call with arguments that are valid: otherwise a violation "unexpected-error"
#define OK(ctx, name, expr)                                                                          \
    do                                                                                               \
    {                                                                                                \
        int rc_ = (expr);                                                                            \
        (ctx).evals++;                                                                               \
        if (rc_ != 0)                                                                                \
            (ctx).fail(std::string("unexpected-error:") + name, "%s returned %d: %s", name, rc_, lastError().c_str()); \
    } while (0)
