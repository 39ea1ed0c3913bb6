// Input generators: meshes, polygons, samples, grids, splines.
#pragma once
#include "core.hpp"

struct RawMesh
{
    std::vector<P2> nodes;
    std::vector<std::array<int, 2>> edges;
    std::vector<std::vector<int>> faces; // counter clockwise node loops the generator intended
};

struct GenOpt
{
    int minN = 2, maxN = 6;      // cells per direction
    double h = 10.0;             // cell size
    double perturb = 0.2;        // relative node perturbation
    double triProb = 0.3;        // probability a quad is split
    double holeProb = 0.1;       // probability a cell is removed
    bool shuffle = true;         // permute node and edge numbering and edge direction
    P2 origin{0, 0};
    bool randomAffine = true;    // rotate/shear a bit
    double blocks2Prob = 0.0;    // add a second disconnected block
};
RawMesh genMesh(Rng& r, const GenOpt& o = {});
int setMesh2d(int id, const RawMesh& m, bool withFaces = false);
int addMesh2d(int id, const RawMesh& m);
int setMesh1d(int id, const std::vector<P2>& nodes, const std::vector<std::array<int, 2>>& edges);
int setCurvi(int id, const CG& g);
CG genCurvi(Rng& r, int minN, int maxN, double h, double perturb, P2 origin = {0, 0});

// simple (star shaped around its centre) closed ring, counter clockwise; first point repeated at the end
std::vector<P2> starPolygon(Rng& r, P2 c, double rmin, double rmax, int n);
std::vector<P2> rectPolygon(double x0, double y0, double x1, double y1);
void reverseRing(std::vector<P2>& p);

struct Box
{
    double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
    void add(P2 p)
    {
        x0 = std::min(x0, p.x);
        y0 = std::min(y0, p.y);
        x1 = std::max(x1, p.x);
        y1 = std::max(y1, p.y);
    }
    P2 rnd(Rng& r, double margin = 0.0) const
    {
        double mx = margin * (x1 - x0), my = margin * (y1 - y0);
        return {r.d(x0 - mx, x1 + mx), r.d(y0 - my, y1 + my)};
    }
    P2 c() const { return {(x0 + x1) / 2, (y0 + y1) / 2}; }
    double w() const { return x1 - x0; }
    double ht() const { return y1 - y0; }
    double diag() const { return std::hypot(w(), ht()); }
};
Box boxOf(const M2& m);
Box boxOf(const CG& m);
Box boxOf(const std::vector<P2>& p);

// A random selection polygon relative to a box: empty, rectangle, star, several rings, ring with a hole
struct PolySet
{
    // each element: outer ring followed by hole rings; rings closed
    std::vector<std::vector<std::vector<P2>>> enc;
    GL list() const;
    bool empty() const { return enc.empty(); }
};
PolySet genPolySet(Rng& r, const Box& b, bool allowHoles = true, bool allowMany = true);

// -1 within eps of an edge of any ring (ambiguous), 0 outside, 1 inside
int insideRing(const std::vector<P2>& ring, P2 p, double eps);
int insideSet(const PolySet& s, P2 p, double eps);
double distPointSeg(P2 p, P2 a, P2 b);

GL genSamples(Rng& r, const Box& b, int n, double lo, double hi);
// rectilinear "skyline" ring on a lattice of the box: many collinear and axis parallel sides
std::vector<P2> skylinePolygon(Rng& r, const Box& b, double step);
// selection on lattice coordinates
PolySet genLatticePolySet(Rng& r, const Box& b, double step);
RawMesh latticeMesh(Rng& r, int nx, int ny, double h, P2 o, double triProb, double dropProb);
