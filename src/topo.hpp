// Independent view of the exported 2D mesh: consistency of the tables and the planar subdivision its edges define.
#pragma once
#include "core.hpp"

// structural consistency of all exported arrays; fails the case on an inconsistency. cart: also geometry
void checkTables(Ctx& c, const M2& m, const std::string& after, bool cart, bool planar = false);

struct Planar
{
    bool usable = false;                   // no crossing or overlapping edges, no nearly degenerate angles
    std::vector<std::vector<int>> regions; // node cycles of bounded regions with 3..6 distinct nodes, counter clockwise
    std::vector<bool> shares;              // shares two or more edges with one other region
};
// m must be compact
Planar planarRegions(const M2& m);
bool segCross(P2 a, P2 b, P2 c, P2 d, double eps); // proper crossing or touching closer than eps, shared end points excluded by caller
double distSegSeg(P2 a, P2 b, P2 c, P2 d);
std::vector<int> canon(std::vector<int> f); // rotated so that the smallest node comes first
P2 centroid(const std::vector<P2>& poly, double* area = nullptr);
std::vector<P2> facePoly(const M2& m, const std::vector<int>& f);
// representative point of a face as used by the library for nearest face and deletion: circumcentre, kept inside the face.
// false if it is not known (the library uses an iteration for other faces than triangles)
bool faceCentre(const M2& m, const std::vector<int>& f, const std::vector<int>& fe, P2& res);
bool convexFace(const M2& m, const std::vector<int>& f);
bool segProper(P2 a, P2 b, P2 c, P2 d); // proper crossing
