// Catalogue of API operations with random, mostly valid, arguments.
#pragma once
#include "gen.hpp"

struct Env
{
    Ctx& c;
    Rng& r;
    int id;
    M2 m2; // raw (with invalid nodes), as last observed
    M1 m1;
    CG cg;
    int projection = 0;
    bool lazy = false; // do not read the mesh after an operation (reading it updates its tables)
    bool wild = false; // also geometrically absurd arguments
    Env(Ctx& ctx, int id_) : c(ctx), r(ctx.rng), id(id_) {}
    void refresh();
    int rndNode();  // a valid node or -1
    int rndEdge();  // a valid edge or -1
    bool hasMesh() const { return m2.nValidEdges > 0; }
    bool hasGrid() const { return cg.m >= 2 && cg.n >= 2; }
    double cell() const;
};

enum OpKind
{
    Tracked = 1,   // successful call must be undoable
    Mesh2 = 2,
    Mesh1 = 4,
    Curvi = 8,
    Cont = 16,
    Session = 32,  // several API calls forming one interactive session
    Geo = 64,      // changes only coordinates of the 2D mesh
};
struct OpDef
{
    const char* name;
    int kind;
    bool (*applies)(const Env&);
    int (*run)(Env&); // exit code of the (last) call
};
const std::vector<OpDef>& allOps();
int allocate(int projection);
// one random applicable operation of the given kinds; refreshes e. Returns the operation that succeeded, or null.
const OpDef* randomStep(Env& e, int kindMask, const std::set<std::string>& exclude = {});
// fresh kernel with a mesh built by a random history of Mesh2 operations; Cartesian unless projection given
Env meshByHistory(Ctx& c, int steps, int projection = 0, const std::set<std::string>& exclude = {}, bool undoRedo = true);
