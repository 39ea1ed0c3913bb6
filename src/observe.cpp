#include "core.hpp"
using namespace mk;

template <class T>
static T* buf(std::vector<T>& v) { return v.data(); }

int obsMesh2d(int id, M2& o)
{
    Mesh2D d{};
    int rc = mkernel_mesh2d_get_dimensions(id, d);
    if (rc)
        return rc;
    o = M2{};
    o.nx.assign(d.num_nodes, 0);
    o.ny.assign(d.num_nodes, 0);
    o.en.assign(2 * d.num_edges, 0);
    o.ef.assign(2 * d.num_edges, 0);
    o.ex.assign(d.num_edges, 0);
    o.ey.assign(d.num_edges, 0);
    o.npf.assign(d.num_faces, 0);
    o.fx.assign(d.num_faces, 0);
    o.fy.assign(d.num_faces, 0);
    o.fn.assign(d.num_face_nodes, 0);
    o.fe.assign(d.num_face_nodes, 0);
    d.node_x = buf(o.nx);
    d.node_y = buf(o.ny);
    d.edge_nodes = buf(o.en);
    d.edge_faces = buf(o.ef);
    d.edge_x = buf(o.ex);
    d.edge_y = buf(o.ey);
    d.nodes_per_face = buf(o.npf);
    d.face_x = buf(o.fx);
    d.face_y = buf(o.fy);
    d.face_nodes = buf(o.fn);
    d.face_edges = buf(o.fe);
    rc = mkernel_mesh2d_get_data(id, d);
    if (rc)
        return rc;
    o.nValidNodes = d.num_valid_nodes;
    o.nValidEdges = d.num_valid_edges;
    return 0;
}

M2 M2::compact() const
{
    M2 r;
    std::vector<int> nm(nx.size(), -1), em(en.size() / 2, -1);
    for (int n = 0; n < numNodes(); ++n)
        if (nodeValid(n))
        {
            nm[n] = r.numNodes();
            r.nx.push_back(nx[n]);
            r.ny.push_back(ny[n]);
        }
    for (int e = 0; e < numEdges(); ++e)
        if (edgeValid(e))
        {
            em[e] = r.numEdges();
            r.en.push_back(nm[en[2 * e]]);
            r.en.push_back(nm[en[2 * e + 1]]);
            r.ef.push_back(ef[2 * e]);
            r.ef.push_back(ef[2 * e + 1]);
            r.ex.push_back(ex[e]);
            r.ey.push_back(ey[e]);
        }
    r.npf = npf;
    r.fx = fx;
    r.fy = fy;
    for (int n : fn)
        r.fn.push_back(n >= 0 && n < numNodes() ? nm[n] : -2);
    for (int e : fe)
        r.fe.push_back(e >= 0 && e < numEdges() ? em[e] : -2);
    r.nValidNodes = nValidNodes;
    r.nValidEdges = nValidEdges;
    return r;
}

uint64_t M2::hash() const
{
    Hash h;
    h.vec(nx).vec(ny).vec(en).vec(fn);
    return h.h;
}

int obsMesh1d(int id, M1& o)
{
    Mesh1D d{};
    d.num_nodes = d.num_edges = d.num_valid_nodes = d.num_valid_edges = 0;
    int rc = mkernel_mesh1d_get_dimensions(id, d);
    if (rc)
        return rc;
    o = M1{};
    o.nx.assign(d.num_nodes, 0);
    o.ny.assign(d.num_nodes, 0);
    o.en.assign(2 * d.num_edges, 0);
    d.node_x = buf(o.nx);
    d.node_y = buf(o.ny);
    d.edge_nodes = buf(o.en);
    return mkernel_mesh1d_get_data(id, d);
}
M1 M1::compact() const
{
    M1 r;
    std::vector<int> nm(nx.size(), -1);
    for (int n = 0; n < numNodes(); ++n)
        if (nx[n] != MISSING && ny[n] != MISSING)
        {
            nm[n] = r.numNodes();
            r.nx.push_back(nx[n]);
            r.ny.push_back(ny[n]);
        }
    for (int e = 0; e < numEdges(); ++e)
    {
        int a = en[2 * e], b = en[2 * e + 1];
        if (a >= 0 && b >= 0 && a < numNodes() && b < numNodes() && nm[a] >= 0 && nm[b] >= 0)
        {
            r.en.push_back(nm[a]);
            r.en.push_back(nm[b]);
        }
    }
    return r;
}

int obsCurvi(int id, CG& o)
{
    CurvilinearGrid d{};
    int rc = mkernel_curvilinear_get_dimensions(id, d);
    if (rc)
        return rc;
    o = CG{};
    o.m = d.num_m;
    o.n = d.num_n;
    if (d.num_m <= 0 || d.num_n <= 0)
        return 0;
    o.x.assign(static_cast<size_t>(d.num_m) * d.num_n, 0);
    o.y.assign(static_cast<size_t>(d.num_m) * d.num_n, 0);
    d.node_x = buf(o.x);
    d.node_y = buf(o.y);
    return mkernel_curvilinear_get_data(id, d);
}

int obsContacts(int id, CT& o)
{
    Contacts c{};
    c.num_contacts = 0;
    int rc = mkernel_contacts_get_dimensions(id, c);
    if (rc)
        return rc;
    o = CT{};
    o.i1.assign(c.num_contacts, 0);
    o.i2.assign(c.num_contacts, 0);
    c.mesh1d_indices = buf(o.i1);
    c.mesh2d_indices = buf(o.i2);
    return mkernel_contacts_get_data(id, c);
}

static void canon(std::vector<double>& v)
{
    for (auto& d : v)
        if (std::isnan(d))
            d = 1.2345e301; // NaN compares equal to NaN
}

Snap snap(int id)
{
    Snap s;
    M2 m;
    s.rc = obsMesh2d(id, m);
    s.m2 = m.compact();
    M1 a;
    int rc = obsMesh1d(id, a);
    if (!s.rc)
        s.rc = rc;
    s.m1 = a.compact();
    rc = obsCurvi(id, s.cg);
    if (!s.rc)
        s.rc = rc;
    rc = obsContacts(id, s.ct);
    if (!s.rc)
        s.rc = rc;
    for (auto* v : {&s.m2.nx, &s.m2.ny, &s.m2.ex, &s.m2.ey, &s.m2.fx, &s.m2.fy, &s.m1.nx, &s.m1.ny, &s.cg.x, &s.cg.y})
        canon(*v);
    rc = mkernel_get_projection(id, s.projection);
    if (!s.rc)
        s.rc = rc;
    return s;
}

uint64_t Snap::hash() const
{
    Hash h;
    h.add(m2.hash()).vec(m1.nx).vec(m1.ny).vec(m1.en).vec(cg.x).vec(cg.y).add(cg.m).vec(ct.i1).vec(ct.i2).add(projection);
    return h.h;
}

template <class T>
static void cmp(std::string& r, const char* what, const std::vector<T>& a, const std::vector<T>& b)
{
    if (a == b)
        return;
    char bb[200];
    if (a.size() != b.size())
        snprintf(bb, sizeof bb, " %s: size %zu vs %zu;", what, a.size(), b.size());
    else
    {
        size_t i = 0, n = 0;
        for (size_t k = 0; k < a.size(); ++k)
            if (!(a[k] == b[k]))
            {
                if (!n)
                    i = k;
                n++;
            }
        snprintf(bb, sizeof bb, " %s: %zu of %zu differ, first [%zu] %.17g vs %.17g;", what, n, a.size(), i, (double)a[i], (double)b[i]);
    }
    r += bb;
}

std::string Snap::diff(const Snap& o) const
{
    std::string r;
    cmp(r, "mesh2d.node_x", m2.nx, o.m2.nx);
    cmp(r, "mesh2d.node_y", m2.ny, o.m2.ny);
    cmp(r, "mesh2d.edge_nodes", m2.en, o.m2.en);
    cmp(r, "mesh2d.edge_faces", m2.ef, o.m2.ef);
    cmp(r, "mesh2d.nodes_per_face", m2.npf, o.m2.npf);
    cmp(r, "mesh2d.face_nodes", m2.fn, o.m2.fn);
    cmp(r, "mesh2d.face_edges", m2.fe, o.m2.fe);
    cmp(r, "mesh2d.edge_x", m2.ex, o.m2.ex);
    cmp(r, "mesh2d.edge_y", m2.ey, o.m2.ey);
    cmp(r, "mesh2d.face_x", m2.fx, o.m2.fx);
    cmp(r, "mesh2d.face_y", m2.fy, o.m2.fy);
    if (m2.nValidNodes != o.m2.nValidNodes)
        r += " mesh2d.num_valid_nodes;";
    if (m2.nValidEdges != o.m2.nValidEdges)
        r += " mesh2d.num_valid_edges;";
    cmp(r, "mesh1d.node_x", m1.nx, o.m1.nx);
    cmp(r, "mesh1d.node_y", m1.ny, o.m1.ny);
    cmp(r, "mesh1d.edge_nodes", m1.en, o.m1.en);
    if (cg.m != o.cg.m || cg.n != o.cg.n)
        r += " curvilinear dims " + std::to_string(cg.m) + "x" + std::to_string(cg.n) + " vs " + std::to_string(o.cg.m) + "x" + std::to_string(o.cg.n) + ";";
    cmp(r, "curvilinear.x", cg.x, o.cg.x);
    cmp(r, "curvilinear.y", cg.y, o.cg.y);
    cmp(r, "contacts.1d", ct.i1, o.ct.i1);
    cmp(r, "contacts.2d", ct.i2, o.ct.i2);
    if (projection != o.projection)
        r += " projection " + std::to_string(projection) + " vs " + std::to_string(o.projection) + ";";
    if (rc != o.rc)
        r += " exit codes " + std::to_string(rc) + " vs " + std::to_string(o.rc) + ";";
    return r;
}
