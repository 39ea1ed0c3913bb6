// Calls any exported function with random, generally hostile but memory-wise honest arguments:
// pointers address buffers that are large enough, array lengths are the true ones.
#pragma once
#include "ops.hpp"

struct ApiFn
{
    std::string name; // without the mkernel_ prefix
    std::vector<std::string> params;
    bool hasId = false;
    std::function<int(struct Fuzz&)> call;
};
struct Fuzz
{
    Env& e;
    int id;               // kernel id to use
    double hostile = 0.3; // probability that an argument is chosen absurd
    bool plain = false;   // simplest legal arguments
    const ApiFn* fn = nullptr;
    size_t arg = 0;
    Fuzz(Env& env, int id_) : e(env), id(id_) {}
    const std::string& pname() const { return fn->params[arg]; }
};
const std::vector<ApiFn>& allApi();
int fuzzCall(Fuzz& f, const ApiFn& fn);
inline bool isQuery(const std::string& n)
{
    return n.find("_get_") != std::string::npos || n.find("_count_") != std::string::npos || n.find("interpolation") != std::string::npos ||
           n.find("compute_smoothness") != std::string::npos || n.find("compute_curvature") != std::string::npos || n.find("intersections") != std::string::npos ||
           n.rfind("get_", 0) == 0 || n.rfind("polygon_", 0) == 0 || n.rfind("splines_", 0) == 0 || n.find("derefinement_elements") != std::string::npos;
}
