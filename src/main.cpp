#include "core.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check();
#endif

std::map<std::string, PropDef>& registry()
{
    static std::map<std::string, PropDef> r;
    return r;
}

// memory mapped progress record: survives a crash of this process
struct Progress
{
    volatile uint64_t caseId;
    volatile uint64_t inCase;
    volatile uint64_t done;
    char trace[65536];
};
static Progress* prog = nullptr;
static FILE* outFile = nullptr;

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r;
}

void Ctx::op(const char* fmt, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (verbose)
        fprintf(stderr, "  op %s\n", buf);
    if (trace.size() < 60000)
    {
        trace += buf;
        trace += '\n';
    }
    if (prog)
    {
        size_t n = std::min(trace.size(), sizeof(prog->trace) - 1);
        size_t k = strlen(buf) + 1;
        size_t from = trace.size() > n ? 0 : (trace.size() >= k ? trace.size() - k : 0);
        if (trace.size() <= n)
        {
            memcpy(prog->trace + from, trace.data() + from, trace.size() - from);
            prog->trace[trace.size()] = 0;
        }
    }
}

void Ctx::fail(const std::string& key, const char* fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    cnt["violations"]++;
    fprintf(outFile ? outFile : stdout, "{\"type\":\"viol\",\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\",\"trace\":\"%s\"}\n",
            (unsigned long long)caseId, jesc(key).c_str(), jesc(buf).c_str(), jesc(trace.size() > 6000 ? trace.substr(trace.size() - 6000) : trace).c_str());
    fflush(outFile ? outFile : stdout);
    if (verbose)
        fprintf(stderr, "VIOL case=%llu key=%s : %s\n", (unsigned long long)caseId, key.c_str(), buf);
    throw CaseAbort{};
}

std::string lastError()
{
    char buf[2048];
    memset(buf, 0, sizeof buf);
    mk::mkernel_get_error(buf);
    buf[sizeof buf - 1] = 0;
    return buf;
}

static uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b);
    r.next();
    return r.next();
}

int main(int argc, char** argv)
{
    std::string prop, out, progPath, tier = "quick";
    uint64_t seed = 1, from = 0, step = 1, to = 0;
    bool verbose = false;
    for (int a = 1; a < argc; ++a)
    {
        std::string s = argv[a];
        auto nx = [&]
        { return std::string(a + 1 < argc ? argv[++a] : ""); };
        if (s == "--prop")
            prop = nx();
        else if (s == "--seed")
            seed = std::stoull(nx());
        else if (s == "--from")
            from = std::stoull(nx());
        else if (s == "--step")
            step = std::stoull(nx());
        else if (s == "--to")
            to = std::stoull(nx());
        else if (s == "--out")
            out = nx();
        else if (s == "--prog")
            progPath = nx();
        else if (s == "--tier")
            tier = nx();
        else if (s == "-v")
            verbose = true;
        else if (s == "--leakprobe")
        {
#if defined(__SANITIZE_ADDRESS__)
            __lsan_do_recoverable_leak_check();
#endif
            _exit(42);
        }
        else if (s == "--list")
        {
            for (auto& [k, d] : registry())
                printf("%s %d %d\n", k.c_str(), d.quickCases, d.thoroughCases);
            return 0;
        }
    }
    auto it = registry().find(prop);
    if (it == registry().end())
    {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 3;
    }
    if (!out.empty())
        outFile = fopen(out.c_str(), "a");
    if (!progPath.empty())
    {
        int fd = open(progPath.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0)
            return 3;
        prog = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (prog == MAP_FAILED)
            return 3;
    }
    if (to == 0)
        to = tier == "thorough" ? it->second.thoroughCases : it->second.quickCases;
    Ctx ctx;
    ctx.prop = prop;
    ctx.seed = seed;
    ctx.thorough = tier == "thorough";
    ctx.verbose = verbose;
    uint64_t ph = 0;
    for (char c : prop)
        ph = ph * 131 + static_cast<unsigned char>(c);
    for (uint64_t c = from; c < to; c += step)
    {
        ctx.caseId = c;
        ctx.trace.clear();
        ctx.rng = Rng(mix(mix(seed, ph), c));
        if (prog)
        {
            prog->trace[0] = 0;
            prog->caseId = c;
            prog->inCase = 1;
        }
        if (verbose)
            fprintf(stderr, "case %llu\n", (unsigned long long)c);
        try
        {
            it->second.fn(ctx);
            ctx.cnt["cases_completed"]++;
        }
        catch (const CaseAbort&)
        {
        }
        catch (const CaseSkip&)
        {
        }
        if (ctx.samples.size() < 2 && ctx.trace.size() > 40)
            ctx.samples.push_back("case " + std::to_string(c) + ": " + ctx.trace.substr(0, 1500));
        if (prog)
            prog->inCase = 0;
    }
    FILE* f = outFile ? outFile : stdout;
    fprintf(f, "{\"type\":\"stats\",\"evals\":%lld,\"counters\":{", ctx.evals);
    bool first = true;
    for (auto& [k, v] : ctx.cnt)
    {
        fprintf(f, "%s\"%s\":%lld", first ? "" : ",", jesc(k).c_str(), v);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < ctx.samples.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? "," : "", jesc(ctx.samples[i]).c_str());
    fprintf(f, "],\"distinct\":[");
    first = true;
    for (auto h : ctx.distinct)
    {
        fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
        first = false;
    }
    fprintf(f, "]}\n");
    fflush(f);
    if (prog)
        prog->done = 1;
    // skip static destructors: the verdict is complete
    _exit(0);
}
