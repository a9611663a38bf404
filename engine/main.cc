#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <llvm/Demangle/Demangle.h>

#include <atomic>
#include <chrono>

#include "exec.h"

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Shared {
    std::atomic<int> running;
    std::atomic<int> seq;
    std::atomic<int> stop;
};

static double lastSplit = 0;
static bool isChild = false;

// Hands the older half of the pending states to a new process if there is a
// free slot.
void Engine::maybeSplit()
{
    if (!sh || work.size() < 2)
        return;
    double t = now();
    if (t - lastSplit < 0.02)
        return;
    lastSplit = t;
    int r = sh->running.load();
    if (r >= opt.jobs)
        return;
    if (!sh->running.compare_exchange_strong(r, r + 1))
        return;
    fflush(outf);
    pid_t p = fork();
    if (p < 0) {
        sh->running--;
        return;
    }
    size_t half = work.size() / 2;
    if (p == 0) {
        isChild = true;
        // keep the older half
        work.resize(half);
        outf = fopen((opt.out + ".part." + std::to_string(sh->seq++)).c_str(), "w");
        nPaths = nInfeasible = nError = nUnsupported = nLimit = nForks = nSteps = nAsserts = nAssertSym = nAssertConst = nAssumes = 0;
        reach.clear();
        unsupported.clear();
        nSamples = 0;
        sstats = SolverStats{};
        for (auto *f : funcs)
            f->execs = 0;
        S = nullptr;
        lastSplit = now();
        run();
        finish();
        sh->running--;
        _exit(timedOut ? 9 : 0);
    }
    work.erase(work.begin(), work.begin() + long(half));
}

void Engine::run()
{
    unsigned tick = 0;
    while (!work.empty()) {
        auto st = std::move(work.back());
        work.pop_back();
        S = st.get();
        try {
            for (;;) {
                if (S->T().st.empty()) {
                    // thread finished
                    if (S->cur == 0) {
                        if (S->todo >= entries.size())
                            throw PathEnd{PathEnd::Done, ""};
                        pushFrame(*S, entries[S->todo++], {});
                        continue;
                    }
                    S->T().done = true;
                    schedule(*S, false);
                    continue;
                }
                step(*S);
                if ((++tick & 0x3ff) == 0) {
                    if (S->steps > opt.maxSteps) {
                        // Counts as a violation only if the real code does not end either.
                        violation(*S, "no end in sight", nullptr);
                        throw PathEnd{PathEnd::Limit, "step limit at " + where(*S)};
                    }
                    if (now() > deadline || (sh && sh->stop)) {
                        timedOut = true;
                        S = nullptr;
                        return;
                    }
                    maybeSplit();
                }
            }
        } catch (PathEnd &e) {
            switch (e.kind) {
            case PathEnd::Done:
                nPaths++;
                maxPath = std::max(maxPath, S->steps);
                samplePath(*S);
                break;
            case PathEnd::Infeasible: nInfeasible++; break;
            case PathEnd::Error:
                nError++;
                if (opt.stopAtFirst && sh)
                    sh->stop = 1;
                break;
            case PathEnd::Unsupported:
                nUnsupported++;
                unsupported[e.msg]++;
                break;
            case PathEnd::Limit:
                nLimit++;
                unsupported[e.msg]++;
                // These take long; a few of them tell enough.
                if (nLimit >= 8 || opt.stopAtFirst) {
                    if (sh)
                        sh->stop = 1;
                }
                break;
            }
            S = nullptr;
        }
        if (((++tick & 0xff) == 0 && now() > deadline) || (sh && sh->stop) || nError > 20000) {
            timedOut = true;
            return;
        }
        maybeSplit();
    }
}

void Engine::finish()
{
    auto p = [&](const char *k, u64 v) { fprintf(outf, "STAT\t%s\t%llu\n", k, (unsigned long long)v); };
    p("paths", nPaths);
    p("infeasible", nInfeasible);
    p("error_paths", nError);
    p("unsupported", nUnsupported);
    p("limit", nLimit);
    p("max_path_steps", maxPath);
    p("forks", nForks);
    p("steps", nSteps);
    p("asserts", nAsserts);
    p("asserts_symbolic", nAssertSym);
    p("asserts_constant_on_path", nAssertConst);
    p("assumes", nAssumes);
    p("queries", sstats.queries);
    p("assert_queries", sstats.assertQueries);
    p("query_cache_hits", sstats.cacheHits);
    p("domain_decided", sstats.domainDecided);
    p("model_reuse", sstats.modelReuse);
    p("cross_checked", sstats.crossChecked);
    p("solver_unknown", sstats.unknown);
    p("solver_us", u64(sstats.time * 1e6));
    p("timed_out", timedOut);
    for (auto &r : reach)
        fprintf(outf, "REACH\t%s\t%llu\n", r.first.c_str(), (unsigned long long)r.second);
    for (auto &r : unsupported)
        fprintf(outf, "UNSUP\t%s\t%llu\n", r.first.c_str(), (unsigned long long)r.second);
    for (auto *f : funcs)
        if (f->execs)
            fprintf(outf, "FUNC\t%s\t%llu\n", llvm::demangle(f->name).c_str(), (unsigned long long)f->execs);
    fclose(outf);
}

int main(int argc, char **argv)
{
    Engine e;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--out")
            e.opt.out = val();
        else if (a == "--entry")
            e.opt.entry = val();
        else if (a == "--time")
            e.opt.timeLimit = std::stod(val());
        else if (a == "--jobs")
            e.opt.jobs = std::stoi(val());
        else if (a == "--max-steps")
            e.opt.maxSteps = std::stoull(val());
        else if (a == "--preempt")
            e.opt.preemptBound = std::stoi(val());
        else if (a == "--samples")
            e.opt.samples = std::stoi(val());
        else if (a == "--max-viol")
            e.opt.maxViol = std::stoi(val());
        else if (a == "--stop-first")
            e.opt.stopAtFirst = true;
        else if (a == "--cross-check")
            e.opt.crossCheck = true;
        else if (a == "-v")
            e.opt.verbose = true;
        else if (a == "-p") {
            std::string kv = val();
            auto q = kv.find('=');
            e.opt.params[kv.substr(0, q)] = std::stoll(kv.substr(q + 1));
        } else
            e.opt.bc = a;
    }
    if (e.opt.bc.empty() || e.opt.out.empty())
        e.fatal("usage: mlse file.bc --out FILE [--entry f] [--time s] [--jobs n] [-p k=v]");
    struct rlimit rl = {256u << 20, RLIM_INFINITY};
    setrlimit(RLIMIT_STACK, &rl);
    e.deadline = now() + e.opt.timeLimit;
    e.load();
    e.outf = fopen((e.opt.out + ".part.0").c_str(), "w");
    if (!e.outf)
        e.fatal("cannot write " + e.opt.out);
    if (e.opt.jobs > 1) {
        e.sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        e.sh->running = 1;
        e.sh->seq = 1;
        e.sh->stop = 0;
        prctl(PR_SET_CHILD_SUBREAPER, 1);
    }
    auto st = std::make_unique<State>();
    st->nextId = 1;
    st->th.resize(1);
    e.initGlobals(*st);
    e.work.push_back(std::move(st));
    e.run();
    e.finish();
    int rc = 0;
    if (e.sh) {
        e.sh->running--;
        int stt;
        while (waitpid(-1, &stt, 0) > 0)
            if (!WIFEXITED(stt) || (WEXITSTATUS(stt) != 0 && WEXITSTATUS(stt) != 9))
                rc = 5;
    }
    FILE *f = fopen((e.opt.out + ".done").c_str(), "w");
    fprintf(f, "%d\n", rc);
    fclose(f);
    fflush(nullptr);
    _exit(rc);
}
