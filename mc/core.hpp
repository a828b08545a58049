// Exhaustive explorer core: suites of finitely many cases, each case run against the real library.
//
// A suite is a *finite, indexable* space of cases: case(i) for 0 <= i < count runs one execution of the implementation
// (an operation history, an argument shape, a choice sequence) next to a boring reference model and says whether the
// property held.  All indices are explored, in increasing order, over forked workers; a crash, an abort, an unexpected
// exception or a hang of one case is a violation of that case.  Before a violation is reported the case is replayed
// twice, alone, in a fresh process.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

typedef uint64_t u64;
typedef std::complex<double> cd;

inline std::string fmt(const char* f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

struct Fail {
    std::string msg;
    std::string kind; // "wrong", "throw", "crash", "hang"
};

struct Suite {
    std::string name;
    u64 count = 0;
    // run case i; throw Fail when the property does not hold
    std::function<void(u64)> run;
    // human readable (and stable) description of case i
    std::function<std::string(u64)> describe;
    // environment to be set for the worker processes of this suite
    std::vector<std::pair<std::string, std::string>> env;
    std::function<void()> init; // once per worker
    double hangSeconds = 30;
    u64 steps = 0; // informational: transitions per case, filled by run through mc::transition()
};

// ------------------------------------------------------------------ shared counters
struct Slot {
    std::atomic<u64> cur; // case + 1, or 0 when idle
    std::atomic<u64> startedMs;
    std::atomic<int> pid;
};

constexpr u64 STATE_TABLE = 1ULL << 22;
constexpr u64 TRIAGE_MAX = 4000000;
struct Shared {
    std::atomic<unsigned char> bad[TRIAGE_MAX];
    std::atomic<u64> next, done, transitions, states, stateTableFull, skipped, outcomes;
    std::atomic<u64> nfail;
    std::atomic<int> stop;
    std::atomic<u64> maxDevPico;
    Slot slots[64];
    struct {
        std::atomic<int> ready;
        u64 idx;
        char kind[16];
        char msg[1500];
    } fails[64];
    std::atomic<u64> table[STATE_TABLE];
};
inline Shared*& sh()
{
    static Shared* s = nullptr;
    return s;
}
inline u64 nowMs()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
}
// (the bookkeeping below is not part of the program: a controlled scheduler turns itself off for it)
inline void (*&ownWork())(int)
{
    static void (*f)(int) = nullptr;
    return f;
}
struct Own {
    Own()
    {
        if (ownWork())
            ownWork()(1);
    }
    ~Own()
    {
        if (ownWork())
            ownWork()(-1);
    }
};
inline void transition(u64 n = 1)
{
    Own own;
    if (sh())
        sh()->transitions.fetch_add(n, std::memory_order_relaxed);
}
inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline void visited(u64 h)
{
    Own own;
    if (!sh())
        return;
    if (!h)
        h = 1;
    u64 p = (h * 0x9e3779b97f4a7c15ULL) >> 42;
    for (int k = 0; k < 64; ++k) {
        u64 e = sh()->table[(p + k) & (STATE_TABLE - 1)].load(std::memory_order_relaxed);
        if (e == h)
            return;
        if (!e) {
            u64 z = 0;
            if (sh()->table[(p + k) & (STATE_TABLE - 1)].compare_exchange_strong(z, h)) {
                sh()->states.fetch_add(1, std::memory_order_relaxed);
                return;
            }
            if (z == h)
                return;
        }
    }
    sh()->stateTableFull.fetch_add(1, std::memory_order_relaxed);
}
inline void deviation(double d)
{
    Own own;
    if (!sh() || !(d < 1e6))
        return;
    u64 v = (u64)(d * 1e12);
    u64 o = sh()->maxDevPico.load(std::memory_order_relaxed);
    while (o < v && !sh()->maxDevPico.compare_exchange_weak(o, v)) {
    }
}

[[noreturn]] inline void failNow(const std::string& kind, const std::string& msg) { throw Fail{ msg, kind }; }
#define MC_CHECK(cond, ...)                                                                                            \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            mc::failNow("wrong", mc::fmt(__VA_ARGS__));                                                                \
    } while (0)

// ------------------------------------------------------------------ json
inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += fmt("\\u%04x", c);
        else
            o += c;
    }
    return o + "\"";
}

struct KnownFinding {
    std::string property, pattern, text;
};

struct Runner {
    std::string property;
    std::string tier = "quick";
    std::string verif;
    int workers = 8;
    double budgetS = 700; // safety net; when hit, the run is *not* called exhaustive
    u64 seed = 1;
    bool verbose = false;
    std::vector<std::string> only;

    // totals
    u64 cases = 0, transitions = 0, states = 0;
    bool exhaustive = true;
    std::vector<std::string> samples, assumptions, caps, suiteLines, knownHit;
    int violations = 0;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::vector<KnownFinding> known;
    std::string replaySuite;
    long long replayIdx = -1;
    std::string replayDesc;
    bool replayMode = false, replayFound = false;
    bool listMode = false;
    double maxDev = 0;
    u64 maxFailures = 12;
    bool triage = false; // development aid: run everything, group the failures by the name of the last operation

    Runner(const std::string& prop, int argc, char** argv)
        : property(prop)
    {
        verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
        if (getenv("VERIF_SEED"))
            seed = strtoull(getenv("VERIF_SEED"), 0, 10);
        long nc = sysconf(_SC_NPROCESSORS_ONLN);
        workers = nc < 1 ? 1 : nc > 16 ? 16 : (int)nc;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--thorough")
                tier = "thorough";
            else if (a == "--quick")
                tier = "quick";
            else if (a == "-v")
                verbose = true;
            else if (a == "--only" && i + 1 < argc)
                only.push_back(argv[++i]);
            else if (a == "--maxfail" && i + 1 < argc)
                maxFailures = atoi(argv[++i]);
            else if (a == "--workers" && i + 1 < argc)
                workers = atoi(argv[++i]);
            else if (a == "--list")
                listMode = true;
            else if (a == "--triage") {
                triage = true;
                maxFailures = ~0ULL;
            }
            else if (a == "--replay" && i + 1 < argc) {
                std::ifstream f(argv[++i]);
                std::getline(f, replaySuite);
                std::string l;
                std::getline(f, l);
                replayIdx = atoll(l.c_str());
                std::getline(f, replayDesc);
                replayMode = true;
            } else if (a == "--case" && i + 2 < argc) {
                replaySuite = argv[++i];
                replayIdx = atoll(argv[++i]);
                replayMode = true;
            }
        }
        if (tier == "thorough")
            budgetS = 6 * 3600;
        if (getenv("MC_BUDGET_S"))
            budgetS = atof(getenv("MC_BUDGET_S"));
        std::ifstream kf(verif + "/known_findings.txt");
        std::string line;
        while (std::getline(kf, line)) {
            // known: property=C02 case=<exact case description> :: text
            if (line.compare(0, 7, "known: "))
                continue;
            KnownFinding k;
            size_t p = line.find("property="), c = line.find(" case="), t = line.find(" :: ");
            if (p == std::string::npos || c == std::string::npos || t == std::string::npos)
                continue;
            k.property = line.substr(p + 9, c - p - 9);
            k.pattern = line.substr(c + 6, t - c - 6);
            k.text = line.substr(t + 4);
            if (k.property == prop)
                known.push_back(k);
        }
        signal(SIGPIPE, SIG_IGN);
    }
    bool thorough() const { return tier == "thorough"; }
    double elapsed() const
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }

    static void applyEnv(const Suite& s)
    {
        for (auto& e : s.env)
            setenv(e.first.c_str(), e.second.c_str(), 1);
    }

    static void runCase(const Suite& s, u64 i)
    {
        try {
            s.run(i);
        } catch (const Fail&) {
            throw;
        } catch (const std::exception& e) {
            throw Fail{ std::string("unexpected exception: ") + e.what(), "throw" };
        }
    }

    // run case alone in a fresh process; returns "" or a failure "kind: msg"
    std::string solo(const Suite& s, u64 i, double limitS)
    {
        int fd[2];
        if (pipe(fd))
            abort();
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            close(fd[0]);
            setpgid(0, 0);
            struct rlimit rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            quiet();
            applyEnv(s);
            std::string out;
            try {
                if (s.init)
                    s.init();
                runCase(s, i);
                out = "ok";
            } catch (const Fail& f) {
                out = f.kind + ": " + f.msg;
            }
            if (write(fd[1], out.data(), out.size()) < 0) {
            }
            _exit(0);
        }
        close(fd[1]);
        fcntl(fd[0], F_SETFL, O_NONBLOCK);
        std::string got;
        u64 st = nowMs();
        int status = 0;
        bool done = false;
        while (!done) {
            pid_t w = waitpid(p, &status, WNOHANG);
            char b[4096];
            ssize_t r;
            while ((r = read(fd[0], b, sizeof b)) > 0)
                got.append(b, r);
            if (w == p)
                done = true;
            else if (nowMs() - st > limitS * 1000) {
                kill(-p, SIGKILL);
                kill(p, SIGKILL);
                waitpid(p, &status, 0);
                close(fd[0]);
                return fmt("hang: no answer within %.0f s", limitS);
            } else
                usleep(500);
        }
        char b[4096];
        ssize_t r;
        while ((r = read(fd[0], b, sizeof b)) > 0)
            got.append(b, r);
        close(fd[0]);
        if (got == "ok")
            return "";
        if (!got.empty())
            return got;
        if (WIFSIGNALED(status))
            return fmt("crash: process ended by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
        return fmt("crash: process exited with status %d", WEXITSTATUS(status));
    }

    static void quiet()
    {
        if (getenv("MC_NOISY"))
            return;
        int n = open("/dev/null", O_WRONLY);
        if (n >= 0) {
            dup2(n, 1);
            dup2(n, 2);
        }
    }

    void worker(const Suite& s, int slot, long long first)
    {
        setpgid(0, 0);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        quiet();
        applyEnv(s);
        if (s.init)
            s.init();
        Shared* S = sh();
        const u64 chunk = s.count > 200000 ? 64 : s.count > 5000 ? 8 : 1;
        u64 lo = 0, hi = 0;
        if (first >= 0) {
            lo = first;
            hi = (lo / chunk + 1) * chunk;
        }
        while (!S->stop.load(std::memory_order_relaxed)) {
            if (lo >= hi || lo >= s.count) {
                lo = S->next.fetch_add(chunk);
                hi = lo + chunk;
                if (lo >= s.count)
                    break;
            }
            S->slots[slot].startedMs = nowMs();
            S->slots[slot].cur = lo + 1;
            try {
                runCase(s, lo);
            } catch (const Fail& f) {
                u64 k = S->nfail.fetch_add(1);
                if (triage && lo < TRIAGE_MAX)
                    S->bad[lo] = 1;
                if (k < 64) {
                    S->fails[k].idx = lo;
                    snprintf(S->fails[k].kind, sizeof S->fails[k].kind, "%s", f.kind.c_str());
                    snprintf(S->fails[k].msg, sizeof S->fails[k].msg, "%s", f.msg.c_str());
                    S->fails[k].ready = 1;
                }
                if (k + 1 >= maxFailures)
                    S->stop = 1;
            }
            S->done.fetch_add(1, std::memory_order_relaxed);
            ++lo;
        }
        S->slots[slot].cur = 0;
        _exit(0);
    }

    void recordFail(u64 idx, const char* kind, const std::string& msg)
    {
        Shared* S = sh();
        u64 k = S->nfail.fetch_add(1);
        if (triage && idx < TRIAGE_MAX)
            S->bad[idx] = 1;
        if (k < 64) {
            S->fails[k].idx = idx;
            snprintf(S->fails[k].kind, sizeof S->fails[k].kind, "%s", kind);
            snprintf(S->fails[k].msg, sizeof S->fails[k].msg, "%s", msg.c_str());
            S->fails[k].ready = 1;
        }
        if (k + 1 >= maxFailures)
            S->stop = 1;
    }

    std::set<std::string> usedNames;

    void explore(const Suite& s0)
    {
        Suite s = s0;
        MC_CHECK(usedNames.insert(s.name).second, "duplicate suite name %s", s.name.c_str());
        if (!only.empty()) {
            bool m = false;
            for (auto& o : only)
                m |= s.name.find(o) != std::string::npos;
            if (!m)
                return;
        }
        if (listMode) {
            printf("%-60s %llu\n", s.name.c_str(), (unsigned long long)s.count);
            return;
        }
        if (replayMode) {
            if (s.name != replaySuite)
                return;
            replayFound = true;
            printf("replaying suite %s case %lld: %s\n", s.name.c_str(), replayIdx, s.describe(replayIdx).c_str());
            if (!replayDesc.empty() && s.describe(replayIdx) != replayDesc)
                printf("WARNING: the recorded description was: %s\n", replayDesc.c_str());
            std::string r = solo(s, replayIdx, std::max(60.0, s.hangSeconds * 3));
            printf("%s\n", r.empty() ? "held" : r.c_str());
            if (!r.empty())
                ++violations;
            return;
        }
        if (violations && !verbose)
            return; // one confirmed violation decides the check
        if (elapsed() > budgetS) {
            caps.push_back("suite " + s.name + " not started: time budget used up");
            exhaustive = false;
            return;
        }
        if (!sh()) {
            sh() = (Shared*)mmap(
                nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (sh() == MAP_FAILED)
                abort();
        }
        Shared* S = sh();
        S->next = S->done = S->nfail = 0;
        S->stop = 0;
        for (auto& f : S->fails)
            f.ready = 0;
        u64 tr0 = S->transitions, st0 = S->states;
        double ts = elapsed();
        int nw = (int)std::min<u64>(workers, std::max<u64>(1, s.count));
        fflush(stdout);
        for (int w = 0; w < nw; ++w) {
            S->slots[w].cur = 0;
            S->slots[w].startedMs = nowMs();
            pid_t p = fork();
            if (!p)
                worker(s, w, -1);
            S->slots[w].pid = p;
        }
        int live = nw;
        bool timedOut = false;
        std::map<int, int> respawns;
        while (live) {
            int status;
            pid_t p = waitpid(-1, &status, WNOHANG);
            if (p > 0) {
                int w = -1;
                for (int i = 0; i < nw; ++i)
                    if (S->slots[i].pid == p)
                        w = i;
                if (w < 0)
                    continue;
                u64 cur = S->slots[w].cur;
                bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0 && cur == 0;
                if (!ok) {
                    if (cur) {
                        recordFail(cur - 1, "crash",
                            WIFSIGNALED(status) ? fmt("process ended by signal %d (%s)", WTERMSIG(status),
                                                      strsignal(WTERMSIG(status)))
                                                : fmt("process exited with status %d", WEXITSTATUS(status)));
                        S->done.fetch_add(1);
                    } else if (!WIFSIGNALED(status) || respawns[w]++ > 3) {
                        recordFail(0, "crash", "worker failed to start");
                        S->stop = 1;
                    }
                    if (!S->stop) {
                        S->slots[w].cur = 0;
                        S->slots[w].startedMs = nowMs();
                        pid_t q = fork();
                        if (!q)
                            worker(s, w, (long long)cur);
                        S->slots[w].pid = q;
                        continue;
                    }
                }
                S->slots[w].pid = 0;
                --live;
                continue;
            }
            u64 n = nowMs();
            for (int w = 0; w < nw; ++w) {
                if (!S->slots[w].pid || !S->slots[w].cur)
                    continue;
                u64 a = S->slots[w].startedMs;
                if (n > a && n - a > s.hangSeconds * 1000) {
                    u64 cur = S->slots[w].cur;
                    pid_t pid = S->slots[w].pid;
                    kill(-pid, SIGKILL);
                    kill(pid, SIGKILL);
                    waitpid(pid, &status, 0);
                    // the machine may have been busy: run the case alone with a longer limit before believing it
                    std::string r = solo(s, cur - 1, s.hangSeconds * 4);
                    if (!r.empty()) {
                        size_t c = r.find(": ");
                        recordFail(cur - 1, r.substr(0, c).c_str(), r.substr(c + 2));
                    }
                    S->done.fetch_add(1);
                    S->slots[w].cur = 0;
                    S->slots[w].startedMs = nowMs();
                    if (S->stop) {
                        S->slots[w].pid = 0;
                        --live;
                        continue;
                    }
                    pid_t q = fork();
                    if (!q)
                        worker(s, w, (long long)cur);
                    S->slots[w].pid = q;
                }
            }
            if (elapsed() > budgetS && !timedOut) {
                timedOut = true;
                S->stop = 1;
            }
            usleep(2000);
        }
        u64 done = S->done;
        cases += done;
        transitions += S->transitions - tr0;
        states += S->states - st0;
        maxDev = std::max(maxDev, S->maxDevPico * 1e-12);
        if (done < s.count && (timedOut)) {
            exhaustive = false;
            caps.push_back(fmt("suite %s stopped by the time budget after %llu of %llu cases", s.name.c_str(),
                (unsigned long long)done, (unsigned long long)s.count));
        }
        if (triage) {
            std::map<std::string, std::pair<u64, u64>> g;
            std::map<std::string, u64> tot;
            for (u64 i = 0; i < std::min<u64>(s.count, TRIAGE_MAX); ++i) {
                bool bad = S->bad[i];
                S->bad[i] = 0;
                if (!bad)
                    continue;
                std::string d = s.describe(i);
                size_t p = d.rfind("; ");
                std::string o = p == std::string::npos ? d : d.substr(p + 2);
                o = o.substr(0, o.find('('));
                auto& e = g[o];
                if (!e.first++)
                    e.second = i;
            }
            if (S->nfail)
                printf("== %s: %llu of %llu failed\n", s.name.c_str(), (unsigned long long)S->nfail,
                    (unsigned long long)s.count);
            for (auto& e : g) {
                std::string r = solo(s, e.second.second, s.hangSeconds);
                printf("  %-44s %7llu  e.g. #%llu %s\n        %s\n", e.first.c_str(), (unsigned long long)e.second.first,
                    (unsigned long long)e.second.second, s.describe(e.second.second).c_str(), r.substr(0, verbose ? 1200 : 120).c_str());
            }
            printf("-- %s %llu cases %.1f s\n", s.name.c_str(), (unsigned long long)done, elapsed() - ts);
            fflush(stdout);
            return;
        }
        // failures, smallest index first
        std::vector<int> order;
        u64 nf = std::min<u64>(S->nfail, 64);
        for (u64 k = 0; k < nf; ++k)
            if (S->fails[k].ready)
                order.push_back((int)k);
        std::sort(order.begin(), order.end(), [&](int a, int b) { return S->fails[a].idx < S->fails[b].idx; });
        int reported = 0;
        for (int k : order) {
            u64 idx = S->fails[k].idx;
            std::string desc = s.name + " | " + s.describe(idx);
            std::string first = std::string(S->fails[k].kind) + ": " + S->fails[k].msg;
            std::string r1 = solo(s, idx, s.hangSeconds * 4), r2 = r1.empty() ? "" : solo(s, idx, s.hangSeconds * 4);
            if (r1.empty() || r2.empty()) {
                printf("note: %s failed once (%s) but not when replayed alone; not reported\n", desc.c_str(),
                    first.c_str());
                continue;
            }
            bool isKnown = false;
            for (auto& kf : known)
                if (kf.pattern == desc) {
                    isKnown = true;
                    printf("KNOWN-FINDING: property=%s %s :: %s\n", property.c_str(), desc.c_str(), kf.text.c_str());
                    knownHit.push_back(desc);
                }
            if (isKnown)
                continue;
            if (reported < (verbose ? 64 : 3)) {
                std::string rp = writeReplay(s, idx);
                printf("VIOLATION property=%s replay=%s\n    case: %s\n    %s\n", property.c_str(), rp.c_str(),
                    desc.c_str(), r1.c_str());
                fflush(stdout);
            }
            ++reported;
            ++violations;
        }
        suiteLines.push_back(fmt("%s: %llu/%llu cases, %llu transitions, %llu new states, %.1f s", s.name.c_str(),
            (unsigned long long)done, (unsigned long long)s.count, (unsigned long long)(S->transitions - tr0),
            (unsigned long long)(S->states - st0), elapsed() - ts));
        if (verbose || elapsed() - ts > 2)
            printf("%s\n", suiteLines.back().c_str());
        fflush(stdout);
        if (s.count) {
            samples.push_back(s.name + " | " + s.describe(s.count / 2));
            if (s.count > 3)
                samples.push_back(s.name + " | " + s.describe(s.count - 1));
        }
    }

    std::string writeReplay(const Suite& s, u64 idx)
    {
        std::string d = verif + "/replays";
        mkdir(d.c_str(), 0755);
        u64 h = 5;
        for (char c : s.name)
            h = mix(h, (unsigned char)c);
        h = mix(h, idx);
        std::string p = fmt("%s/%s-%016llx.replay", d.c_str(), property.c_str(), (unsigned long long)h);
        std::ofstream f(p);
        f << s.name << "\n" << idx << "\n" << s.describe(idx) << "\n";
        f << "# replay with: python3 " << verif << "/mc/run.py " << property << " --replay " << p << "\n";
        return p;
    }

    int finish(const std::string& level = "model_checking")
    {
        if (listMode)
            return 0;
        if (replayMode) {
            if (!replayFound) {
                printf("no such suite: %s\n", replaySuite.c_str());
                return 2;
            }
            return violations ? 1 : 0;
        }
        for (auto& kf : known) {
            bool hit = false;
            for (auto& k : knownHit)
                hit |= k == kf.pattern;
            if (!hit && only.empty())
                printf("note: known finding no longer observed: %s\n", kf.pattern.c_str());
        }
        mkdir((verif + "/evidence").c_str(), 0755);
        if (samples.size() > 40) {
            std::vector<std::string> t;
            for (size_t i = 0; i < 40; ++i)
                t.push_back(samples[i * samples.size() / 40]);
            samples = t;
        }
        if (only.empty()) {
            std::ofstream f(verif + "/evidence/" + property + ".json");
            f << "{\n \"property\": " << jstr(property) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
              << ",\n \"level\": " << jstr(level) << ",\n \"coverage\": {\n";
            f << "  \"states\": " << std::max<u64>(states, 1) << ",\n  \"transitions\": " << transitions
              << ",\n  \"traces_validated_against_impl\": " << cases << ",\n  \"executions\": " << cases
              << ",\n  \"exhaustive\": " << (exhaustive && !violations ? "true" : "false")
              << ",\n  \"max_numeric_deviation\": " << fmt("%.3g", maxDev) << ",\n";
            auto arr = [&](const char* n, const std::vector<std::string>& v, bool last) {
                f << "  \"" << n << "\": [";
                for (size_t i = 0; i < v.size(); ++i)
                    f << (i ? ",\n    " : "\n    ") << jstr(v[i]);
                f << "]" << (last ? "\n" : ",\n");
            };
            arr("suites", suiteLines, false);
            arr("caps", caps, false);
            arr("known_findings_observed", knownHit, false);
            arr("samples", samples, true);
            f << " },\n \"assumptions\": [";
            for (size_t i = 0; i < assumptions.size(); ++i)
                f << (i ? ", " : "") << jstr(assumptions[i]);
            f << "],\n \"wall_s\": " << fmt("%.2f", elapsed()) << ",\n \"violations\": " << violations << "\n}\n";
        }
        printf("%s %s: %llu executions, %llu transitions, %llu distinct states, max deviation %.2g, %.1f s, %d "
               "violation(s)%s\n",
            property.c_str(), tier.c_str(), (unsigned long long)cases, (unsigned long long)transitions,
            (unsigned long long)states, maxDev, elapsed(), violations, exhaustive ? "" : " (capped)");
        return violations ? 1 : 0;
    }
};

} // namespace mc
