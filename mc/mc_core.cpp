#include <sys/prctl.h>
#include <sys/time.h>
#include <execinfo.h>
#include "mc.hpp"
#include "mc_int.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <ctime>
#include <set>
#include <map>
#include <unordered_set>
#include <string>
#include <algorithm>

namespace mc {
namespace {

constexpr int MAXCH = 1 << 20;
constexpr int MAXW = 64;

struct Slot {                         // one per worker, in shared memory
    volatile int scenario;
    volatile int nch;
    volatile int status;              // 0 running, 1 violation recorded, 2 idle
    volatile int bound;
    char key[256];
    char msg[3500];
    char note[512];
    uint16_t ch[MAXCH];
};
struct Totals {
    volatile int next;                // next scenario
    volatile int stop;
    uint64_t execs, trans, states, outcomes, evals, truncated_scen, pruned, hung, done_scen, max_steps_seen;
    uint64_t nodes, stale_execs;
    int min_bound_done;
    volatile int lock;
    char samples[12][400];
    int nsamples;
    char known[32][256];
    char knownmsg[32][600];
    int nknown;
    char trunc[8][200];
    int ntrunc;
};

struct Scen { std::string name; std::function<void()> fn; };
std::vector<Scen>* scens;
std::vector<Scen>& S() { if (!scens) scens = new std::vector<Scen>; return *scens; }

Totals* T; Slot* slots; Slot* slot;
int jobs = 8;
double deadline = 1e18;
bool tier_thorough = false, g_replay = false, g_verbose = false;
std::set<std::string> known_keys;
std::vector<uint16_t> replay_ch;
std::string property = "X00";

double wall() { timespec t; raw_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void lk() { while (__sync_lock_test_and_set(&T->lock, 1)) {} }
void ulk() { __sync_lock_release(&T->lock); }

// per-scenario counters
std::unordered_set<uint64_t>* st_set; std::unordered_set<uint64_t>* out_set;
uint64_t c_execs, c_trans, c_evals, c_pruned, c_stale, c_nodes, c_maxsteps;
bool c_trunc; int c_bound_done; bool c_explored;

} // namespace

// ---------------------------------------------------------------- explorer
Explorer X;

static bool advance_() {               // next leaf in DFS order, respecting budgets
    auto& st = X.stack;
    while (!st.empty()) {
        Node& nd = st.back();
        int nxt = nd.chosen + 1;
        // cost prefix before this node
        if (nxt < nd.n) {
            bool ok = true;
            if (nd.cost) {
                int used = nd.dev_before + 1;
                if (used > X.cur_bound) ok = false;
                if (nd.kind == K_STALE && nd.stale_before + 1 > X.o.stale) ok = false;
            } else if (nd.freefirst) {        // cheap alternatives first, then charged ones
                ok = true;
                if (nxt >= nd.nfree && nd.dev_before + 1 > X.cur_bound) ok = false;
            }
            if (ok) { nd.chosen = nxt; return true; }
        }
        st.pop_back();
    }
    return false;
}

int Explorer::pick(int n, int kind, bool cost, int nfree) {
    if (n <= 1) return 0;
    if (pos < (int)stack.size()) {
        Node& nd = stack[pos];
        if (nd.n != n || nd.kind != kind) {
            if (replay_mode) { fprintf(stderr, "replay divergence at %d\n", pos); _exit(3); }
            fprintf(stderr, "mc: nondeterministic harness: choice %d had n=%d kind=%d, now n=%d kind=%d (scenario %d %s)\n",
                    pos, nd.n, nd.kind, n, kind, slot->scenario, S()[slot->scenario].name.c_str());
            _exit(4);
        }
        int c = nd.chosen;
        bool charged = nd.cost ? c > 0 : (nd.freefirst && c >= nd.nfree);
        if (charged) { dev++; if (kind == K_STALE) stale++; }
        pos++;
        return c;
    }
    Node nd; nd.n = n; nd.kind = kind; nd.cost = cost; nd.chosen = 0;
    nd.freefirst = nfree > 0 && nfree < n; nd.nfree = nfree > 0 ? nfree : n;
    nd.dev_before = dev; nd.stale_before = stale;
    if (replay_mode) {
        nd.chosen = pos < (int)replay_ch.size() ? replay_ch[pos] : 0;
        if (nd.chosen >= n) { fprintf(stderr, "replay divergence at %d (choice %d of %d)\n", pos, nd.chosen, n); _exit(3); }
        bool charged = nd.cost ? nd.chosen > 0 : (nd.freefirst && nd.chosen >= nd.nfree);
        if (charged) { dev++; if (kind == K_STALE) stale++; }
    }
    if (pos < MAXCH) { slot->ch[pos] = (uint16_t)nd.chosen; slot->nch = pos + 1; }
    stack.push_back(nd);
    pos++;
    c_nodes++;
    return nd.chosen;
}

static void install_signals();
static void publish() {
    int m = std::min<int>(X.stack.size(), MAXCH);
    for (int i = 0; i < m; ++i) slot->ch[i] = (uint16_t)X.stack[i].chosen;
    slot->nch = m;
}

static void run_once(const Opts& o, const std::function<void()>& body) {
    X.pos = 0; X.dev = 0; X.stale = 0; X.pruned = false;
    publish();
    if (o.threads) thr_run(o, body);
    else {
        X.seq_active = true;
        if (setjmp(X.jb) == 0) body();
        X.seq_active = false;
    }
    if (X.pruned) c_pruned++; else c_execs++;
    if (X.stale) c_stale++;
    // drop nodes beyond the point reached (pruned executions)
    if ((int)X.stack.size() > X.pos) X.stack.resize(X.pos);
}

void explore(const Opts& o, const std::function<void()>& body) {
    if (c_explored) { fprintf(stderr, "mc: one explore() per scenario\n"); _exit(4); }
    c_explored = true;
    X.o = o;
    X.replay_mode = g_replay;
    if (g_replay) {
        X.cur_bound = 1000; X.stack.clear();
        run_once(o, body);
        return;
    }
    bool any_cost = true;
    int b0 = (o.iterate && !o.full) ? 0 : o.bound;
    c_bound_done = -1;
    for (int b = b0; b <= o.bound && any_cost; ++b) {
        X.cur_bound = b; X.stack.clear(); slot->bound = b;
        X.hit_bound = false;
        uint64_t before = c_execs;
        bool complete = true;
        for (;;) {
            if (o.fork_each) {
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL); install_signals();
                    run_once(o, body);
                    // ship the choice nodes back through the shared slot
                    FILE* f = fopen(X.forkfile, "wb");
                    size_t n = X.stack.size(); uint64_t cnt[4] = {c_execs, c_trans, c_pruned, c_maxsteps};
                    fwrite(&n, sizeof n, 1, f); fwrite(X.stack.data(), sizeof(Node), n, f); fwrite(cnt, sizeof cnt, 1, f);
                    std::vector<uint64_t> sv(st_set->begin(), st_set->end()), ov(out_set->begin(), out_set->end());
                    n = sv.size(); fwrite(&n, sizeof n, 1, f); fwrite(sv.data(), 8, n, f);
                    n = ov.size(); fwrite(&n, sizeof n, 1, f); fwrite(ov.data(), 8, n, f);
                    fclose(f);
                    _exit(0);
                }
                int stt; waitpid(p, &stt, 0);
                if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
                    if (WIFEXITED(stt)) _exit(WEXITSTATUS(stt));
                    if (slot->status != 1) { snprintf(slot->key, sizeof slot->key, "crash"); snprintf(slot->msg, sizeof slot->msg, "process died with signal %d", WTERMSIG(stt)); slot->status = 1; }
                    _exit(10);
                }
                FILE* f = fopen(X.forkfile, "rb"); size_t n = 0; uint64_t cnt[4];
                if (!f || fread(&n, sizeof n, 1, f) != 1) { fprintf(stderr, "mc: fork result missing\n"); _exit(4); }
                X.stack.resize(n); if (n && fread(X.stack.data(), sizeof(Node), n, f) != n) _exit(4);
                if (fread(cnt, sizeof cnt, 1, f) != 1) _exit(4);
                c_execs = cnt[0]; c_trans = cnt[1]; c_pruned = cnt[2]; c_maxsteps = cnt[3];
                for (int k = 0; k < 2; ++k) { if (fread(&n, sizeof n, 1, f) != 1) _exit(4); std::vector<uint64_t> v(n); if (n && fread(v.data(), 8, n, f) != n) _exit(4); for (auto h : v) (k ? out_set : st_set)->insert(h); }
                fclose(f); unlink(X.forkfile);
            } else run_once(o, body);
            if (!advance_()) break;
            if ((o.max_execs && c_execs + c_pruned >= o.max_execs) || ((c_execs & 63) == 0 && wall() > deadline)) { complete = false; break; }
            if (T->stop) _exit(0);
        }
        if (!complete) { c_trunc = true; break; }
        c_bound_done = b;
        if (b > b0 && c_execs - before == X.last_count) any_cost = false;   // a larger bound adds nothing: exhausted
        X.last_count = c_execs - before;
    }
    X.last_count = 0;
}

int choose(int n) { RtGuard rtg; return X.pick(n, K_ENV, false); }
int deviate(int n) { RtGuard rtg; return X.pick(n, K_DEV, true); }
bool replaying() { return g_replay; }
bool thorough() { return tier_thorough; }
bool out_of_time() { return wall() > deadline; }
void count_eval(uint64_t n) { c_evals += n; }
void count_trans(uint64_t n) { c_trans += n; }
void state(uint64_t h) { RtGuard rtg; if (st_set->size() < 4000000) st_set->insert(h); }
void outcome(uint64_t h) { RtGuard rtg; if (out_set->size() < 1000000) out_set->insert(h); }
void note_steps(uint64_t n) { c_trans += n; if (n > c_maxsteps) c_maxsteps = n; }

void sample(const char* fmt, ...) { RtGuard rtg;
    if (T->nsamples >= 12) return;
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    lk();
    // at most two samples per scenario family
    if (T->nsamples < 12) { snprintf(T->samples[T->nsamples++], 400, "%s", b); }
    ulk();
}
void note(const char* fmt, ...) { RtGuard rtg; va_list ap; va_start(ap, fmt); vsnprintf(slot->note, sizeof slot->note, fmt, ap); va_end(ap); }
void trace(const char* fmt, ...) { if (!g_replay) return; RtGuard rtg; va_list ap; va_start(ap, fmt); fprintf(stderr, "  "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); }

bool known(const char* key) { RtGuard rtg; return known_keys.count(key) != 0; }

void prune() { RtGuard rtg;
    X.pruned = true;
    if (thr_active()) thr_abandon();
    if (X.seq_active) longjmp(X.jb, 1);
    fprintf(stderr, "mc: prune outside execution\n"); _exit(4);
}

void fail(const char* key, const char* fmt, ...) { RtGuard rtg;
    char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::string full = property + ":" + key;
    if (known_keys.count(full) && !g_replay) {
        lk();
        bool have = false;
        for (int i = 0; i < T->nknown; ++i) if (full == T->known[i]) have = true;
        if (!have && T->nknown < 32) { snprintf(T->known[T->nknown], 256, "%s", full.c_str()); snprintf(T->knownmsg[T->nknown++], 600, "%s", b); }
        ulk();
        if (thr_active() || X.seq_active) { X.pruned = true; if (thr_active()) thr_abandon(); longjmp(X.jb, 1); }
        // enumeration scenario without explore(): the finding ends the scenario
        longjmp(X.scen_jb, 1);
    }
    snprintf(slot->key, sizeof slot->key, "%s", full.c_str());
    snprintf(slot->msg, sizeof slot->msg, "%s%s%s%s", b, slot->note[0] ? " [" : "", slot->note, slot->note[0] ? "]" : "");
    slot->status = 1;
    if (g_replay) fprintf(stderr, "REPLAYED key=%s %s\n", full.c_str(), slot->msg);
    _exit(10);
}

static volatile uint64_t wd_beat = 0;
static void on_crash(int sig) {
    if (getenv("MC_BT")) { void* b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); }
    if (slot && slot->status != 1) {
        snprintf(slot->key, sizeof slot->key, "%s:crash", property.c_str());
        snprintf(slot->msg, sizeof slot->msg, "crash: signal %d (%s)%s%s%s", sig, sig == SIGABRT ? "abort/assertion" : sig == SIGSEGV ? "segmentation fault" : sig == SIGALRM ? "execution does not terminate" : "fault",
                 slot->note[0] ? " [" : "", slot->note, slot->note[0] ? "]" : "");
        slot->status = 1;
    }
    _exit(10);
}

void scenario(std::string name, std::function<void()> fn) { S().push_back({std::move(name), std::move(fn)}); }

static void install_signals() {
    static char altstack[65536];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGABRT, SIGFPE, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
#ifndef MC_ASAN
    sigaction(SIGSEGV, &sa, nullptr);
#endif
    // watchdog: an execution in which nothing happens for several ticks does not terminate
    struct sigaction wa{}; wa.sa_flags = SA_ONSTACK | SA_RESTART;
    wa.sa_handler = [](int sig) {
        static uint64_t last = ~0ull; static int same = 0;
        uint64_t now = c_execs + c_pruned + c_evals + c_trans + wd_beat;
        same = now == last ? same + 1 : 0; last = now;
        if (same >= 3) on_crash(sig);
    };
    sigaction(SIGALRM, &wa, nullptr);
    itimerval it{{8, 0}, {8, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

static void run_scenario(int i) {
    wd_beat = wd_beat + 1;
    slot->scenario = i; slot->nch = 0; slot->status = 0; slot->note[0] = 0; slot->key[0] = 0; slot->msg[0] = 0;
    st_set->clear(); out_set->clear();
    c_execs = c_trans = c_evals = c_pruned = c_stale = c_nodes = c_maxsteps = 0; c_trunc = false; c_bound_done = 1 << 20; c_explored = false;
    X.last_count = 0; X.stack.clear();
    if (setjmp(X.scen_jb) == 0) S()[i].fn();
    lk();
    T->execs += c_execs; T->trans += c_trans; T->states += st_set->size(); T->outcomes += out_set->size(); T->evals += c_evals;
    T->pruned += c_pruned; T->stale_execs += c_stale; T->nodes += c_nodes; T->done_scen++;
    if (c_maxsteps > T->max_steps_seen) T->max_steps_seen = c_maxsteps;
    if (c_trunc) { T->truncated_scen++; if (T->ntrunc < 8) snprintf(T->trunc[T->ntrunc++], 200, "%s (bound %d completed)", S()[i].name.c_str(), c_bound_done); }
    if (c_bound_done < T->min_bound_done) T->min_bound_done = c_bound_done;
    ulk();
    slot->status = 2;
    if (g_verbose) fprintf(stderr, "[%s] execs=%lu pruned=%lu trans=%lu states=%zu outcomes=%zu evals=%lu bound=%d%s\n", S()[i].name.c_str(), c_execs, c_pruned, c_trans, st_set->size(), out_set->size(), c_evals, c_bound_done, c_trunc ? " TRUNCATED" : "");
}

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

int main_(int argc, char** argv, void (*setup)()) {
    std::string out, replay, only, knownf, replay_out = "replay.txt";
    double budget = 60; bool list = false, inproc = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = val(); else if (a == "--tier") tier_thorough = val() == "thorough";
        else if (a == "--budget") budget = atof(val().c_str()); else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--replay") replay = val(); else if (a == "--only") only = val(); else if (a == "--property") property = val();
        else if (a == "--known") knownf = val(); else if (a == "--replay-out") replay_out = val();
        else if (a == "--list") list = true; else if (a == "--inproc") inproc = true; else if (a == "-v") g_verbose = true;
    }
    if (jobs > MAXW) jobs = MAXW;
    if (!knownf.empty()) if (FILE* f = fopen(knownf.c_str(), "r")) {
        char line[512]; while (fgets(line, sizeof line, f)) { std::string s = line; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); if (!s.empty()) known_keys.insert(s); } fclose(f);
    }
    T = (Totals*)mmap(nullptr, sizeof(Totals), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slots = (Slot*)mmap(nullptr, sizeof(Slot) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    T->min_bound_done = 1 << 20;
    slot = &slots[jobs];
    slot->scenario = -1;
    st_set = new std::unordered_set<uint64_t>; out_set = new std::unordered_set<uint64_t>;
    double t0 = wall(); deadline = t0 + budget;
    setup();
    if (!only.empty()) { std::vector<Scen> k; for (auto& s : S()) if (s.name.find(only) != std::string::npos) k.push_back(s); S() = k; }
    if (list) { for (auto& s : S()) printf("%s\n", s.name.c_str()); return 0; }
    if (S().empty()) { fprintf(stderr, "mc: no scenarios\n"); return 4; }

    bool replay_whole = false;
    auto load_replay = [&](const std::string& f, std::string& name) -> bool {
        FILE* fp = fopen(f.c_str(), "r"); if (!fp) return false;
        char line[1 << 16]; replay_ch.clear();
        while (fgets(line, sizeof line, fp)) {
            std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
            if (s.rfind("scenario=", 0) == 0) name = s.substr(9);
            else if (s.rfind("mode=whole-scenario", 0) == 0) replay_whole = true;
            else if (s.rfind("choices=", 0) == 0) { const char* p = s.c_str() + 8; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; replay_ch.push_back((uint16_t)v); p = e; if (*p == ',') ++p; } }
        }
        fclose(fp); return true;
    };
    auto replay_child = [&](int idx, bool whole = false) -> int {    // runs scenario idx under the recorded choices (or the whole scenario) in a fresh process
        pid_t p = fork();
        if (p == 0) {
            g_replay = !whole; snprintf(X.forkfile, sizeof X.forkfile, "/tmp/mcfork.%d", (int)getpid()); slot = &slots[jobs]; install_signals(); thr_init();
            slot->status = 0; deadline = wall() + (whole ? 300 : 1e6);
            run_scenario(idx); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st)) return WEXITSTATUS(st);
        return 128;
    };
    if (!replay.empty()) {
        T->stop = 0;
        std::string name; if (!load_replay(replay, name)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 4; }
        for (size_t i = 0; i < S().size(); ++i) if (S()[i].name == name) {
            int r = replay_child((int)i, replay_whole);
            if (r == 0) { printf("replay: no violation\n"); return 0; }
            printf("replay: violation key=%s %s\n", slots[jobs].key, slots[jobs].msg); return 1;
        }
        fprintf(stderr, "unknown scenario %s\n", name.c_str()); return 4;
    }

    if (inproc) { thr_init(); g_verbose = true; for (size_t i = 0; i < S().size(); ++i) run_scenario((int)i); return 0; }   // debugging aid
    std::vector<pid_t> pids(jobs, -1);
    for (int w = 0; w < jobs; ++w) {
        pid_t p = fork();
        if (p == 0) {
            slot = &slots[w]; slot->status = 2; prctl(PR_SET_PDEATHSIG, SIGKILL); thr_init();
            for (;;) {
                int i = __sync_fetch_and_add(&T->next, 1);
                if (i >= (int)S().size() || T->stop) break;
                if (wall() > deadline) { lk(); T->truncated_scen++; if (T->ntrunc < 8) snprintf(T->trunc[T->ntrunc++], 200, "%s (not started)", S()[i].name.c_str()); ulk(); continue; }
                // every scenario starts from the state setup() left: state that leaks from one execution to the next stays within it
                pid_t c = fork();
                if (c == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL); install_signals();
                    snprintf(X.forkfile, sizeof X.forkfile, "/tmp/mcfork.%d", (int)getpid());
                    run_scenario(i); _exit(0);
                }
                int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
            }
            _exit(0);
        }
        pids[w] = p;
    }
    // supervise: a worker that makes no step for very long is stuck in the code under test
    int viol = -1, alive = jobs; int internal = 0;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < jobs; ++i) if (pids[i] == p) w = i;
        if (w < 0) continue;
        alive--; pids[w] = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (T->stop) continue;
        Slot& s = slots[w];
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) { internal = WEXITSTATUS(st); T->stop = 1; for (auto q : pids) if (q > 0) kill(q, SIGKILL); continue; }
        if (s.status != 1) {                 // e.g. ASan exit or an uncaught signal
            snprintf(s.key, sizeof s.key, "%s:crash", property.c_str());
            snprintf(s.msg, sizeof s.msg, "worker died: %s %d%s%s%s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), s.note[0] ? " [" : "", s.note, s.note[0] ? "]" : "");
        }
        viol = w; T->stop = 1;
        for (auto q : pids) if (q > 0) kill(q, SIGKILL);
    }
    if (internal) { fprintf(stderr, "mc: internal error %d\n", internal); return internal; }
    std::string vkey, vmsg, vscen; bool confirmed = false; bool reproduced_known = false;
    if (viol >= 0) {
        Slot& s = slots[viol]; vkey = s.key; vmsg = s.msg; vscen = S()[s.scenario].name;
        FILE* f = fopen(replay_out.c_str(), "w");
        if (f) {
            fprintf(f, "property=%s\nscenario=%s\nkey=%s\nmessage=%s\nchoices=", property.c_str(), vscen.c_str(), vkey.c_str(), vmsg.c_str());
            for (int i = 0; i < s.nch; ++i) fprintf(f, "%s%d", i ? "," : "", s.ch[i]);
            fprintf(f, "\n"); fclose(f);
        }
        std::string nm; load_replay(replay_out, nm);
        int sc = s.scenario;
        for (int attempt = 0; attempt < 3 && !confirmed; ++attempt) { int r = replay_child(sc); if (r != 0 && r != 3 && r != 4) confirmed = true; }
        if (!confirmed) {      // depends on earlier executions of the same scenario (state that survives an execution)?
            T->stop = 0; int r = replay_child(sc, true);
            if (r != 0 && r != 3 && r != 4) { confirmed = true; if (FILE* f = fopen(replay_out.c_str(), "a")) { fprintf(f, "mode=whole-scenario\n"); fclose(f); } }
        }
        fprintf(stderr, "violation in scenario %s: %s: %s (replay %s)\n", vscen.c_str(), vkey.c_str(), vmsg.c_str(), confirmed ? "confirmed" : "NOT confirmed");
    }
    (void)reproduced_known;
    double dt = wall() - t0;
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"scenarios\": %zu, \"scenarios_done\": %lu, \"truncated_scenarios\": %lu, \"executions\": %lu, \"pruned\": %lu, \"transitions\": %lu, \"states\": %lu, \"outcomes\": %lu, \"evals\": %lu, \"choice_nodes\": %lu, \"stale_executions\": %lu, \"max_steps\": %lu, \"min_bound_completed\": %d, \"wall_s\": %.3f,\n",
                S().size(), T->done_scen, T->truncated_scen, T->execs, T->pruned, T->trans, T->states, T->outcomes, T->evals, T->nodes, T->stale_execs, T->max_steps_seen, T->min_bound_done == 1 << 20 ? -1 : T->min_bound_done, dt);
        fprintf(f, "\"samples\": ["); for (int i = 0; i < T->nsamples; ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(T->samples[i]).c_str()); fprintf(f, "],\n");
        fprintf(f, "\"truncated\": ["); for (int i = 0; i < T->ntrunc; ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(T->trunc[i]).c_str()); fprintf(f, "],\n");
        fprintf(f, "\"known\": ["); for (int i = 0; i < T->nknown; ++i) fprintf(f, "%s{\"key\": \"%s\", \"msg\": \"%s\"}", i ? ", " : "", jesc(T->known[i]).c_str(), jesc(T->knownmsg[i]).c_str()); fprintf(f, "],\n");
        fprintf(f, "\"violation\": %s, \"confirmed\": %s, \"key\": \"%s\", \"scenario\": \"%s\", \"message\": \"%s\"}\n", viol >= 0 ? "true" : "false", confirmed ? "true" : "false", jesc(vkey).c_str(), jesc(vscen).c_str(), jesc(vmsg).c_str());
        fclose(f);
    }
    return viol >= 0 ? (confirmed ? 1 : 2) : 0;
}
} // namespace mc
