// Simulator driver: seeded batches, replay, minimisation.
#include <set>
#include "core.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/mman.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

static const Prop *find(const std::string &id) {
    for (auto &p : props()) if (id == p.id) return &p;
    return nullptr;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static Trace make(const Prop *p, u64 seed, u64 index, int tier) {
    Trace t; t.prop = p->id;
    t.seed = mix64(mix64(seed, fnv(0xcbf29ce484222325ull, p->id, strlen(p->id))), index);
    Rng r(t.seed);
    p->gen(r, t, tier);
    return t;
}
static Ctx run(const Prop *p, const Trace &t, Stats *st, bool verbose = false) {
    Ctx c; c.tr = &t; c.st = st; c.verbose = verbose;
    sim_alloc_reset(); sim_steps = 0; sim_step_limit = 0;
    p->exec(t, c);
    sim_step_limit = 0; sim_alloc_faults_off();
    if (st) {
        st->runs++; st->events += t.ev.size();
        if (!t.ev.empty()) st->sim_us += t.ev.back().t;
        u64 h = 1; for (auto &e : t.ev) h = fnv(h, e.op.data(), e.op.size());
        for (auto &e : t.ev) { u64 n = e.b.size(); h = fnv(h, &n, sizeof n); }
        if (st->scheds.size() < 2000000) st->scheds.insert(h);
        if (c.nontrivial) {
            st->nontrivial++;
            u64 k = 3; for (auto &e : t.ev) { k = fnv(k, e.op.data(), e.op.size()); k = fnv(k, e.b.data(), e.b.size()); if (!e.a.empty()) k = fnv(k, e.a.data(), e.a.size() * sizeof(i64)); }
            for (auto &kv : t.cfg) k = fnv(k, &kv.second, sizeof kv.second);
            if (st->cases.size() < 2000000) st->cases.insert(k);
        }
    }
    return c;
}

// Run in a forked child; result class ("" = no violation).
static std::string forked(const Prop *p, const Trace &t, u64 *hash = nullptr, std::string *msg = nullptr) {
    struct Sh { u64 h; int viol; char cls[200]; char msg[4000]; };
    Sh *sh = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1);
        alarm(20);
        Ctx c = run(p, t, nullptr);
        sh->h = c.h; sh->viol = c.violated;
        snprintf(sh->cls, sizeof sh->cls, "%s", c.cls.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", c.msg.c_str());
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    std::string cls;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { cls = sh->viol ? sh->cls : ""; if (hash) *hash = sh->h; if (msg) *msg = sh->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) cls = "HANG";
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) cls = "HANG";
    else cls = "CRASH";
    munmap(sh, sizeof(Sh));
    return cls;
}

// characters and control sequences of a byte string
static std::vector<std::string> tokens(const std::string &b) {
    std::vector<std::string> r;
    for (size_t i = 0; i < b.size();) {
        size_t j = i + 1; unsigned char c = b[i];
        if (c == 0x1b && j < b.size()) {
            if (b[j] == '[') { for (++j; j < b.size() && (b[j] < 0x40 || b[j] == 0x7f); ) ++j; ++j; }
            else if (b[j] == ']' || b[j] == 'P' || b[j] == 'X' || b[j] == '^' || b[j] == '_') {
                while (j < b.size() && b[j] != 7 && b[j] != 0x18 && b[j] != 0x1b) ++j;
                j += j < b.size() && b[j] == 0x1b ? 2 : 1;
            } else { while (j < b.size() && b[j] >= 0x20 && b[j] < 0x30) ++j; ++j; }
        } else if (c >= 0xc0) while (j < b.size() && (b[j] & 0xc0) == 0x80) ++j;
        j = std::min(j, b.size());
        r.push_back(b.substr(i, j - i)); i = j;
    }
    return r;
}

static Trace minimise(const Prop *p, Trace t, const std::string &want, double budget) {
    double end = now() + budget;
    auto bad = [&](const Trace &x) { return now() < end && forked(p, x) == want; };
    // ddmin over events
    for (size_t chunk = std::max<size_t>(1, t.ev.size() / 2); ; chunk = chunk / 2) {
        for (size_t i = 0; i < t.ev.size();) {
            Trace x = t; size_t k = std::min(chunk, t.ev.size() - i);
            x.ev.erase(x.ev.begin() + i, x.ev.begin() + i + k);
            if (bad(x)) t = x; else i += k;
            if (now() > end) return t;
        }
        if (chunk <= 1) break;
    }
    // shrink payloads: first by whole characters and sequences; by bytes only where any bytes are fair input,
    // so that the replay still is a case the property speaks about
    static const std::set<std::string> wellformed = {"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C15", "C16", "C17", "C18", "C19", "C21"};
    for (size_t i = 0; i < t.ev.size(); ++i) {
        if (t.ev[i].op == "inert") continue;
        auto tk = tokens(t.ev[i].b);
        for (size_t k = tk.size(); k-- > 0;) {
            Trace x = t; std::string q; for (size_t j = 0; j < tk.size(); ++j) if (j != k) q += tk[j];
            x.ev[i].b = q;
            if (bad(x)) { t = x; tk.erase(tk.begin() + k); }
            if (now() > end) return t;
        }
        if (wellformed.count(p->id)) continue;
        for (size_t chunk = std::max<size_t>(1, t.ev[i].b.size() / 2); !t.ev[i].b.empty(); chunk /= 2) {
            for (size_t o = 0; o < t.ev[i].b.size();) {
                Trace x = t; x.ev[i].b.erase(o, chunk);
                if (bad(x)) t = x; else o += chunk;
                if (now() > end) return t;
            }
            if (chunk <= 1) break;
        }
    }
    // drop empty events and merge nothing else; zero out config where irrelevant
    for (size_t i = 0; i < t.ev.size();) {
        Trace x = t; x.ev.erase(x.ev.begin() + i);
        if (bad(x)) t = x; else ++i;
        if (now() > end) return t;
    }
    for (size_t i = 0; i < t.ev.size(); ++i)
        for (size_t k = 0; k < t.ev[i].a.size(); ++k)
            for (i64 v : {(i64)0, (i64)1, t.ev[i].a[k] / 2}) {
                if (t.ev[i].a[k] == v || (v && std::abs(t.ev[i].a[k]) < std::abs(v))) continue;
                Trace x = t; x.ev[i].a[k] = v;
                if (bad(x)) { t = x; break; }
            }
    return t;
}

int main(int argc, char **argv) {
    // fixed address-space layout: addresses are not a source of nondeterminism
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> o; std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.substr(0, 2) == "--" && i + 1 < argc) o[a.substr(2)] = argv[++i]; else pos.push_back(a);
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    auto num = [&](const char *k, u64 d) { return o.count(k) ? strtoull(o[k].c_str(), 0, 10) : d; };
    std::string cmd = pos.empty() ? "" : pos[0];
    int tier = (int)num("tier", 0); u64 seed = num("seed", 1);
    if (cmd == "list") { for (auto &p : props()) puts(p.id); return 0; }
    if (cmd == "gen") {
        const Prop *p = find(o["prop"]); if (!p) return 2;
        fputs(trace_dump(make(p, seed, num("index", 0), tier)).c_str(), stdout); return 0;
    }
    if (cmd == "replay" || cmd == "min") {
        Trace t; if (pos.size() < 2 || !trace_load(pos[1], t)) { fprintf(stderr, "cannot load trace\n"); return 2; }
        const Prop *p = find(t.prop); if (!p) return 2;
        if (cmd == "min") {
            std::string c = forked(p, t);
            if (c.empty()) { fprintf(stderr, "no violation\n"); return 2; }
            Trace m = minimise(p, t, c, num("budget", 60));
            fputs(trace_dump(m).c_str(), stdout);
            return 0;
        }
        u64 h = 0; std::string msg, c;
        if (o.count("direct")) { Ctx x = run(p, t, nullptr, true); c = x.violated ? x.cls : ""; h = x.h; msg = x.msg; if (x.foreign) printf("foreign: %s %s\n", x.cls.c_str(), x.msg.c_str()); }
        else c = forked(p, t, &h, &msg);
        printf("result class=%s hash=%016llx msg=%s\n", c.empty() ? "OK" : c.c_str(), (unsigned long long)h, msg.c_str());
        return c.empty() ? 0 : 1;
    }
    if (cmd == "batch") {
        const Prop *p = find(o["prop"]); if (!p) return 2;
        u64 from = num("from", 0), to = num("to", 100), step = num("step", 1), every = num("recheck", 50);
        double end = now() + (double)num("wall", 600);
        int pf = o.count("progress") ? open(o["progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
        Stats st; u64 done = 0, rechecks = 0; int rc = 0;
        u64 vio_index = 0; std::string vio_cls, vio_msg; u64 nondet = 0, nondet_index = 0;
        for (u64 i = from; i < to; i += step) {
            if ((done & 15) == 0 && now() > end) break;
            if (pf >= 0) (void)!pwrite(pf, &i, 8, 0);
            Trace t = make(p, seed, i, tier);
            Ctx c = run(p, t, &st);
            ++done;
            if (c.violated) { vio_index = i; vio_cls = c.cls; vio_msg = c.msg; rc = 1; break; }
            if (done % every == 1) {
                Stats dummy; Ctx d = run(p, t, &dummy); ++rechecks;
                if (d.h != c.h) { st.c["nondeterministic_rerun"]++; if (!nondet++) nondet_index = i; }
            }
        }
        FILE *f = o.count("out") ? fopen(o["out"].c_str(), "w") : stdout;
        u64 cov = 0; for (size_t i = 0; i < sizeof sim_cov; ++i) cov += sim_cov[i];
        fprintf(f, "rc %d\nruns %llu\nevents %llu\nsim_us %llu\nnontrivial %llu\nchecks %llu\nrechecks %llu\ncov %llu\n", rc,
                (unsigned long long)done, (unsigned long long)st.events, (unsigned long long)st.sim_us,
                (unsigned long long)st.nontrivial, (unsigned long long)st.checks, (unsigned long long)rechecks, (unsigned long long)cov);
        if (rc) fprintf(f, "vindex %llu\nvcls %s\nvmsg %s\n", (unsigned long long)vio_index, vio_cls.c_str(), vio_msg.c_str());
        if (nondet) fprintf(f, "nondet_index %llu\n", (unsigned long long)nondet_index);
        for (auto &kv : st.c) fprintf(f, "count %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        if (o.count("sets")) {
            FILE *g = fopen(o["sets"].c_str(), "w");
            u64 ns = st.states.size(), nh = st.scheds.size();
            fwrite(&ns, 8, 1, g); for (u64 v : st.states) fwrite(&v, 8, 1, g);
            fwrite(&nh, 8, 1, g); for (u64 v : st.scheds) fwrite(&v, 8, 1, g);
            u64 nc = st.cases.size();
            fwrite(&nc, 8, 1, g); for (u64 v : st.cases) fwrite(&v, 8, 1, g);
            fwrite(sim_cov, 1, sizeof sim_cov, g);
            fclose(g);
        }
        if (f != stdout) fclose(f);
        fflush(stdout);
        _exit(rc);
    }
    fprintf(stderr, "usage: sim list|gen|replay|min|batch\n");
    return 2;
}
