// Run driver: batches of seeded runs, replay, shrinking.
#include "world.h"
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <openssl/err.h>
#include <openssl/rand.h>

void count_openssl(); void install_rand(); void snapshot_images(); void run_guarded(function<void()>); void warm_keys();
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Result {
    int status;               // 0 not finished, 1 held, 2 violation
    char cls[96], msg[1500];
    uint64_t steps, now, switches, hash, schash, fired[NFAULT], probes;
    char probetext[6000];
    uint32_t tn[NSTREAM]; uint32_t tape[1];
};
static const size_t RSZ = 64u << 20;
static Result *new_result() { return (Result *)mmap(nullptr, RSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

static uint64_t run_seed(const string &prop, uint64_t vseed, uint64_t i) {
    uint64_t h = 1469598103934665603ull; for (char c : prop) { h ^= (unsigned char)c; h *= 1099511628211ull; }
    Rng r; r.seed(h ^ (vseed * 0x9E3779B97F4A7C15ull) ^ (i * 0xC2B2AE3D27D4EB4Full)); return r.next() >> 16;
}
// runs in a fresh child process; never returns
static void child_run(const string &prop, uint64_t seed, const vector<uint32_t> *tape, Result *R, bool verbose) {
    sigset_t vs; sigemptyset(&vs); sigaddset(&vs, SIGVTALRM); pthread_sigmask(SIG_BLOCK, &vs, nullptr);
    struct itimerval it = {}; it.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &it, nullptr);      // of CPU time; a run takes milliseconds
    alarm(240);
    Kernel *k = new Kernel; K = k;
    k->verbose = verbose;
    if (tape) { k->tape.replay = true; for (int i = 0; i < NSTREAM; i++) k->tape.in[i] = tape[i]; }
    Scenario sc = find_scenario(prop);
    run_guarded([&] { k->init(seed); sc(); if (k->ended) k->run(); });
    Result &r = *R;
    snprintf(r.cls, sizeof r.cls, "%s", k->viol_class.c_str()); snprintf(r.msg, sizeof r.msg, "%s", k->viol_msg.c_str());
    r.steps = k->steps; r.now = k->now; r.switches = k->switches; r.hash = k->hash; r.schash = k->schash;
    for (int i = 0; i < NFAULT; i++) r.fired[i] = k->fired[i];
    string p; for (auto &e : k->probes) p += e.first + "=" + std::to_string(e.second) + ";";
    snprintf(r.probetext, sizeof r.probetext, "%s", p.c_str());
    if (k->ended) {
        uint32_t *o = r.tape; size_t room = (RSZ - sizeof(Result)) / 4;
        for (int i = 0; i < NSTREAM; i++) { uint32_t n = std::min(room, k->tape.rec[i].size()); r.tn[i] = n; memcpy(o, k->tape.rec[i].data(), n * 4); o += n; room -= n; }
    }
    if (verbose) {
        for (auto &s : k->trace) printf("%s\n", s.c_str());
        for (Proc *p : k->procs) if (p->errtext.size()) printf("--- stderr of %s:\n%s\n", p->role.c_str(), p->errtext.substr(0, 2000).c_str());
        fflush(stdout);
    }
    r.status = k->ended ? 2 : 1;
    _exit(0);
}
static bool exec_run(const string &prop, uint64_t seed, const vector<uint32_t> *tape, Result *R, bool verbose, int *wst = nullptr) {
    R->status = 0; R->cls[0] = R->msg[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(90); }
    if (!p) child_run(prop, seed, tape, R, verbose);
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (wst) *wst = st;
    return R->status != 0;
}
static void get_tape(Result *R, vector<uint32_t> *t) { uint32_t *o = R->tape; for (int i = 0; i < NSTREAM; i++) { t[i].assign(o, o + R->tn[i]); o += R->tn[i]; while (t[i].size() && !t[i].back()) t[i].pop_back(); } }

static const char *sname[] = {"op", "sched", "fault", "io", "knob"};
static void save(const string &path, const string &prop, uint64_t seed, Result *R, vector<uint32_t> *t) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(90); }
    fprintf(f, "simreplay 1\nproperty %s\nseed %llu\nclass %s\nmessage ", prop.c_str(), (unsigned long long)seed, R->cls);
    for (char *c = R->msg; *c; c++) fputc(*c == '\n' || *c == '\r' ? ' ' : *c, f);
    fprintf(f, "\nhash %llx\nsteps %llu\n", (unsigned long long)R->hash, (unsigned long long)R->steps);
    for (int i = 0; i < NSTREAM; i++) { fprintf(f, "tape %s %zu", sname[i], t[i].size()); for (auto v : t[i]) fprintf(f, " %u", v); fprintf(f, "\n"); }
    fclose(f);
}
static bool load(const string &path, string &prop, uint64_t &seed, string &cls, uint64_t &hash, vector<uint32_t> *t) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
    char *line = nullptr; size_t cap = 0; ssize_t n; bool ok = false;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[n - 1] = 0;
        if (!strncmp(line, "simreplay", 9)) ok = true;
        else if (!strncmp(line, "property ", 9)) prop = line + 9;
        else if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, 0, 10);
        else if (!strncmp(line, "class ", 6)) cls = line + 6;
        else if (!strncmp(line, "hash ", 5)) hash = strtoull(line + 5, 0, 16);
        else if (!strncmp(line, "tape ", 5)) {
            char nm[16]; int o; size_t cnt; if (sscanf(line + 5, "%15s %zu%n", nm, &cnt, &o) < 2) continue;
            for (int i = 0; i < NSTREAM; i++) if (!strcmp(nm, sname[i])) { char *p = line + 5 + o; for (size_t k = 0; k < cnt; k++) t[i].push_back(strtoul(p, &p, 10)); }
        }
    }
    free(line); fclose(f); return ok;
}

void warmup() {
    count_openssl();
    OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_NO_ATEXIT, nullptr);
    install_rand();
    warm_keys();
    for (const char *key : {"tool0", ""}) {
        SSL *s = SSL_new(server_ctx()), *c = SSL_new(client_ctx(key));
        BIO *a = BIO_new(BIO_s_mem()), *b = BIO_new(BIO_s_mem()); BIO_up_ref(a); BIO_up_ref(b);
        SSL_set_bio(s, a, b); SSL_set_bio(c, b, a); SSL_set_accept_state(s); SSL_set_connect_state(c);
        for (int i = 0; i < 20; i++) { SSL_do_handshake(c); SSL_do_handshake(s); }
        SSL_write(c, "x", 1); char t; SSL_read(s, &t, 1); SSL_write(s, "y", 1); SSL_read(c, &t, 1);
        SSL_free(s); SSL_free(c);
    }
    ERR_clear_error();
    snapshot_images();
}

static void jline(FILE *f, uint64_t idx, uint64_t seed, Result *R) {
    fprintf(f, "{\"i\":%llu,\"seed\":%llu,\"st\":%d,\"steps\":%llu,\"now\":%llu,\"sw\":%llu,\"h\":\"%llx\",\"sh\":\"%llx\",\"p\":\"%s\",\"f\":{", (unsigned long long)idx, (unsigned long long)seed, R->status,
            (unsigned long long)R->steps, (unsigned long long)R->now, (unsigned long long)R->switches, (unsigned long long)R->hash, (unsigned long long)R->schash, R->probetext);
    bool first = true; for (int i = 0; i < NFAULT; i++) if (R->fired[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_name[i], (unsigned long long)R->fired[i]); first = false; }
    fprintf(f, "}}\n");
}

int main(int ac, char **av) {
    if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", av); }
    setenv("TZ", "UTC", 1); setenv("OPENSSL_CONF", "/dev/null", 1);
    string mode = ac > 1 ? av[1] : "";
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
    string dir = self; dir = dir.substr(0, dir.rfind('/'));
    g_keydir = getenv("SIM_KEYS") ? getenv("SIM_KEYS") : dir + "/../keys";
    signal(SIGPIPE, SIG_IGN);
    warmup();
    if (mode == "batch" && ac >= 8) {
        string prop = av[2]; uint64_t vseed = strtoull(av[3], 0, 10), N = strtoull(av[4], 0, 10); int jobs = atoi(av[5]); double cap = atof(av[6]); string out = av[7];
        uint64_t first = ac > 8 ? strtoull(av[8], 0, 10) : 0;
        bool keep_going = getenv("SIM_KEEP_GOING");
        if (!find_scenario(prop)) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 90; }
        mkdir(out.c_str(), 0755);
        volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        double t0 = wall(); vector<pid_t> ws;
        for (int w = 0; w < jobs; w++) {
            pid_t p = fork();
            if (p) { ws.push_back(p); continue; }
            Result *R = new_result();
            FILE *f = fopen((out + "/w" + std::to_string(w) + ".jsonl").c_str(), "w"); if (!f) _exit(90);
            int bad = 0;
            for (uint64_t i = first + w; i < first + N; i += jobs) {
                if (*stop || wall() - t0 > cap) break;
                uint64_t s = run_seed(prop, vseed, i); int st = 0;
                if (!exec_run(prop, s, nullptr, R, false, &st)) {
                    fprintf(f, "{\"i\":%llu,\"seed\":%llu,\"st\":0,\"wait\":%d}\n", (unsigned long long)i, (unsigned long long)s, st);
                    if (++bad > 5) break;
                    continue;
                }
                jline(f, i, s, R);
                if (R->status == 2) {
                    vector<uint32_t> t[NSTREAM]; get_tape(R, t);
                    save(out + "/viol-" + std::to_string(i) + ".replay", prop, s, R, t);
                    if (!keep_going) { *stop = 1; break; }
                }
            }
            fclose(f); _exit(0);
        }
        for (pid_t p : ws) { int st; waitpid(p, &st, 0); }
        return 0;
    }
    Result *R = new_result();
    if (mode == "run" && ac >= 4) {
        bool v = ac > 4 && !strcmp(av[4], "-v"); int st;
        bool ok = exec_run(av[2], strtoull(av[3], 0, 10), nullptr, R, v, &st);
        printf("status=%d wait=%d class=%s msg=%s steps=%llu now=%llu sw=%llu hash=%llx probes=%s\n", ok ? R->status : 0, st, R->cls, R->msg, (unsigned long long)R->steps, (unsigned long long)R->now, (unsigned long long)R->switches, (unsigned long long)R->hash, R->probetext);
        if (R->status == 2 && getenv("SIM_SAVE")) { vector<uint32_t> t[NSTREAM]; get_tape(R, t); save(getenv("SIM_SAVE"), av[2], strtoull(av[3], 0, 10), R, t); }
        return ok ? R->status == 2 : 91;
    }
    if (mode == "replay" && ac >= 3) {
        string prop, cls; uint64_t seed = 0, hash = 0; vector<uint32_t> t[NSTREAM];
        if (!load(av[2], prop, seed, cls, hash, t)) { fprintf(stderr, "cannot load %s\n", av[2]); return 90; }
        bool v = ac > 3 && !strcmp(av[3], "-v"); int st;
        bool ok = exec_run(prop, seed, t, R, v, &st);
        printf("status=%d wait=%d class=%s hash=%llx %s\nmsg=%s\n", ok ? R->status : 0, st, R->cls, (unsigned long long)R->hash, R->hash == hash && cls == R->cls ? "REPRODUCED" : cls == R->cls ? "same class, different execution" : "different", R->msg);
        return !ok ? 91 : R->status == 2 ? (R->hash == hash && cls == R->cls ? 1 : 2) : 0;
    }
    if (mode == "shrink" && ac >= 5) {
        string prop, cls; uint64_t seed = 0, hash = 0; vector<uint32_t> t[NSTREAM];
        if (!load(av[2], prop, seed, cls, hash, t)) return 90;
        double t0 = wall(), cap = atof(av[4]); int tries = 0, kept = 0;
        vector<uint32_t> best[NSTREAM]; for (int i = 0; i < NSTREAM; i++) best[i] = t[i];
        auto attempt = [&](vector<uint32_t> *c) {
            if (wall() - t0 > cap) return false;
            tries++;
            if (!exec_run(prop, seed, c, R, false) || R->status != 2 || cls != R->cls) return false;
            for (int i = 0; i < NSTREAM; i++) best[i] = c[i];
            kept++; return true;
        };
        const int order[] = {S_SCHED, S_IO, S_FAULT, S_KNOB, S_OP};
        bool progress = true; int round = 0;
        while (progress && round++ < 6 && wall() - t0 < cap) {
            progress = false;
            for (int s : order) {
                auto with = [&](vector<uint32_t> v) { while (v.size() && !v.back()) v.pop_back(); if (v == best[s]) return false; vector<uint32_t> c[NSTREAM]; for (int i = 0; i < NSTREAM; i++) c[i] = best[i]; c[s] = v; return attempt(c); };
                if (best[s].empty()) continue;
                if (with({})) { progress = true; continue; }
                for (size_t keep = best[s].size() / 2; best[s].size() && keep < best[s].size();) { vector<uint32_t> v(best[s].begin(), best[s].begin() + keep); if (with(v)) { progress = true; keep = best[s].size() / 2; } else keep += (best[s].size() - keep + 1) / 2; if (wall() - t0 > cap) break; if (best[s].size() - keep < 1) break; }
                for (size_t blk = std::max<size_t>(best[s].size() / 2, 1); blk >= 1; blk /= 2) {
                    for (size_t p = 0; p < best[s].size() && wall() - t0 < cap; p += blk) {
                        vector<uint32_t> v = best[s]; bool nz = false; for (size_t i = p; i < std::min(p + blk, v.size()); i++) { nz |= v[i] != 0; v[i] = 0; }
                        if (nz && with(v)) { progress = true; continue; }
                        if (s == S_OP || s == S_FAULT) { v = best[s]; v.erase(v.begin() + p, v.begin() + std::min(p + blk, v.size())); if (with(v)) { progress = true; p = p >= blk ? p - blk : 0; } }
                    }
                    if (blk == 1) break;
                }
                if (s == S_OP || s == S_FAULT) for (size_t p = 0; p < best[s].size() && wall() - t0 < cap; p++) while (p < best[s].size() && best[s][p] > 1) { vector<uint32_t> v = best[s]; v[p] /= 2; if (!with(v)) { v = best[s]; v[p]--; if (!with(v)) break; } progress = true; }
            }
        }
        if (!exec_run(prop, seed, best, R, false) || R->status != 2) { printf("shrunk run does not fail\n"); return 92; }
        save(av[3], prop, seed, R, best);
        printf("shrunk in %d tries (%d kept): op %zu sched %zu fault %zu io %zu knob %zu\n", tries, kept, best[0].size(), best[1].size(), best[2].size(), best[3].size(), best[4].size());
        return 0;
    }
    fprintf(stderr, "usage: sim batch PROP VSEED N JOBS WALLCAP OUTDIR [FIRST] | run PROP SEED [-v] | replay FILE [-v] | shrink FILE OUT SECONDS\n");
    return 90;
}
