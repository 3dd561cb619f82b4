// Deterministic simulator: scheduler, processes, faults, memory.
#include "sim.h"
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <openssl/rand.h>

thread_local Proc *cur = nullptr;
Proc *volatile g_running = nullptr;
Kernel *K = nullptr;
const char *fault_name[] = {
#define X(k) #k,
    FAULT_KINDS(X)
#undef X
    nullptr};
struct RunEnd {};

// ------------------------------------------------------------------ tape
void Tape::seed(uint64_t s) { for (int i = 0; i < NSTREAM; i++) rng[i].seed(s * 31 + i * 7919 + 17); }
uint32_t Tape::choose(Stream st, uint32_t n) {
    uint32_t v;
    if (n <= 1) return 0;
    if (replay) { v = pos[st] < in[st].size() ? in[st][pos[st]] : 0; if (v >= n) v = n - 1; }
    else v = (uint32_t)(rng[st].next() % n);
    pos[st]++;
    rec[st].push_back(v);
    return v;
}

// ------------------------------------------------------------------ log
void Kernel::log(const char *fmt, ...) {
    if (!verbose) return;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char h[96]; snprintf(h, sizeof h, "%6llu t=%lluus %s: ", (unsigned long long)steps, (unsigned long long)now, cur ? cur->role.c_str() : "-");
    trace.push_back(string(h) + b);
}

// ------------------------------------------------------------------ memory
static char *arena = nullptr; static size_t arena_off = 4096; static const size_t ARENA = 1ull << 36;
struct ForkSave { ucontext_t ctx; ucontext_t tmp; vector<char> stack; char *sp; Proc *parent, *child; volatile int back; vector<char> data, bss; char alt[65536]; };

static void raw_copy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static void raw_zero(char *d, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }

[[noreturn]] static void crash(const string &what) {
    if (!cur) { fprintf(stderr, "harness crash: %s\n", what.c_str()); _exit(99); }
    K->log("CRASH %s", what.c_str());
    if (K->crash_ok && K->crash_ok(cur)) { K->probe("crash-after-alloc-fault"); K->proc_exit(-1, SIGSEGV); }
    cur->crashed = true;
    string role = cur->role.substr(0, cur->role.find('#'));
    K->violate("crash:" + role, cur->role + " crashed: " + what);
    K->park();
}

bool memerr_addr(uintptr_t a, string &what) {
    if (!arena || a < (uintptr_t)arena || a >= (uintptr_t)arena + ARENA) return false;
    const Kernel::Alloc *best = nullptr; uintptr_t bp = 0;
    for (auto &e : K->allocs) {
        uintptr_t lo = (uintptr_t)e.second.base, hi = lo + (e.second.pages + 1) * 4096;
        if (a >= lo && a < hi) { best = &e.second; bp = e.first; }
    }
    char b[160];
    if (best && best->freed) snprintf(b, sizeof b, "use after free (offset %ld of a freed %zu byte block)", (long)(a - bp), best->n);
    else if (best) snprintf(b, sizeof b, "access at offset %ld of a %zu byte block", (long)(a - bp), best->n);
    else snprintf(b, sizeof b, "wild heap access");
    what = b;
    return true;
}

extern "C" {
void *sim_malloc(size_t n) {
    if (!cur) return malloc(n);
    if (cur->owner) K->syscall("malloc");        // a thread can be preempted anywhere: here too
    if (K->fault(F_ALLOC)) { errno = ENOMEM; return nullptr; }
    if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    size_t pages = (n + 4095) / 4096; if (!pages) pages = 1;
    if (arena_off + (pages + 1) * 4096 > ARENA) { errno = ENOMEM; return nullptr; }
    char *base = arena + arena_off; arena_off += (pages + 1) * 4096;
    if (mprotect(base, pages * 4096, PROT_READ | PROT_WRITE)) {      // tens of thousands of live blocks
        size_t live = 0; for (auto &a : K->allocs) if (!a.second.freed && a.second.pid == cur->pid) live++;
        if (live > 10000) K->violate("memory:" + cur->role, cur->role + " holds " + std::to_string(live) + " blocks of memory and asks for more");
        fprintf(stderr, "mprotect failed\n"); _exit(98);
    }
    size_t slack = pages * 4096 - n;
    char *p = K->alloc_low ? base : base + slack;          // at the start or at the end of the pages: next to a guard page
    if (K->alloc_low) memset(base + n, 0xC3, slack > 64 ? 64 : slack);
    else memset(base + (slack > 64 ? slack - 64 : 0), 0xC3, slack > 64 ? 64 : slack);
    if (n) memset(p, K->fillbyte, n);
    K->allocs[(uintptr_t)p] = {base, pages, n, cur->pid, false};
    cur->nalloc++;
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    if (!cur) { free(p); return; }
    if (cur->owner) K->syscall("free");
    auto it = K->allocs.find((uintptr_t)p);
    if (it == K->allocs.end()) crash("free() of a pointer that malloc did not return");
    auto &a = it->second;
    if (a.freed) crash("double free");
    size_t slack = a.pages * 4096 - a.n; if (slack > 64) slack = 64;
    if (K->alloc_low) {
        for (size_t i = 0; i < slack; i++) if (((unsigned char *)p)[a.n + i] != 0xC3) crash("buffer overrun after a heap block of " + std::to_string(a.n) + " bytes");
    } else for (size_t i = 1; i <= slack; i++)
        if (((unsigned char *)p)[-(ssize_t)i] != 0xC3) crash("buffer underrun before a heap block of " + std::to_string(a.n) + " bytes");
    a.freed = true; cur->nalloc--;
    madvise(a.base, a.pages * 4096, MADV_DONTNEED);
    mprotect(a.base, a.pages * 4096, PROT_NONE);
}
void *sim_calloc(size_t a, size_t b) {
    if (!cur) return calloc(a, b);
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
    void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void *sim_realloc(void *o, size_t n) {
    if (!cur) return realloc(o, n);
    if (!o) return sim_malloc(n);
    auto it = K->allocs.find((uintptr_t)o);
    if (it == K->allocs.end() || it->second.freed) crash("realloc() of an invalid pointer");
    size_t old = it->second.n;
    void *p = sim_malloc(n); if (!p) return nullptr;
    memcpy(p, o, old < n ? old : n); sim_free(o); return p;
}
void *sim_reallocarray(void *o, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return sim_realloc(o, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **o, const char *f, va_list ap) {
    va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
    if (n < 0) return -1;
    char *p = (char *)sim_malloc(n + 1); if (!p) { *o = nullptr; return -1; }
    vsnprintf(p, n + 1, f, ap); *o = p; return n;
}
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }
int sim_posix_memalign(void **o, size_t, size_t n) { void *p = sim_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
}

// ------------------------------------------------------------------ signals in image code
static void on_sig(int sig, siginfo_t *si, void *) {
    if (sig == SIGVTALRM) {      // may be delivered to any thread: the one that runs is g_running
        Proc *r = g_running; string role = r ? r->role.substr(0, r->role.find('#')) : string("-");
        if (!K->ended) { K->ended = true; K->viol_class = "spin:" + role; K->viol_msg = (r ? r->role : string("-")) + " computes without end"; sem_post(&K->mainsem); }
        K->park();
    }
    if (!cur) { static const char m[] = "harness fault\n"; ::syscall(SYS_write, 2, m, sizeof m - 1); _exit(97); }
    string what;
    if (sig == SIGSEGV || sig == SIGBUS) {
        if (!memerr_addr((uintptr_t)si->si_addr, what)) what = (uintptr_t)si->si_addr < 65536 ? "null pointer access" : "invalid memory access";
    } else if (sig == SIGABRT) what = "abort (stack smashing or assertion)";
    else if (sig == SIGFPE) what = "arithmetic fault";
    else what = "signal " + std::to_string(sig);
    crash(what);
}
static void install_sig() {
    struct sigaction sa = {}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ randomness and time for OpenSSL
static Rng grng;
static int det_bytes(unsigned char *b, int n) {
    if (cur && K->fault(F_ENTROPY)) return 0;
    Rng &r = cur ? cur->rng : grng;
    for (int i = 0; i < n; i++) b[i] = (unsigned char)(r.next() >> 24);
    return 1;
}
static int det_status() { return 1; }
static int det_seed(const void *, int) { return 1; }
static int det_add(const void *, int, double) { return 1; }
static void det_cleanup() {}
static RAND_METHOD det_method = {det_seed, det_bytes, det_cleanup, det_add, det_bytes, det_status};
// OpenSSL's allocations, counted per process (the owner is the process that allocated)
struct OHdr { Proc *p; size_t n; };
static void *o_malloc(size_t n, const char *, int) { OHdr *h = (OHdr *)malloc(sizeof(OHdr) + n); if (!h) return nullptr; h->p = cur; h->n = n; if (cur) { cur->nossl++; } return h + 1; }
static void o_free(void *p, const char *, int) { if (!p) return; OHdr *h = (OHdr *)p - 1; if (h->p) h->p->nossl--; free(h); }
static void *o_realloc(void *p, size_t n, const char *f, int l) { if (!p) return o_malloc(n, f, l); if (!n) { o_free(p, f, l); return nullptr; } OHdr *h = (OHdr *)realloc((OHdr *)p - 1, sizeof(OHdr) + n); if (!h) return nullptr; h->n = n; return h + 1; }
void count_openssl() { CRYPTO_set_mem_functions(o_malloc, o_realloc, o_free); }
void install_rand() { grng.seed(42); RAND_set_rand_method(&det_method); }

// ------------------------------------------------------------------ kernel
void Kernel::init(uint64_t s) {
    seed = s;
    tape.seed(s);
    sem_init(&mainsem, 0, 0);
    root = std::make_shared<Inode>(); root->dir = true; root->mode = 0755;
    if (!arena) {
        arena = (char *)mmap((void *)0x200000000000ull, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (arena == MAP_FAILED) { perror("mmap arena"); _exit(96); }
    }
    install_sig();
    // run-wide knobs
    switch (knob(5)) { case 0: preempt_mean = 0; break; case 1: preempt_mean = 64; break; case 2: preempt_mean = 16; break; case 3: preempt_mean = 4; break; default: preempt_mean = 1; }
    chunk_mode = knob(4);
    static const size_t caps[] = {65536, 4096, 16384, 8192, 5000, 4096, 100000};
    pipe_cap = caps[knob(7)];
    static const int64_t dates[] = {1735700000, 100000 /* 1970 */, 2147483640 /* 2038 */, 2524607990 /* the end of 2049 */, 4102444800 /* 2100 */};
    uint32_t d = knob(8); if (d >= 4) epoch = dates[d - 3];
    if (knob(6) == 5) { uint64_t m = 1ull << knob(13); clk_at = 1 + m + knob((uint32_t)m); clk_len = 1ll << knob(30); if (knob(2)) clk_len = -clk_len; }

    static const size_t bufs[] = {4096, 8192, 1024, 512, 64, 4096, 65536, 100};
    bufsz = bufs[knob(8)];
    static const int fills[] = {0xA5, 0x00, 0xFF, '/', '\n', 'x'};
    fillbyte = fills[knob(6)]; alloc_low = knob(4) == 3;
    gap = preempt_mean ? tape.choose(S_SCHED, preempt_mean * 2 + 1) + 1 : 0;
}

static image *find_free(const string &base, bool &used_before) {
    static std::unordered_set<string> used;
    for (int i = 0; i < g_nimages; i++) {
        image *im = &g_images[i];
        if (base != im->base) continue;
        bool busy = false;
        for (Proc *p : K->procs) if (p->img == im && (!p->done() || p->crashed || p->sig)) busy = true;   // a killed one keeps its image: its thread may hold pointers
        if (busy) continue;
        used_before = used.count(im->name) > 0; used.insert(im->name);
        return im;
    }
    return nullptr;
}
static map<string, string> pristine;
void snapshot_images() {
    for (int i = 0; i < g_nimages; i++) { image &m = g_images[i]; pristine[m.name] = m.data0 ? string(m.data0, m.data1 - m.data0) : string(); }
}
image *Kernel::grab_image(const string &base) {
    bool used = false;
    image *im = find_free(base, used);
    if (!im) {   // reuse the image of a killed process: its thread never runs again
        for (int i = 0; i < g_nimages; i++) {
            image *c = &g_images[i]; if (base != c->base) continue;
            bool live = false; for (Proc *p : procs) if (p->img == c && !p->done()) live = true;
            if (!live) { im = c; used = true; break; }
        }
    }
    if (!im) return nullptr;
    if (used) {
        string &d = pristine[im->name];
        if (d.size()) raw_copy(im->data0, d.data(), d.size());
        if (im->bss0 && im->bss1 > im->bss0) {   // whole pages of a large bss are dropped, which zeroes them
            char *a = im->bss0, *b = im->bss1, *pa = (char *)(((uintptr_t)a + 4095) & ~4095ull), *pb = (char *)((uintptr_t)b & ~4095ull);
            if (pb > pa + 65536 && madvise(pa, pb - pa, MADV_DONTNEED) == 0) { raw_zero(a, pa - a); raw_zero(pb, b - pb); }
            else raw_zero(a, b - a);
        }
    }
    return im;
}

extern "C" void sim_open_std(Proc *p);
extern "C" void sim_flush_all(Proc *p);

static void *thread_main(void *a) {
    Proc *p = (Proc *)a;
    stack_t ss = {}; ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    sigset_t vs; sigemptyset(&vs); sigaddset(&vs, SIGVTALRM); pthread_sigmask(SIG_UNBLOCK, &vs, nullptr);
    while (sem_wait(&p->sem)) {}
    cur = p; g_running = p;
    if (p->img && !p->owner) sim_open_std(p);
    int rc;
    if (p->body) rc = p->body();
    else {
        vector<char *> av; vector<string> copy = p->argv;
        for (auto &s : copy) av.push_back((char *)s.c_str());
        av.push_back(nullptr);
        rc = p->img->main((int)copy.size(), av.data());
    }
    K->proc_exit(rc & 255, 0);
}

Proc *Kernel::spawn(const string &role, const string &base, vector<string> argv, Proc *parent) {
    Proc *p = new Proc; p->pid = nextpid++; p->role = role; p->argv = argv; p->parent = parent;
    p->rng.seed(seed * 1000003 + 100 + procs.size());     // not by pid: a pid may be used again
    sem_init(&p->sem, 0, 0);
    procs.push_back(p);
    if (base.size()) {
        p->img = grab_image(base);
        if (!p->img) { fprintf(stderr, "no free image for %s\n", base.c_str()); _exit(95); }
    }
    // fds 0,1,2
    for (int i = 0; i < 3; i++) {
        auto of = std::make_shared<OF>(); of->t = i == 0 ? OF::NUL : OF::SINK; of->rd = i == 0; of->wr = i > 0;
        if (i == 1) of->sink = &p->outtext; if (i == 2) of->sink = &p->errtext;
        p->fds[i] = {of, false};
    }
    return p;
}
Proc *Kernel::spawn_fn(const string &role, function<int()> f, const string &toolimg) {
    Proc *p = spawn(role, toolimg, {role});
    p->body = f; for (auto &e : defenv) p->env[e.first] = e.second;
    start(p);
    return p;
}
Proc *Kernel::spawn_thread(const string &role, function<int()> f) {
    Proc *o = cur->group(), *p = new Proc(o); p->pid = nextpid++; p->role = role; p->argv = o->argv; p->parent = o->parent; p->img = o->img; p->env = o->env; p->cwd = o->cwd; p->sigpipe = o->sigpipe;
    p->rng.seed(seed * 1000003 + 100 + procs.size()); sem_init(&p->sem, 0, 0); procs.push_back(p); p->body = f; start(p);
    return p;
}
// what a real process has above main's frame (environment, arguments): an overrun of main's buffers does not reach the thread's own data
static void *thread_top(void *a) { volatile char pad[128 << 10]; pad[0] = 0; void *r = thread_main(a); pad[1] = pad[0]; return r; }
void Kernel::start(Proc *p) {
    p->st = Proc::RUN;
    pthread_attr_t at; pthread_attr_init(&at);
    p->stksz = 8 << 20;                       // the usual limit of a main thread
    p->stk = (char *)mmap(nullptr, p->stksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    memset(p->stk + p->stksz - (384 << 10), fillbyte, 384 << 10);     // no helpful zeros below the stack pointer
    mprotect(p->stk, 4096, PROT_NONE);
    pthread_attr_setstack(&at, p->stk, p->stksz);
    if (pthread_create(&p->th, &at, thread_top, p)) { perror("pthread_create"); _exit(94); }
    pthread_attr_destroy(&at);
}
void Kernel::park() { sem_t s; sem_init(&s, 0, 0); for (;;) sem_wait(&s); }

Proc *Kernel::pick(bool curok) {
    for (;;) {
        vector<Proc *> r; std::set<Proc *> lent; for (Proc *p : procs) if (p->vforking) lent.insert(p->group());
        for (Proc *p : procs) {
            if (lent.size() && lent.count(p->group())) continue;      // the address space is lent to the child until it has its own
            if (p->st == Proc::RUN ? p->wake <= now : (p->st == Proc::BLOCK && p->wake <= now && p->ready && p->ready())) r.push_back(p);
        }
        if (r.empty()) {
            uint64_t m = UINT64_MAX;
            for (Proc *p : procs) if ((p->st == Proc::RUN || p->st == Proc::BLOCK) && !lent.count(p->group()) && p->wake > now && p->wake < m && (p->st == Proc::RUN || !p->ready || p->ready())) m = p->wake;
            if (m == UINT64_MAX) return nullptr;
            now = m;
            continue;
        }
        // order: current first so that choice 0 means "carry on"
        for (size_t i = 0; i < r.size(); i++) if (r[i] == cur && i) { std::rotate(r.begin(), r.begin() + i, r.begin() + i + 1); break; }
        return r[tape.choose(S_SCHED, r.size())];
    }
}
void Kernel::switch_to(Proc *n) {
    Proc *me = cur;
    if (n == me) return;
    switches++;
    schash ^= n ? n->pid * 2654435761u + steps : 77; schash *= 1099511628211ull;
    mix(n ? n->pid : 0);
    if (!n) sem_post(&mainsem); else { n->st = n->st == Proc::BLOCK ? Proc::RUN : n->st; sem_post(&n->sem); }
    if (me) { while (sem_wait(&me->sem)) {} cur = me; g_running = me; me->st = Proc::RUN; }
}
void Kernel::syscall(const char *what, bool preemptible) {
    Proc *p = cur;
    if (!p) return;
    steps++; now += 2; p->nsys++;
    mix((uint64_t)p->pid << 32 ^ (uint64_t)what[0] << 8 ^ what[1]);
    if (ended) park();
    if (steps > stepcap) violate("livelock", "no quiescence within " + std::to_string(stepcap) + " simulated system calls; last in " + p->role + ": " + what);
    if (steps == clk_at) { epoch += clk_len; if (epoch < 0) epoch = 0; fired[F_CLOCKJUMP]++; log("FAULT clock jump %lld s", (long long)clk_len); }
    if (faults_on && !faults.empty()) {
        for (auto &f : faults) {
            if (f.k != F_KILL && f.k != F_STALL && f.k != F_CLOCKJUMP) continue;
            if (f.fired || p->role.compare(0, f.role.size(), f.role)) continue;
            if (f.seen++ != f.ord) continue;
            f.fired = 1; fired[f.k]++;
            if (f.k == F_KILL) { log("FAULT kill at %s", what); proc_exit(-1, 9); }
            if (f.k == F_STALL) { log("FAULT stall %u us at %s", f.len, what); sleep(f.len); }
            if (f.k == F_CLOCKJUMP) { epoch += f.err & 1 ? -(int64_t)f.len : f.len; if (epoch < 0) epoch = 0; log("FAULT clock jump %u s %s", f.len, f.err & 1 ? "back" : "forth"); }
        }
    }
    if (preemptible && preempt_mean && --gap == 0) {
        gap = tape.choose(S_SCHED, preempt_mean * 2 + 1) + 1;
        Proc *n = pick(true);
        if (n && n != p) switch_to(n);
    }
}
extern "C" void __sanitizer_cov_trace_pc() {      // between two basic blocks of the tool library, in a thread
    if (!K || !K->fine || !cur || !cur->owner || --K->finegap) return;
    int e = errno; K->finegap = 1 + cur->rng.next() % (2 * K->fine);
    if (K->ended) K->park();
    Proc *n = K->pick(true); if (n && n != cur) { K->fineswitch++; K->switch_to(n); }
    errno = e;
}
void Kernel::block(const char *why, function<bool()> pred) {
    Proc *p = cur;
    if (pred()) return;
    p->st = Proc::BLOCK; p->ready = pred; p->why = why;
    Proc *n = pick(false);
    if (n == p) { p->st = Proc::RUN; return; }
    switch_to(n);
    if (ended) park();
    p->ready = nullptr; p->why.clear();
}
void Kernel::sleep(uint64_t us) {
    Proc *p = cur; uint64_t until = now + us;
    p->wake = until; p->st = Proc::RUN;
    Proc *n = pick(false);
    if (n != p) switch_to(n);
    p->wake = 0;
}
void Kernel::kill(Proc *p, int sig) {
    if (p->done()) return;
    if (p == cur) proc_exit(-1, sig);
    p->st = Proc::DONE; p->sig = sig; p->fds.clear(); p->hold.reset(); p->files.clear();
    log("killed %s", p->role.c_str());
    if (on_exit) on_exit(p);
}
[[noreturn]] static void finish_vfork(Proc *child);
void Kernel::proc_exit(int code, int sig) {
    Proc *p = cur;
    if (ended) park();
    if (!sig && p->img && !p->fork && !p->owner) sim_flush_all(p);
    p->st = Proc::DONE; p->code = code; p->sig = sig;
    p->files.clear(); if (!p->owner) p->fds.clear(); p->hold.reset();
    mix(0xE0 + code * 7 + sig);
    log("exit code=%d sig=%d", code, sig);
    if (on_exit) on_exit(p);
    if (p->fork) finish_vfork(p);
    Proc *n = pick(false);
    cur = nullptr;                       // leave without waiting
    if (!n) sem_post(&mainsem); else { switches++; schash ^= n->pid + steps; schash *= 1099511628211ull; if (n->st == Proc::BLOCK) n->st = Proc::RUN; sem_post(&n->sem); }
    park();
}
void Kernel::run() {
    if (ended) throw RunEnd();
    Proc *n = pick(false);
    if (n) {
        if (n->st == Proc::BLOCK) n->st = Proc::RUN;
        sem_post(&n->sem);
        while (sem_wait(&mainsem)) {}
    }
    if (ended) throw RunEnd();
}
void Kernel::violate(const string &cls, const string &msg) {
    if (!ended) { ended = true; viol_class = cls; viol_msg = msg; log("VIOLATION %s: %s", cls.c_str(), msg.c_str()); }
    if (cur) { sem_post(&mainsem); park(); }
    throw RunEnd();
}
void run_guarded(function<void()> f) { try { f(); } catch (RunEnd &) {} }

void Kernel::addfault(FaultKind k, const string &role, uint32_t ord, uint32_t len, int err) { FaultSpec f; f.k = k; f.role = role; f.ord = ord; f.len = len; f.err = err; faults.push_back(f); }
int Kernel::fault(FaultKind k, const string &info) {
    if (!faults_on || !cur || faults.empty()) return 0;
    for (auto &f : faults) {
        if (f.k != k || cur->role.compare(0, f.role.size(), f.role)) continue;
        uint32_t s = f.seen++;
        if (s >= f.ord && s - f.ord < f.len) {
            f.fired++; fired[k]++;
            mix(0xFA17 + k);
            log("FAULT %s #%u %s (errno %d)", fault_name[k], s, info.c_str(), f.err);
            return f.err ? f.err : EIO;
        }
    }
    return 0;
}

// ------------------------------------------------------------------ fork/exec
static void vfork_restore(int lo, int hi) {
    ForkSave *s = (ForkSave *)(((uintptr_t)(unsigned)hi << 32) | (unsigned)lo);
    raw_copy(s->sp, s->stack.data(), s->stack.size());
    s->back = 1;
    setcontext(&s->ctx);
    abort();
}
[[noreturn]] static void finish_vfork(Proc *child) {
    ForkSave *s = child->fork; Proc *par = s->parent;
    child->fork = nullptr;
    par->vforking = false;
    if (par->done()) { // the parent was killed meanwhile: its thread is gone
        Proc *n = K->pick(false); cur = nullptr;
        if (!n) sem_post(&K->mainsem); else { if (n->st == Proc::BLOCK) n->st = Proc::RUN; sem_post(&n->sem); }
        K->park();
    }
    if (par->img) {
        if (s->data.size()) raw_copy(par->img->data0, s->data.data(), s->data.size());
        if (s->bss.size()) raw_copy(par->img->bss0, s->bss.data(), s->bss.size());
    }
    cur = par; g_running = par; par->st = Proc::RUN;
    getcontext(&s->tmp);
    s->tmp.uc_stack.ss_sp = s->alt; s->tmp.uc_stack.ss_size = sizeof s->alt; s->tmp.uc_link = nullptr;
    makecontext(&s->tmp, (void (*)())vfork_restore, 2, (int)(uintptr_t)s, (int)((uintptr_t)s >> 32));
    setcontext(&s->tmp);
    abort();
}
extern "C" int __attribute__((noinline)) sim_fork() {
    K->syscall("fork");
    Proc *p = cur;
    if (int e = K->fault(F_FORK)) { errno = e; return -1; }
    auto room = [] { for (const char *b : {"lve", "lveg"}) { bool any = false; for (int i = 0; i < g_nimages && !any; i++) { if (strcmp(g_images[i].base, b)) continue; bool live = false; for (Proc *q : K->procs) if (q->img == &g_images[i] && !q->done()) live = true; any = !live; } if (!any) return false; } return true; };
    if (!room()) K->block("fork (process table full)", room);   // LVEs that never end fill the table: the tool hangs, which the scenarios report
    Proc *c = new Proc; c->pid = K->nextpid++; c->role = p->role + "/child"; c->parent = p; c->img = p->img; c->argv = p->argv; c->env = p->env; c->cwd = p->cwd; c->mask = p->mask; c->exe = p->exe;
    c->role = "child:" + p->role;
    c->fds = p->fds; c->sigpipe = p->sigpipe; c->rng.seed(K->seed * 1000003 + c->pid); sem_init(&c->sem, 0, 0);
    c->files = p->files; c->maxfd = p->maxfd;
    K->procs.push_back(c);
    ForkSave *s = new ForkSave; s->parent = p; s->child = c; s->back = 0; c->fork = s;
    if (p->img) { s->data.assign(p->img->data0, p->img->data1); s->bss.assign(p->img->bss0, p->img->bss1); }
    getcontext(&s->ctx);
    if (s->back) { int pid = s->child->pid; return pid; }
    s->sp = (char *)s->ctx.uc_mcontext.gregs[REG_RSP];
    s->stack.assign(s->sp, p->stk + p->stksz);
    p->vforking = true; c->st = Proc::RUN; cur = c; g_running = c;
    return 0;
}
extern "C" int sim_vfork() { return sim_fork(); }

int do_exec(const char *path, vector<string> argv) {
    K->syscall("exec");
    Proc *p = cur;
    if (int e = K->fault(F_EXEC, path)) { errno = e; return -1; }
    INode n = K->lookup(path, nullptr, nullptr, p->cwd);
    if (!n) { errno = ENOENT; return -1; }
    if (n->dir || !(n->mode & 0111)) { errno = EACCES; return -1; }
    if (n->data.compare(0, 6, "#!SIM ")) { errno = ENOEXEC; return -1; }
    string what = n->data.substr(6, n->data.find('\n') - 6);
    if (!p->fork) { fprintf(stderr, "exec outside of fork is not simulated\n"); _exit(93); }
    for (auto it = p->fds.begin(); it != p->fds.end();) if (it->second.cloexec) it = p->fds.erase(it); else ++it;
    p->exe = path; p->argv = argv; p->files.clear();
    for (auto &e : p->fds) p->exec_fds.push_back(e.first);
    static int serial = 0;
    if (what.compare(0, 3, "fn:") == 0) { p->img = nullptr; p->body = K->harness_exe[what.substr(3)]; p->role = what.substr(3) + "#" + std::to_string(++serial); }
    else {
        p->img = K->grab_image(what);
        if (!p->img) { fprintf(stderr, "no free image for %s\n", what.c_str()); _exit(95); }
        p->role = what + "#" + std::to_string(++serial);
    }
    K->log("exec %s -> %s", path, p->role.c_str());
    K->start(p);
    finish_vfork(p);
}
extern "C" {
int sim_execl(const char *path, const char *a0, ...) {
    vector<string> av; va_list ap; va_start(ap, a0);
    for (const char *a = a0; a; a = va_arg(ap, const char *)) av.push_back(a);
    va_end(ap);
    return do_exec(path, av);
}
int sim_execlp(const char *path, const char *a0, ...) {
    vector<string> av; va_list ap; va_start(ap, a0);
    for (const char *a = a0; a; a = va_arg(ap, const char *)) av.push_back(a);
    va_end(ap);
    return do_exec(path, av);
}
int sim_execv(const char *path, char *const v[]) { vector<string> av; for (; *v; v++) av.push_back(*v); return do_exec(path, av); }
int sim_execve(const char *path, char *const v[], char *const *) { return sim_execv(path, v); }
int sim_execvp(const char *path, char *const v[]) { return sim_execv(path, v); }
void sim__exit(int c) { K->syscall("_exit"); K->log("_exit"); if (cur->img && !cur->fork) cur->files.clear(); K->proc_exit(c & 255, 0); }
void sim__Exit(int c) { sim__exit(c); }
void sim_exit(int c) { K->syscall("exit"); K->proc_exit(c & 255, 0); }
void sim_abort() { crash("abort() called"); }
int sim_atexit(void (*)(void)) { return 0; }
int sim_raise(int) { return 0; }
int sim_kill(int pid, int sig) {
    K->syscall("kill");
    for (Proc *p : K->procs) if (p->pid == pid) { if (p->done()) { errno = ESRCH; return -1; } if (sig) K->kill(p, sig); return 0; }
    errno = ESRCH; return -1;
}
int sim_waitpid(int pid, int *st, int opt) {
    K->syscall("waitpid");
    Proc *me = cur; Proc *t = nullptr;
    auto find = [me, pid]() -> Proc * { for (Proc *p : K->procs) if (p->parent == me && (pid <= 0 || p->pid == pid) && p->done() && !p->tag) return p; return nullptr; };
    bool any = false; for (Proc *p : K->procs) if (p->parent == me && (pid <= 0 || p->pid == pid) && !p->tag) any = true;
    if (!any) { errno = ECHILD; return -1; }
    if (!find()) { if (opt & 1) return 0; K->block("waitpid", [find] { return find() != nullptr; }); }
    t = find(); t->tag = 1;
    if (st) *st = t->sig ? t->sig : (t->code & 255) << 8;
    return t->pid;
}
int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_getpid() { return cur ? cur->pid : 1; }
int sim_getppid() { return cur && cur->parent ? cur->parent->pid : 1; }
typedef void (*sh)(int);
sh sim_signal(int s, sh h) { if (s == SIGPIPE) { sh o = cur->sigpipe ? SIG_IGN : SIG_DFL; cur->sigpipe = h == SIG_DFL ? 0 : 1; return o; } return SIG_DFL; }
sh sim___sysv_signal(int s, sh h) { return sim_signal(s, h); }
sh sim_bsd_signal(int s, sh h) { return sim_signal(s, h); }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (s == SIGPIPE) {
        if (o) { memset(o, 0, sizeof *o); o->sa_handler = cur->sigpipe ? SIG_IGN : SIG_DFL; }
        if (a) cur->sigpipe = a->sa_handler == SIG_DFL ? 0 : 1;
    } else if (o) memset(o, 0, sizeof *o);
    return 0;
}
static int maskop(int how, const sigset_t *set, sigset_t *old) {
    if (old) { sigemptyset(old); if (cur->sigpipe == 2) sigaddset(old, SIGPIPE); }
    if (set) {
        bool has = sigismember(set, SIGPIPE) == 1;
        if (how == SIG_BLOCK && has && !cur->sigpipe) cur->sigpipe = 2;
        else if (how == SIG_UNBLOCK && has && cur->sigpipe == 2) cur->sigpipe = 0;
        else if (how == SIG_SETMASK) { if (has && !cur->sigpipe) cur->sigpipe = 2; else if (!has && cur->sigpipe == 2) cur->sigpipe = 0; }
    }
    return 0;
}
int sim_sigprocmask(int h, const sigset_t *s, sigset_t *o) { return maskop(h, s, o); }
int sim_pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { return maskop(h, s, o); }
}
