// Deterministic simulator for SEMLA: kernel interface.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <setjmp.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/types.h>
#include "image.h"

using std::string; using std::vector; using std::map; using std::function; using std::shared_ptr;

// ---------------------------------------------------------------- choices
enum Stream { S_OP, S_SCHED, S_FAULT, S_IO, S_KNOB, NSTREAM };
struct Rng {
    uint64_t s = 1;
    void seed(uint64_t x) { s = x * 0xD1342543DE82EF95ull + 0xD1B54A32D192ED03ull; uint64_t a = next(); s = a ^ (x << 32); next(); s = next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
struct Tape {
    bool replay = false;
    vector<uint32_t> rec[NSTREAM], in[NSTREAM];
    size_t pos[NSTREAM] = {};
    Rng rng[NSTREAM];
    void seed(uint64_t s);
    uint32_t choose(Stream st, uint32_t n);           // 0..n-1, 0 = simplest
};

// ---------------------------------------------------------------- faults
#define FAULT_KINDS(X) X(OPEN_R) X(OPEN_W) X(READ) X(WRITE) X(CLOSE_W) X(STAT) X(MKDIR) X(MKDTEMP) X(OPENDIR) X(READDIR) X(UNLINK) X(RMDIR) X(CHMOD) \
    X(ALLOC) X(PIPE) X(FORK) X(DUP2) X(EXEC) X(ACCESS) X(DISKFULL) X(KILL) X(STALL) X(EINTR) X(ENTROPY) X(CLOCKJUMP) X(ZIP) X(DAMAGE) X(GETCWD) X(READLINK) X(LICENCE) X(GARBAGE) X(CRYPTO)
enum FaultKind {
#define X(k) F_##k,
    FAULT_KINDS(X)
#undef X
    NFAULT
};
extern const char *fault_name[];
struct FaultSpec { FaultKind k; string role; uint32_t ord; uint32_t len; int err; uint32_t seen = 0; uint32_t fired = 0; };

// ---------------------------------------------------------------- file system
struct Inode { bool dir = false; string data; mode_t mode = 0644; map<string, shared_ptr<Inode>> kids; uint64_t serial = 0, mtime = 0; uint64_t writes = 0; int opens = 0; };
typedef shared_ptr<Inode> INode;

struct Pipe { string buf; size_t cap = 65536; int readers = 0, writers = 0; string label; string *tap = nullptr; };
struct OF {                                   // open file description
    enum T { FILE_, PR, PW, SINK, NUL } t = NUL;
    INode ino; string path; size_t off = 0; bool wr = false, rd = false, app = false;
    shared_ptr<Pipe> pipe; string *sink = nullptr;
    ~OF();
};
struct FdEnt { shared_ptr<OF> of; bool cloexec = false; };

// ---------------------------------------------------------------- processes
struct Proc {
    Proc *owner; map<int, FdEnt> own_fds, &fds;       // a thread shares the descriptors and the image of its owner
    explicit Proc(Proc *o = nullptr) : owner(o), fds(o ? o->fds : own_fds) {}
    Proc *group() { return owner ? owner : this; }
    int pid = 0; string role; image *img = nullptr; function<int()> body; vector<string> argv; map<string, string> env; string cwd = "/";
    string exe; unsigned mask = 022;
    shared_ptr<OF> hold; vector<FILE *> files; int sigpipe = 0; string errtext, outtext;
    enum St { NEW, RUN, BLOCK, DONE } st = NEW;
    function<bool()> ready; uint64_t wake = 0; string why;
    int code = -1, sig = 0; bool crashed = false;
    sem_t sem; pthread_t th; char *stk = nullptr; size_t stksz = 0; sigjmp_buf base; Rng rng;
    uint64_t nsys = 0, life_steps = 0; Proc *parent = nullptr; struct ForkSave *fork = nullptr; int kill_at = 0; uint64_t tag = 0;
    vector<int> exec_fds; int nalloc = 0; long nossl = 0; bool vforking = false; int maxfd = 256; uint64_t crand = 1;
    bool done() const { return st == DONE; }
};
extern thread_local Proc *cur;

struct LicCall { int pid; string op; string arg; int id; bool ok; uint64_t step; };

struct Kernel {
    Tape tape; uint64_t seed = 0;
    int64_t epoch = 1735700000, clk_len = 0; uint64_t clk_at = 0;      // the date at the start; one jump of the clock, back or forth
    uint64_t steps = 0, now = 0, stepcap = 2000000, switches = 0;
    uint64_t hash = 1469598103934665603ull, schash = 1469598103934665603ull;
    vector<Proc *> procs; int nextpid = 100;
    uint32_t fine = 0, finegap = 0; uint64_t fineswitch = 0;                   // preemption of threads inside the code: every how many basic blocks, on average
    INode root; uint64_t serial = 0;
    sem_t mainsem; bool ended = false; string viol_class, viol_msg;
    vector<FaultSpec> faults; bool faults_on = true; uint64_t fired[NFAULT] = {}; int64_t disk_free = -1;
    map<string, uint64_t> probes;
    bool verbose = false; vector<string> trace; 
    // knobs
    uint32_t preempt_mean = 0; uint32_t gap = 0; uint32_t chunk_mode = 0; size_t pipe_cap = 65536; size_t bufsz = 0; int fillbyte = 0xA5; bool alloc_low = false;
    bool guard = true;
    map<string, function<int()>> harness_exe;        // exec of "#!SIM fn:<name>"
    map<string, uint64_t> unlinked;                 
    function<void(Proc *)> on_exit;
    vector<LicCall> lic; map<int, bool> licopen; int nextlic = 1; map<int, vector<string>> lichold;
    function<bool(const string &op, const string &arg, string &why)> licpolicy;
    function<void(const string &)> on_write_file;
    struct Alloc { char *base; size_t pages, n; int pid; bool freed; };
    std::unordered_map<uintptr_t, Alloc> allocs;
    string *pipe_tap = nullptr; map<string, string> *file_tap = nullptr; bool dt_unknown = false; function<bool(Proc *)> crash_ok;
    vector<uint64_t> waits; map<string, string> defenv;   // environment of processes started by the harness

    void init(uint64_t seed);
    uint32_t op(uint32_t n) { return tape.choose(S_OP, n); }
    bool flip(uint32_t den) { return op(den) == den - 1; }
    uint32_t knob(uint32_t n) { return tape.choose(S_KNOB, n); }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void probe(const string &p) { probes[p]++; }

    Proc *spawn(const string &role, const string &imgbase, vector<string> argv, Proc *parent = nullptr);
    Proc *spawn_fn(const string &role, function<int()> f, const string &toolimg = "");
    Proc *spawn_thread(const string &role, function<int()> f);      // of the running process
    void start(Proc *p);
    void run();                                       // until quiescence (or run end)
    void kill(Proc *p, int sig);
    void violate(const string &cls, const string &msg);   // ends the run
    [[noreturn]] void park();
    [[noreturn]] void proc_exit(int code, int sig);
    void syscall(const char *what, bool preemptible = true);                   // scheduling point
    void block(const char *why, function<bool()> pred);
    void sleep(uint64_t us);
    Proc *pick(bool curok);
    void switch_to(Proc *n);
    int fault(FaultKind k, const string &info = "");
    void addfault(FaultKind k, const string &role, uint32_t ord, uint32_t len, int err);
    void mix(uint64_t v) { hash ^= v; hash *= 1099511628211ull; hash ^= hash >> 29; }

    // file system helpers (harness side)
    INode lookup(const string &path, INode *par = nullptr, string *leaf = nullptr, const string &cwd = "/");
    void put(const string &path, const string &data, mode_t mode = 0644);
    void mkdirs(const string &path);
    bool get(const string &path, string &out);
    bool exists(const string &path) { return (bool)lookup(path); }
    void walk(const string &path, function<void(const string &, Inode &)> f);
    int newfd(Proc *p, shared_ptr<OF> of, int min = 0);
    image *grab_image(const string &base);
};
extern Kernel *K;

void warmup();                    // in the zygote
bool memerr_addr(uintptr_t a, string &what);

// tool API of an image
struct mlle_connections; struct mlle_error; struct mlle_file_contents;
struct ToolApi {
    mlle_connections *(*start)(const char *, mlle_error **);
    void (*cfree)(mlle_connections **);
    int (*version)(const mlle_connections *, int, int, mlle_error **);
    int (*libpath)(const mlle_connections *, const char *, mlle_error **);
    int (*feature)(const mlle_connections *, const char *, mlle_error **);
    int (*returnfeature)(const mlle_connections *, const char *, mlle_error **);
    int (*license)(const mlle_connections *, const char *, mlle_error **);
    int (*returnlicense)(const mlle_connections *, const char *, mlle_error **);
    mlle_file_contents *(*file)(const mlle_connections *, const char *, mlle_error **);
    void (*ffree)(mlle_file_contents **);
    size_t (*fsize)(const mlle_file_contents *);
    size_t (*fread)(mlle_file_contents *, char *, size_t);
    const char *(*emsg)(mlle_error *);
    int (*ecode)(mlle_error *);
    void (*efree)(mlle_error **);
};
inline ToolApi *api() { return (ToolApi *)cur->img->api; }

// scenarios
typedef void (*Scenario)();
Scenario find_scenario(const string &prop);
extern "C" {
int sim_pipe(int *); int sim_close(int); ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t);
}
