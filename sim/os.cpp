#include <sys/mman.h>
// Deterministic simulator: file system, descriptors, stdio, clock, archive writer, licence manager.
#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <poll.h>
#include <ftw.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <stdio_ext.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/hmac.h>
#include "world.h"
extern "C" void *sim_realloc(void *, size_t);

[[noreturn]] static void bad(const string &what) {
    if (K->crash_ok && K->crash_ok(cur)) { K->log("crash accepted: %s", what.c_str()); K->probe("crash-after-alloc-fault"); K->proc_exit(-1, SIGSEGV); }
    cur->crashed = true;
    K->violate("crash:" + cur->role.substr(0, cur->role.find('#')), cur->role + " crashed: " + what);
    K->park();
}

OF::~OF() {
    if (t == PR) pipe->readers--;
    if (t == PW) pipe->writers--;
    if (t == FILE_ && ino) ino->opens--;
}

// ------------------------------------------------------------------ paths
static vector<string> split(const string &path, const string &cwd) {
    string full = path.size() && path[0] == '/' ? path : cwd + "/" + path;
    vector<string> out; size_t i = 0;
    while (i < full.size()) {
        size_t j = full.find('/', i); if (j == string::npos) j = full.size();
        string c = full.substr(i, j - i);
        if (c == "..") { if (out.size()) out.pop_back(); }
        else if (c.size() && c != ".") out.push_back(c);
        i = j + 1;
    }
    return out;
}
INode Kernel::lookup(const string &path, INode *par, string *leaf, const string &cwd) {
    if (par) *par = nullptr;
    if (path.size() >= 4096) { errno = ENAMETOOLONG; return nullptr; }
    auto v = split(path, cwd);
    INode n = root, p;
    for (auto &c : v) if (c.size() > 255) { errno = ENAMETOOLONG; return nullptr; }
    for (size_t i = 0; i < v.size(); i++) {
        if (!n || !n->dir) { errno = ENOTDIR; return nullptr; }
        p = n;
        auto it = n->kids.find(v[i]);
        n = it == n->kids.end() ? nullptr : it->second;
        if (i + 1 == v.size()) { if (par) *par = p; if (leaf) *leaf = v[i]; }
        if (!n) { errno = ENOENT; if (i + 1 < v.size()) return nullptr; }
    }
    if (n && !n->dir && path.size() && path.back() == '/') { errno = ENOTDIR; return nullptr; }
    return n;
}
static void touch(Inode &n) { n.mtime = K->now * 1000 + ++K->serial % 1000; n.writes++; }
static INode mk(bool dir, mode_t mode) { auto n = std::make_shared<Inode>(); n->dir = dir; n->mode = mode; n->serial = ++K->serial; n->mtime = K->now * 1000 + n->serial % 1000; return n; }
void Kernel::mkdirs(const string &path) {
    INode n = root;
    for (auto &c : split(path, "/")) { auto &k = n->kids[c]; if (!k) k = mk(true, 0755); n = k; }
}
void Kernel::put(const string &path, const string &data, mode_t mode) {
    auto v = split(path, "/"); string leaf = v.back(); v.pop_back();
    INode n = root; for (auto &c : v) { auto &k = n->kids[c]; if (!k) k = mk(true, 0755); n = k; }
    auto &k = n->kids[leaf]; if (!k) k = mk(false, mode);
    k->data = data; k->mode = mode; touch(*k); touch(*n);
}
bool Kernel::get(const string &path, string &out) { INode n = lookup(path); if (!n || n->dir) return false; out = n->data; return true; }
static void walk_(const string &p, INode n, function<void(const string &, Inode &)> &f) { f(p, *n); if (n->dir) for (auto &k : n->kids) walk_(p + "/" + k.first, k.second, f); }
void Kernel::walk(const string &path, function<void(const string &, Inode &)> f) { INode n = lookup(path); if (n) walk_(path == "/" ? "" : path, n, f); }

int Kernel::newfd(Proc *p, shared_ptr<OF> of, int min) {
    for (int i = min; i < p->maxfd; i++) if (!p->fds.count(i)) { p->fds[i] = {of, false}; return i; }
    errno = EMFILE; return -1;
}
static OF *getof(int fd) { auto it = cur->fds.find(fd); if (it == cur->fds.end()) { errno = EBADF; return nullptr; } return it->second.of.get(); }

static size_t chunk(size_t n) {
    if (n <= 1) return n;
    switch (K->chunk_mode) {
    case 0: return n;
    case 1: { uint32_t c = K->tape.choose(S_IO, 16); if (c < 13) return n; return 1 + K->tape.choose(S_IO, n > 1u << 20 ? 1u << 20 : n); }
    case 2: { uint32_t c = K->tape.choose(S_IO, 4); if (c == 0) return n; if (c == 1) return 1; if (c == 2) return n - 1; return 1 + K->tape.choose(S_IO, n); }
    default: { uint32_t c = K->tape.choose(S_IO, 4); size_t k = c == 0 ? n : c == 1 ? 7 : c == 2 ? 64 : 500; return k < n ? k : n; }
    }
}

bool parse_archive(const string &a, vector<ArEntry> &out) {
    size_t i = 0;
    for (;;) {
        size_t nl = a.find('\n', i); if (nl == string::npos) return false;
        string h = a.substr(i, nl - i); i = nl + 1;
        size_t nn, sz; unsigned m; int n;
        if (sscanf(h.c_str(), "END %d", &n) == 1) return (size_t)n == out.size() && i == a.size();
        if (sscanf(h.c_str(), "ENTRY %zu %zu %o", &nn, &sz, &m) != 3 || i + nn + sz > a.size()) return false;
        out.push_back({a.substr(i, nn), a.substr(i + nn, sz), m}); i += nn + sz;
    }
}
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int);
time_t __real_time(time_t *); int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *);

// keeps the open file alive during a call; a process that dies inside the call must not keep it open
}
struct Hold { Proc *p; Hold(shared_ptr<OF> f) : p(cur) { p->hold = f; } ~Hold() { p->hold.reset(); } };
extern "C" {
ssize_t sim_read(int fd, void *buf, size_t n) {
    K->syscall("read");
    OF *o = getof(fd); if (!o) return -1;
    Hold hold(cur->fds[fd].of);
    if (!o->rd) { errno = EBADF; return -1; }
    if (n == 0) return 0;
    if (o->t == OF::NUL || o->t == OF::SINK) return 0;
    if (o->t == OF::FILE_) {
        if (o->ino->dir) { errno = EISDIR; return -1; }
        if (int e = K->fault(F_READ, o->path)) { errno = e; return -1; }
        size_t sz = o->ino->data.size();
        if (o->off >= sz) return 0;
        size_t m = std::min(n, sz - o->off);
        m = chunk(m);
        memcpy(buf, o->ino->data.data() + o->off, m); o->off += m;
        K->mix(m);
        return m;
    }
    if (int e = K->fault(F_EINTR)) { (void)e; errno = EINTR; return -1; }
    Pipe *p = o->pipe.get();
    if (p->buf.empty() && p->writers > 0) K->block("read pipe", [p] { return !p->buf.empty() || p->writers == 0; });
    if (p->buf.empty()) { K->mix(0); return 0; }
    size_t m = chunk(std::min(n, p->buf.size()));
    memcpy(buf, p->buf.data(), m); p->buf.erase(0, m);
    K->mix(m);
    return m;
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
    K->syscall("write");
    OF *o = getof(fd); if (!o) return -1;
    Hold hold(cur->fds[fd].of);
    if (!o->wr) { errno = EBADF; return -1; }
    if (o->t == OF::NUL) return n;
    if (o->t == OF::SINK) { if (o->sink && o->sink->size() < (1u << 22)) o->sink->append((const char *)buf, n); return n; }
    if (o->t == OF::FILE_) {
        if (int e = K->fault(F_WRITE, o->path)) { errno = e; return -1; }
        size_t m = n;
        if (K->disk_free >= 0) {
            if (K->disk_free == 0 && n) { K->fired[F_DISKFULL]++; K->log("FAULT disk full %s", o->path.c_str()); errno = ENOSPC; return -1; }
            if ((int64_t)m > K->disk_free) { m = K->disk_free; K->log("FAULT short write (disk full) %s", o->path.c_str()); }
            K->disk_free -= m;
        }
        if (o->app) o->off = o->ino->data.size();
        if (o->ino->data.size() < o->off + m) o->ino->data.resize(o->off + m);
        memcpy(&o->ino->data[0] + o->off, buf, m); o->off += m; touch(*o->ino); if (K->file_tap) (*K->file_tap)[o->path].append((const char *)buf, m);
        K->mix(m);
        return m;
    }
    size_t done = 0; Pipe *p = o->pipe.get();
    while (done < n) {
        if (p->readers == 0) {
            if (done) break;
            if (cur->sigpipe == 0) { K->log("SIGPIPE"); K->proc_exit(-1, SIGPIPE); }
            errno = EPIPE; return -1;
        }
        if (int e = K->fault(F_EINTR)) { (void)e; if (done) break; errno = EINTR; return -1; }
        size_t space = p->cap > p->buf.size() ? p->cap - p->buf.size() : 0;
        if (!space) { K->block("write pipe", [p] { return p->buf.size() < p->cap || p->readers == 0; }); continue; }
        size_t m = std::min(space, n - done);
        p->buf.append((const char *)buf + done, m);
        if (K->pipe_tap) K->pipe_tap->append((const char *)buf + done, m);
        done += m;
        if (done < n) K->syscall("write+");
    }
    K->mix(done);
    return done;
}
int sim_close(int fd) {
    K->syscall("close");
    auto it = cur->fds.find(fd);
    if (it == cur->fds.end()) { errno = EBADF; return -1; }
    shared_ptr<OF> of = it->second.of;
    int e = (of->t == OF::FILE_ && of->wr) ? K->fault(F_CLOSE_W, of->path) : 0;
    cur->fds.erase(it);
    if (e) { errno = e; return -1; }
    return 0;
}
int sim_pipe2(int *f, int flags) {
    K->syscall("pipe");
    if (int e = K->fault(F_PIPE)) { errno = e == EIO ? EMFILE : e; return -1; }
    auto p = std::make_shared<Pipe>(); p->cap = K->pipe_cap;
    auto r = std::make_shared<OF>(); r->t = OF::PR; r->pipe = p; r->rd = true; p->readers++;
    auto w = std::make_shared<OF>(); w->t = OF::PW; w->pipe = p; w->wr = true; p->writers++;
    int a = K->newfd(cur, r); if (a < 0) return -1;
    int b = K->newfd(cur, w); if (b < 0) { cur->fds.erase(a); errno = EMFILE; return -1; }
    if (flags & O_CLOEXEC) { cur->fds[a].cloexec = cur->fds[b].cloexec = true; }
    f[0] = a; f[1] = b;
    return 0;
}
int sim_pipe(int *f) { return sim_pipe2(f, 0); }
int sim_dup2(int a, int b) {
    K->syscall("dup2");
    if (!cur->fds.count(a)) { errno = EBADF; return -1; }
    if (int e = K->fault(F_DUP2)) { errno = e; return -1; }
    if (a == b) return b;
    FdEnt f = cur->fds[a]; f.cloexec = false; cur->fds[b] = f;
    return b;
}
int sim_dup3(int a, int b, int fl) { int r = sim_dup2(a, b); if (r >= 0 && (fl & O_CLOEXEC)) cur->fds[b].cloexec = true; return r; }
int sim_dup(int a) { K->syscall("dup"); if (!cur->fds.count(a)) { errno = EBADF; return -1; } return K->newfd(cur, cur->fds[a].of); }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    K->syscall("fcntl");
    if (!cur->fds.count(fd)) { errno = EBADF; return -1; }
    switch (cmd) {
    case F_GETFD: return cur->fds[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: cur->fds[fd].cloexec = a & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = K->newfd(cur, cur->fds[fd].of, (int)a); if (n >= 0 && cmd == F_DUPFD_CLOEXEC) cur->fds[n].cloexec = true; return n; }
    case F_GETFL: return cur->fds[fd].of->wr ? (cur->fds[fd].of->rd ? O_RDWR : O_WRONLY) : O_RDONLY;
    default: return 0;
    }
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, a); }
int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }

static int openfile(const char *path, bool rd, bool wr, bool creat_, bool trunc, bool app, bool excl, mode_t mode) {
    K->syscall("open");
    if (int e = K->fault(wr ? F_OPEN_W : F_OPEN_R, path)) { errno = e; return -1; }
    INode par; string leaf; INode n = K->lookup(path, &par, &leaf, cur->cwd);
    if (!*path) { errno = ENOENT; return -1; }
    if (!n) {
        if (!creat_ || !par || !par->dir) { if (errno != ENOTDIR && errno != ENAMETOOLONG) errno = ENOENT; return -1; }
        if (leaf.size() > 255) { errno = ENAMETOOLONG; return -1; }
        if (K->disk_free == 0) { K->fired[F_DISKFULL]++; errno = ENOSPC; return -1; }
        n = par->kids[leaf] = mk(false, mode & ~cur->group()->mask); touch(*par);
    } else {
        if (excl) { errno = EEXIST; return -1; }
        if (n->dir && wr) { errno = EISDIR; return -1; }
        if (wr && !(n->mode & 0200)) { errno = EACCES; return -1; }
        if (rd && !(n->mode & 0400)) { errno = EACCES; return -1; }
        if (trunc && wr) { n->data.clear(); touch(*n); }
    }
    auto o = std::make_shared<OF>(); o->t = OF::FILE_; o->ino = n; o->path = path; o->rd = rd; o->wr = wr; o->app = app; n->opens++;
    int fd = K->newfd(cur, o);
    K->log("open %s %s -> %d", path, wr ? "w" : "r", fd);
    return fd;
}
int sim_open(const char *path, int fl, ...) {
    mode_t m = 0644; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    int acc = fl & O_ACCMODE;
    int fd = openfile(path, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL, m);
    if (fd >= 0 && (fl & O_CLOEXEC)) cur->fds[fd].cloexec = true;
    return fd;
}
int sim_open64(const char *path, int fl, ...) { mode_t m = 0644; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return sim_open(path, fl, m); }
int sim_creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
off_t sim_lseek(int fd, off_t off, int wh) {
    K->syscall("lseek");
    OF *o = getof(fd); if (!o) return -1;
    if (o->t != OF::FILE_) { errno = ESPIPE; return -1; }
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->off : (off_t)o->ino->data.size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    return o->off = b + off;
}
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
// positioned and vectored I/O
ssize_t sim_pread(int fd, void *b, size_t n, off_t at) { OF *o = getof(fd); if (!o) return -1; if (o->t != OF::FILE_) { errno = ESPIPE; return -1; } auto of = cur->fds[fd].of; size_t old = of->off; of->off = at; ssize_t r = sim_read(fd, b, n); of->off = old; return r; }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t at) { return sim_pread(fd, b, n, at); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t at) { OF *o = getof(fd); if (!o) return -1; if (o->t != OF::FILE_) { errno = ESPIPE; return -1; } auto of = cur->fds[fd].of; size_t old = of->off; of->off = at; ssize_t r = sim_write(fd, b, n); of->off = old; return r; }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t at) { return sim_pwrite(fd, b, n, at); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return sim_read(fd, nullptr, 0); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return sim_write(fd, s.data(), s.size()); }
int sim_vdprintf(int fd, const char *f, va_list ap) { char *s; int n = vasprintf(&s, f, ap); if (n < 0) return -1; string t(s, n); free(s); size_t d = 0; while (d < t.size()) { ssize_t r = sim_write(fd, t.data() + d, t.size() - d); if (r < 0) return -1; d += r; } return n; }
int sim_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
int sim_fsync(int fd) { K->syscall("fsync"); OF *o = getof(fd); if (!o) return -1; if (int e = K->fault(F_WRITE, o->path)) { errno = e; return -1; } return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }

// ------------------------------------------------------------------ stdio over fopencookie
struct Ck { int fd; };
static std::unordered_map<FILE *, Ck *> &fmap() { static std::unordered_map<FILE *, Ck *> m; return m; }
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((Ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) { ssize_t r = sim_write(((Ck *)c)->fd, b + done, n - done); if (r < 0) return done; done += r; }
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = sim_lseek(((Ck *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int r = sim_close(((Ck *)c)->fd); return r; }
static FILE *mkfile(int fd, const char *mode) {
    Ck *c = new Ck{fd};
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(c, mode, io);
    setvbuf(f, (char *)malloc(K->bufsz), _IOFBF, K->bufsz);
    fmap()[f] = c; cur->files.push_back(f);
    return f;
}
void sim_open_std(Proc *p) {
    *p->img->in = mkfile(0, "r"); *p->img->out = mkfile(1, "w"); *p->img->err = mkfile(2, "w");
    setvbuf(*p->img->err, nullptr, _IONBF, 0);
}
void sim_flush_all(Proc *p) { auto v = p->files; for (FILE *f : v) if (__fwriting(f)) fflush(f); }
static FILE *chk(FILE *f, const char *fn) {
    if (!f || std::find(cur->files.begin(), cur->files.end(), f) == cur->files.end()) bad(string(fn) + " on an invalid stream");
    return f;
}
FILE *sim_fopen(const char *path, const char *mode) {
    bool plus = strchr(mode, '+'); bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
    int fd = openfile(path, rd, wr, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a', strchr(mode, 'x'), 0666);
    if (fd < 0) return nullptr;
    if (strchr(mode, 'e')) cur->fds[fd].cloexec = true;
    string m(1, mode[0]); if (plus) m += "+";
    return mkfile(fd, m.c_str());
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *mode) { if (!getof(fd)) return nullptr; return mkfile(fd, mode); }
FILE *sim_freopen(const char *, const char *, FILE *) { errno = ENOSYS; return nullptr; }
FILE *sim_tmpfile() { K->syscall("tmpfile"); if (int e = K->fault(F_OPEN_W, "tmpfile")) { errno = e; return nullptr; } auto o = std::make_shared<OF>(); o->t = OF::FILE_; o->ino = mk(false, 0600); o->path = "(tmpfile)"; o->rd = o->wr = true; int fd = K->newfd(cur, o); return fd < 0 ? nullptr : mkfile(fd, "w+"); }
int sim_fclose(FILE *f) {
    chk(f, "fclose");
    cur->files.erase(std::find(cur->files.begin(), cur->files.end(), f));
    fmap().erase(f);
    return fclose(f);
}
int sim_fcloseall() { return 0; }
int sim_fflush(FILE *f) { if (!f) { int r = 0; auto v = cur->files; for (FILE *g : v) if (__fwriting(g) && fflush(g)) r = EOF; return r; } return fflush(chk(f, "fflush")); }
int sim_fileno(FILE *f) { chk(f, "fileno"); auto it = fmap().find(f); return it == fmap().end() ? -1 : it->second->fd; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { return setvbuf(chk(f, "setvbuf"), b, m, n); }
void sim_setbuf(FILE *f, char *b) { setbuf(f, b); }
int sim_vprintf(const char *fmt, va_list ap) { return vfprintf(*cur->img->out, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vprintf(fmt, ap); va_end(ap); return r; }
int sim_puts(const char *s) { fputs(s, *cur->img->out); return fputc('\n', *cur->img->out); }
int sim_putchar(int c) { return fputc(c, *cur->img->out); }
int sim_getchar() { return fgetc(*cur->img->in); }
void sim_perror(const char *s) { fprintf(*cur->img->err, "%s: %s\n", s, strerror(errno)); }
ssize_t sim_getdelim(char **lp, size_t *n, int delim, FILE *f) {
    size_t used = 0; int c;
    while ((c = fgetc(f)) != EOF) {
        if (used + 2 > *n || !*lp) { size_t m = used + 2 > 120 ? (used + 2) * 2 : 120; char *p = (char *)0; p = (char *)sim_realloc(*lp, m); if (!p) return -1; *lp = p; *n = m; }
        (*lp)[used++] = c; if (c == delim) break;
    }
    if (!used) return -1;
    (*lp)[used] = 0; return used;
}
ssize_t sim_getline(char **lp, size_t *n, FILE *f) { return sim_getdelim(lp, n, '\n', f); }
// a growing buffer in memory; the buffer is handed out on flush and close
struct Mem { char **bp; size_t *np; string s; };
static ssize_t mem_write(void *c, const char *b, size_t n) {
    Mem *m = (Mem *)c; m->s.append(b, n);
    char *p = (char *)sim_realloc(*m->bp, m->s.size() + 1); if (!p) { errno = ENOMEM; return 0; }
    memcpy(p, m->s.c_str(), m->s.size() + 1); *m->bp = p; *m->np = m->s.size(); return n;
}
static int mem_close(void *c) { delete (Mem *)c; return 0; }
FILE *sim_open_memstream(char **bp, size_t *np) {
    *bp = (char *)sim_realloc(nullptr, 1); if (!*bp) { errno = ENOMEM; return nullptr; } **bp = 0; *np = 0;
    FILE *f = fopencookie(new Mem{bp, np, ""}, "w", {nullptr, mem_write, nullptr, mem_close});
    cur->files.push_back(f); return f;
}

// ------------------------------------------------------------------ metadata
static int fillstat(INode n, struct stat *st) {
    memset(st, 0, sizeof *st); st->st_mode = (n->dir ? S_IFDIR : S_IFREG) | n->mode; st->st_size = n->dir ? 4096 : n->data.size(); st->st_nlink = 1; st->st_ino = n->serial; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512; st->st_dev = 1; st->st_uid = st->st_gid = 1000;
    st->st_mtim.tv_sec = K->epoch + n->mtime / 1000000000; st->st_mtim.tv_nsec = n->mtime % 1000000000; st->st_ctim = st->st_atim = st->st_mtim;
    return 0;
}
int sim_stat(const char *p, struct stat *st) {
    K->syscall("stat");
    if (int e = K->fault(F_STAT, p)) { errno = e; return -1; }
    INode n = K->lookup(p, nullptr, nullptr, cur->cwd); if (!n || !*p) { if (errno != ENOTDIR && errno != ENAMETOOLONG) errno = ENOENT; return -1; }
    return fillstat(n, st);
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim___xstat(int, const char *p, struct stat *st) { return sim_stat(p, st); }
int sim___lxstat(int, const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) {
    K->syscall("fstat");
    OF *o = getof(fd); if (!o) return -1;
    if (int e = K->fault(F_STAT, o->path)) { errno = e; return -1; }
    if (o->t != OF::FILE_) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; }
    return fillstat(o->ino, st);
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim___fxstat(int, int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_access(const char *p, int m) {
    K->syscall("access");
    if (int e = K->fault(F_ACCESS, p)) { errno = e; return -1; }
    INode n = K->lookup(p, nullptr, nullptr, cur->cwd); if (!n) { if (errno != ENOTDIR && errno != ENAMETOOLONG) errno = ENOENT; return -1; }
    if ((m & X_OK) && !(n->mode & 0111)) { errno = EACCES; return -1; }
    if ((m & R_OK) && !(n->mode & 0444)) { errno = EACCES; return -1; }
    if ((m & W_OK) && !(n->mode & 0222)) { errno = EACCES; return -1; }
    return 0;
}
struct SimDir { vector<struct dirent> e; size_t pos = 0; string path; };
DIR *sim_opendir(const char *p) {
    K->syscall("opendir");
    if (int e = K->fault(F_OPENDIR, p)) { errno = e; return nullptr; }
    INode n = K->lookup(p, nullptr, nullptr, cur->cwd); if (!n) { errno = ENOENT; return nullptr; }
    if (!n->dir) { errno = ENOTDIR; return nullptr; }
    SimDir *d = new SimDir; d->path = p;
    auto add = [&](const string &name, bool dir) { struct dirent x; memset(&x, 0, sizeof x); x.d_ino = 1; x.d_type = K->dt_unknown ? DT_UNKNOWN : dir ? DT_DIR : DT_REG; snprintf(x.d_name, sizeof x.d_name, "%s", name.c_str()); d->e.push_back(x); };
    add(".", true); add("..", true);
    for (auto &k : n->kids) add(k.first, k.second->dir);
    // directory order is arbitrary on real file systems: seeded shuffle per run and directory
    static uint32_t order = K->tape.choose(S_KNOB, 1000);
    if (order) { Rng r; r.seed(order * 977 + std::hash<string>()(p) % 1000); for (size_t i = d->e.size(); i > 1; i--) std::swap(d->e[i - 1], d->e[r.next() % i]); }
    auto o = std::make_shared<OF>(); o->t = OF::NUL; o->path = p; K->newfd(cur, o);
    return (DIR *)d;
}
struct dirent *sim_readdir(DIR *dd) {
    K->syscall("readdir");
    SimDir *d = (SimDir *)dd; if (!d) bad("readdir(NULL)");
    if (int e = K->fault(F_READDIR, d->path)) { errno = e; return nullptr; }
    if (d->pos >= d->e.size()) return nullptr;
    return &d->e[d->pos++];
}
struct dirent *sim_readdir64(DIR *d) { return sim_readdir(d); }
int sim_closedir(DIR *dd) {
    SimDir *d = (SimDir *)dd; if (!d) bad("closedir(NULL)");
    for (auto it = cur->fds.begin(); it != cur->fds.end(); ++it) if (it->second.of->t == OF::NUL && it->second.of->path == d->path && it->first > 2) { cur->fds.erase(it); break; }
    delete d; return 0;
}
void sim_rewinddir(DIR *d) { ((SimDir *)d)->pos = 0; }
int sim_dirfd(DIR *dd) { SimDir *d = (SimDir *)dd; for (auto &e : cur->fds) if (e.second.of->t == OF::NUL && e.second.of->path == d->path && e.first > 2) return e.first; errno = EINVAL; return -1; }
void *sim_malloc(size_t); void sim_free(void *);
int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcoll((*a)->d_name, (*b)->d_name); }
int sim_scandir(const char *p, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
    DIR *d = sim_opendir(p); if (!d) return -1;
    vector<struct dirent *> v; errno = 0;
    while (struct dirent *e = sim_readdir(d)) { if (sel && !sel(e)) continue; auto *c = (struct dirent *)sim_malloc(sizeof *e); if (!c) { errno = ENOMEM; break; } *c = *e; v.push_back(c); }
    int e = errno; sim_closedir(d);
    struct dirent **a = e ? nullptr : (struct dirent **)sim_malloc(v.size() * sizeof *a + 1);
    if (!a) { for (auto *c : v) sim_free(c); errno = e ? e : ENOMEM; return -1; }
    for (size_t i = 0; i < v.size(); i++) a[i] = v[i];
    if (cmp) std::stable_sort(a, a + v.size(), [cmp](struct dirent *x, struct dirent *y) { const struct dirent *cx = x, *cy = y; return cmp(&cx, &cy) < 0; });
    *out = a; return v.size();
}
int sim_readdir_r(DIR *d, struct dirent *e, struct dirent **r) { errno = 0; struct dirent *x = sim_readdir(d); *r = nullptr; if (!x) return errno; *e = *x; *r = e; return 0; }
// the ...at calls: the directory of a descriptor is the path it was opened by
static string at(int fd, const char *p) { if (*p == '/' || fd == AT_FDCWD) return p; auto it = cur->fds.find(fd); return it == cur->fds.end() ? string("/nonexistent/") + p : it->second.of->path + "/" + p; }
int sim_openat(int d, const char *p, int fl, ...) { mode_t m = 0644; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return sim_open(at(d, p).c_str(), fl, m); }
int sim_openat64(int d, const char *p, int fl, ...) { mode_t m = 0644; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return sim_open(at(d, p).c_str(), fl, m); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { if (!*p && (fl & AT_EMPTY_PATH)) return sim_fstat(d, st); return sim_stat(at(d, p).c_str(), st); }
int sim_fstatat64(int d, const char *p, struct stat *st, int fl) { return sim_fstatat(d, p, st, fl); }
int sim_mkdir(const char *, mode_t); int sim_rename(const char *, const char *); int sim_chmod(const char *, mode_t); ssize_t sim_readlink(const char *, char *, size_t);
int sim_mkdirat(int d, const char *p, mode_t m) { return sim_mkdir(at(d, p).c_str(), m); }
int sim_renameat(int a, const char *p, int b, const char *q) { return sim_rename(at(a, p).c_str(), at(b, q).c_str()); }
int sim_faccessat2(int d, const char *p, int m, int) { return sim_access(at(d, p).c_str(), m); }
int sim_faccessat(int d, const char *p, int m, int) { return sim_access(at(d, p).c_str(), m); }
int sim_fchmodat(int d, const char *p, mode_t m, int) { return sim_chmod(at(d, p).c_str(), m); }
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { return sim_readlink(at(d, p).c_str(), b, n); }
DIR *sim_fdopendir(int fd) { OF *o = getof(fd); if (!o) return nullptr; string p = o->path; DIR *d = sim_opendir(p.c_str()); if (d) sim_close(fd); return d; }
int sim_mkdir(const char *p, mode_t m) {
    K->syscall("mkdir");
    if (int e = K->fault(F_MKDIR, p)) { errno = e; return -1; }
    INode par; string leaf; INode n = K->lookup(p, &par, &leaf, cur->cwd);
    if (n) { errno = EEXIST; return -1; }
    if (!par || !par->dir) { errno = ENOENT; return -1; }
    if (K->disk_free == 0) { K->fired[F_DISKFULL]++; errno = ENOSPC; return -1; }
    par->kids[leaf] = mk(true, m & ~cur->group()->mask & 07777); touch(*par);
    K->log("mkdir %s", p);
    return 0;
}
char *sim_mkdtemp(char *t) {
    K->syscall("mkdtemp");
    if (int e = K->fault(F_MKDTEMP, t)) { errno = e; return nullptr; }
    size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return nullptr; }
    for (int i = 0; i < 6; i++) t[n - 6 + i] = "abcdefghijklmnopqrstuvwxyz0123456789"[cur->rng.next() % 36];
    INode par; string leaf; INode x = K->lookup(t, &par, &leaf, cur->cwd);
    if (x || !par || !par->dir) { errno = ENOENT; return nullptr; }
    par->kids[leaf] = mk(true, 0700); touch(*par);
    K->log("mkdtemp %s", t);
    return t;
}
int sim_mkostemps(char *t, int suf, int) {
    size_t n = strlen(t); if (n < 6u + suf || strncmp(t + n - suf - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
    for (int i = 0; i < 6; i++) t[n - suf - 6 + i] = "abcdefghijklmnopqrstuvwxyz0123456789"[cur->rng.next() % 36];
    return openfile(t, true, true, true, false, false, true, 0600);
}
int sim_mkstemps(char *t, int suf) { return sim_mkostemps(t, suf, 0); }
int sim_mkostemp(char *t, int fl) { return sim_mkostemps(t, 0, fl); }
int sim_mkstemp(char *t) { return sim_mkostemps(t, 0, 0); }
static int rm(const char *p, int what) { // 1 file, 2 dir
    INode par; string leaf; INode n = K->lookup(p, &par, &leaf, cur->cwd);
    if (!n) { if (errno != ENOTDIR && errno != ENAMETOOLONG) errno = ENOENT; return -1; }
    if (n->dir && !(what & 2)) { errno = EISDIR; return -1; }
    if (!n->dir && !(what & 1)) { errno = ENOTDIR; return -1; }
    if (n->dir && n->kids.size()) { errno = ENOTEMPTY; return -1; }
    if (!par) { errno = EBUSY; return -1; }
    par->kids.erase(leaf); touch(*par);
    K->log("remove %s", p);
    return 0;
}
int sim_unlink(const char *p) { K->syscall("unlink"); if (int e = K->fault(F_UNLINK, p)) { errno = e; return -1; } return rm(p, 1); }
int sim_rmdir(const char *p) { K->syscall("rmdir"); if (int e = K->fault(F_RMDIR, p)) { errno = e; return -1; } return rm(p, 2); }
int sim_unlinkat(int d, const char *p, int fl) { return fl & AT_REMOVEDIR ? sim_rmdir(at(d, p).c_str()) : sim_unlink(at(d, p).c_str()); }
int sim_remove(const char *p) { K->syscall("remove"); if (int e = K->fault(F_UNLINK, p)) { errno = e; return -1; } return rm(p, 3); }
int sim_rename(const char *a, const char *b) {
    K->syscall("rename");
    if (int e = K->fault(F_UNLINK, a)) { errno = e; return -1; }
    INode pa, pb; string la, lb; INode na = K->lookup(a, &pa, &la, cur->cwd); INode nb = K->lookup(b, &pb, &lb, cur->cwd);
    if (!na || !pa || !pb) { errno = ENOENT; return -1; }
    if (na == nb) return 0;
    if (nb && nb->dir != na->dir) { errno = nb->dir ? EISDIR : ENOTDIR; return -1; }
    if (nb && nb->dir && nb->kids.size()) { errno = ENOTEMPTY; return -1; }
    pa->kids.erase(la); pb->kids[lb] = na; touch(*pa); touch(*pb); K->log("rename %s %s", a, b); return 0;
}
int sim_chmod(const char *p, mode_t m) {
    K->syscall("chmod");
    if (int e = K->fault(F_CHMOD, p)) { errno = e; return -1; }
    INode n = K->lookup(p, nullptr, nullptr, cur->cwd); if (!n) { errno = ENOENT; return -1; }
    n->mode = m & 07777; return 0;
}
int sim_fchmod(int fd, mode_t m) { K->syscall("fchmod"); if (int e = K->fault(F_CHMOD)) { errno = e; return -1; } OF *o = getof(fd); if (!o) return -1; if (o->ino) o->ino->mode = m & 07777; return 0; }
mode_t sim_umask(mode_t m) { mode_t o = cur->group()->mask; cur->group()->mask = m & 0777; return o; }
int sim_symlink(const char *, const char *) { errno = EPERM; return -1; }
int sim_link(const char *, const char *) { errno = EPERM; return -1; }
int sim_truncate(const char *p, off_t n) { K->syscall("truncate"); INode x = K->lookup(p, nullptr, nullptr, cur->cwd); if (!x || x->dir) { errno = ENOENT; return -1; } x->data.resize(n); touch(*x); return 0; }
int sim_ftruncate(int fd, off_t n) { OF *o = getof(fd); if (!o || !o->ino) return -1; o->ino->data.resize(n); touch(*o->ino); return 0; }
// nftw over the simulated calls, so that faults reach it
typedef int (*nftw_cb)(const char *, const struct stat *, int, struct FTW *); typedef int (*ftw_cb)(const char *, const struct stat *, int);
static int ftw_(const string &p, int level, int flags, nftw_cb n, ftw_cb f) {
    struct stat st; struct FTW w; w.base = p.rfind('/') == string::npos ? 0 : p.rfind('/') + 1; w.level = level; int r;
    auto call = [&](int type) { return n ? n(p.c_str(), &st, type, &w) : f(p.c_str(), &st, type); };
    if (sim_lstat(p.c_str(), &st)) { memset(&st, 0, sizeof st); return errno == ENOENT ? -1 : call(FTW_NS); }
    if (!S_ISDIR(st.st_mode)) return call(FTW_F);
    DIR *d = sim_opendir(p.c_str()); if (!d) return call(FTW_DNR);
    if (!(flags & FTW_DEPTH) && (r = call(FTW_D))) { sim_closedir(d); return r; }
    while (struct dirent *e = sim_readdir(d)) { string k = e->d_name; if (k == "." || k == "..") continue; if ((r = ftw_(p + "/" + k, level + 1, flags, n, f))) { sim_closedir(d); return r; } }
    sim_closedir(d);
    return flags & FTW_DEPTH ? call(FTW_DP) : 0;
}
int sim_nftw(const char *p, nftw_cb cb, int, int fl) { return ftw_(p, 0, fl, cb, nullptr); }
int sim_nftw64(const char *p, nftw_cb cb, int, int fl) { return ftw_(p, 0, fl, cb, nullptr); }
int sim_ftw(const char *p, ftw_cb cb, int) { return ftw_(p, 0, 0, nullptr, cb); }
int sim_ftw64(const char *p, ftw_cb cb, int) { return ftw_(p, 0, 0, nullptr, cb); }
void *sim_malloc(size_t); 
char *sim_getcwd(char *b, size_t n) {
    K->syscall("getcwd");
    if (int e = K->fault(F_GETCWD)) { errno = e; return nullptr; }
    if (!b) { if (!n) n = cur->cwd.size() + 1; b = (char *)sim_malloc(n); if (!b) return nullptr; }
    if (cur->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
    strcpy(b, cur->cwd.c_str()); return b;
}
char *sim_get_current_dir_name() { return sim_getcwd(nullptr, 0); }
int sim_chdir(const char *p) { INode n = K->lookup(p, nullptr, nullptr, cur->cwd); if (!n || !n->dir) { errno = ENOENT; return -1; } string s; for (auto &c : split(p, cur->cwd)) s += "/" + c; cur->cwd = s.size() ? s : "/"; return 0; }
char *sim_realpath(const char *p, char *out) {
    K->syscall("realpath");
    INode n = K->lookup(p, nullptr, nullptr, cur->cwd); if (!n) { errno = ENOENT; return nullptr; }
    string s; for (auto &c : split(p, cur->cwd)) s += "/" + c; if (s.empty()) s = "/";
    if (!out) out = (char *)sim_malloc(s.size() + 1); if (out) strcpy(out, s.c_str()); return out;
}
ssize_t sim_readlink(const char *p, char *b, size_t n) {
    K->syscall("readlink");
    if (int e = K->fault(F_READLINK, p)) { errno = e; return -1; }
    char self[64]; snprintf(self, sizeof self, "/proc/%d/exe", cur->pid);
    if (strcmp(p, self) && strcmp(p, "/proc/self/exe")) { errno = ENOENT; return -1; }
    size_t m = std::min(n, cur->exe.size()); memcpy(b, cur->exe.data(), m); return m;
}
char *sim_getenv(const char *n) { auto it = cur->env.find(n); return it == cur->env.end() ? nullptr : (char *)it->second.c_str(); }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
int sim_setenv(const char *n, const char *v, int) { cur->env[n] = v; return 0; }
int sim_putenv(char *s) { const char *e = strchr(s, '='); if (e) cur->env[string(s, e - s)] = e + 1; else cur->env.erase(s); return 0; }
int sim_clearenv() { cur->env.clear(); return 0; }
int sim_unsetenv(const char *n) { cur->env.erase(n); return 0; }
int sim_system(const char *) { errno = ENOSYS; return -1; }
FILE *sim_popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
int sim_pclose(FILE *) { return -1; }
int sim_posix_spawn() { return ENOSYS; }
int sim_posix_spawnp() { return ENOSYS; }
// like libc's: the same sequence in every process unless seeded
int sim_rand() { cur->crand = cur->crand * 6364136223846793005ull + 1442695040888963407ull; return (cur->crand >> 33) & 0x7fffffff; }
void sim_srand(unsigned s) { cur->crand = s; }
long sim_random() { return sim_rand(); }
void sim_srandom(unsigned s) { sim_srand(s); }
unsigned sim_getuid() { return 1000; }
unsigned sim_geteuid() { return 1000; }
int sim_isatty(int) { return 0; }
long sim_sysconf(int n) { return sysconf(n); }
int sim_poll(struct pollfd *f, unsigned long n, int timeout) {
    K->syscall("poll");
    Proc *me = cur;
    auto test = [me, f, n](bool set) {
        int c = 0;
        for (unsigned long i = 0; i < n; i++) {
            short r = 0; auto it = me->fds.find(f[i].fd);
            if (f[i].fd < 0) { if (set) f[i].revents = 0; continue; }
            if (it == me->fds.end()) r = POLLNVAL;
            else { OF *o = it->second.of.get();
                if (o->t == OF::PR) { if (!o->pipe->buf.empty()) r |= POLLIN & f[i].events; if (o->pipe->writers == 0) r |= POLLHUP; }
                else if (o->t == OF::PW) { if (o->pipe->buf.size() < o->pipe->cap) r |= POLLOUT & f[i].events; if (o->pipe->readers == 0) r |= POLLERR; }
                else r = f[i].events & (POLLIN | POLLOUT); }
            if (set) f[i].revents = r; if (r) c++;
        }
        return c;
    };
    if (!test(false) && timeout != 0) {
        if (timeout > 0) { uint64_t end = K->now + (uint64_t)timeout * 1000; while (!test(false) && K->now < end) K->sleep(std::min<uint64_t>(1000, end - K->now)); }
        else K->block("poll", [test] { return test(false) > 0; });
    }
    return test(true);
}
int sim_ppoll(struct pollfd *f, unsigned long n, const struct timespec *t, const sigset_t *) { return sim_poll(f, n, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1); }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    vector<struct pollfd> v;
    for (int i = 0; i < n; i++) { short e = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0); if (e) v.push_back({i, e, 0}); }
    sim_poll(v.data(), v.size(), tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1);
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); int c = 0;
    for (auto &f : v) { if (f.revents & POLLNVAL) { errno = EBADF; return -1; }
        if (r && (f.events & POLLIN) && (f.revents & (POLLIN | POLLHUP))) { FD_SET(f.fd, r); c++; }
        if (w && (f.events & POLLOUT) && (f.revents & (POLLOUT | POLLERR))) { FD_SET(f.fd, w); c++; } }
    return c;
}

// ------------------------------------------------------------------ preemption of threads around the transfer of data
struct ssl_st; int SSL_read(ssl_st *, void *, int); int SSL_write(ssl_st *, const void *, int);
int sim_SSL_read(ssl_st *s, void *b, int n) { int r = SSL_read(s, b, n); if (cur && cur->owner) { int e = errno; K->syscall("ssl_read"); errno = e; } return r; }
int sim_SSL_write(ssl_st *s, const void *b, int n) { if (cur && cur->owner) K->syscall("ssl_write"); return SSL_write(s, b, n); }

// ------------------------------------------------------------------ the crypto library's calls, which can fail (out of memory)
#define CRY(R, N, A, V) R sim_##N A { if (cur) { if (int e = K->fault(F_CRYPTO, #N)) { errno = e; return 0; } } return N V; }
CRY(SSL_CTX *, SSL_CTX_new, (const SSL_METHOD *m), (m))
CRY(SSL *, SSL_new, (SSL_CTX *c), (c))
CRY(int, SSL_CTX_use_RSAPrivateKey, (SSL_CTX *c, RSA *r), (c, r))
CRY(int, SSL_CTX_set_cipher_list, (SSL_CTX *c, const char *l), (c, l))
CRY(int, SSL_use_certificate, (SSL *s, X509 *x), (s, x))
CRY(X509 *, X509_new, (void), ())
CRY(int, X509_sign, (X509 *x, EVP_PKEY *k, const EVP_MD *m), (x, k, m))
CRY(int, X509_set_pubkey, (X509 *x, EVP_PKEY *k), (x, k))
CRY(EVP_PKEY *, X509_get_pubkey, (X509 *x), (x))
CRY(EVP_PKEY *, EVP_PKEY_new, (void), ())
CRY(int, EVP_PKEY_set1_RSA, (EVP_PKEY *k, RSA *r), (k, r))
CRY(RSA *, EVP_PKEY_get1_RSA, (EVP_PKEY *k), (k))
CRY(RSA *, PEM_read_bio_RSAPrivateKey, (BIO *b, RSA **r, pem_password_cb *c, void *u), (b, r, c, u))
CRY(int, PEM_write_bio_RSA_PUBKEY, (BIO *b, const RSA *r), (b, r))
CRY(BIO *, BIO_new, (const BIO_METHOD *m), (m))
CRY(BIO *, BIO_new_mem_buf, (const void *b, int n), (b, n))
CRY(BIO *, BIO_new_fp, (FILE *f, int c), (f, c))
CRY(BIO *, BIO_new_fd, (int f, int c), (f, c))
CRY(EVP_CIPHER_CTX *, EVP_CIPHER_CTX_new, (void), ())
CRY(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i), (c, t, e, k, i))
CRY(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il), (c, o, ol, i, il))
CRY(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol))
CRY(int, EVP_DecryptInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i), (c, t, e, k, i))
CRY(int, EVP_DecryptUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il), (c, o, ol, i, il))
CRY(int, EVP_DecryptFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol))
CRY(HMAC_CTX *, HMAC_CTX_new, (void), ())
CRY(int, HMAC_Init_ex, (HMAC_CTX *c, const void *k, int n, const EVP_MD *m, ENGINE *e), (c, k, n, m, e))
CRY(int, HMAC_Update, (HMAC_CTX *c, const unsigned char *d, size_t n), (c, d, n))
CRY(int, HMAC_Final, (HMAC_CTX *c, unsigned char *d, unsigned int *n), (c, d, n))

char *sim_strtok(char *s, const char *d) { static map<Proc *, char *> at; if (!cur) return strtok(s, d); char *&p = at[cur->group()]; if (cur->owner) K->syscall("strtok"); return strtok_r(s, d, &p); }

// locks between the threads of a simulated process (nobody uses them today): a lock must not stop the simulator itself
static map<void *, std::pair<Proc *, int>> &locks() { static map<void *, std::pair<Proc *, int>> m; return m; }
static int lock_type(pthread_mutex_t *m) { return m->__data.__kind & 3; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!cur) return 0;
    auto &l = locks()[m]; if (l.first && l.first->done()) l = {}; if (l.first == cur && lock_type(m) == PTHREAD_MUTEX_RECURSIVE) { l.second++; return 0; }
    K->syscall("lock", false); if (l.first) K->block("lock", [&l] { return !l.first || l.first->done(); });
    l = {cur, 1}; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (!cur) return 0; K->syscall("trylock", false); auto &l = locks()[m]; if (l.first && !(l.first == cur && lock_type(m) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY; l.first = cur; l.second++; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { if (!cur) return 0; auto &l = locks()[m]; if (l.second > 0 && --l.second == 0) l.first = nullptr; K->syscall("unlock", false); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { locks().erase(m); return pthread_mutex_destroy(m); }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
    static map<void *, int> st; int &s = st[o]; if (!*o && s == 2) s = 0; if (s == 1) K->block("once", [&s] { return s == 2; });
    if (!*o && !s) { s = 1; f(); s = 2; *o = 2; } return 0;
}
void *sim_mmap(void *at, size_t n, int prot, int flags, int fd, off_t off) {
    if (fd < 0) return mmap(at, n, prot, flags, fd, off);
    void *r = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r == MAP_FAILED) return r;
    size_t got = 0; while (got < n) { ssize_t k = sim_pread(fd, (char *)r + got, n - got, off + got); if (k < 0) { int e = errno; munmap(r, n); errno = e; return MAP_FAILED; } if (!k) break; got += k; }
    return r;
}

// ------------------------------------------------------------------ calls this project does not make today, for code that is written otherwise
ssize_t sim_sendfile(int out, int in, off_t *off, size_t n) {
    vector<char> b(std::min(n, (size_t)65536)); ssize_t r = off ? sim_pread(in, b.data(), b.size(), *off) : sim_read(in, b.data(), b.size()); if (r <= 0) return r;
    ssize_t w = sim_write(out, b.data(), r); if (w < 0) { if (!off) cur->fds[in].of->off -= r; return w; }
    if (off) *off += w; else cur->fds[in].of->off -= r - w;
    return w;
}
ssize_t sim_sendfile64(int out, int in, off_t *off, size_t n) { return sim_sendfile(out, in, off, n); }
ssize_t sim_copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned) {
    if (!oo) return sim_sendfile(out, in, io, n);
    vector<char> b(std::min(n, (size_t)65536)); ssize_t r = io ? sim_pread(in, b.data(), b.size(), *io) : sim_read(in, b.data(), b.size()); if (r <= 0) return r;
    ssize_t w = sim_pwrite(out, b.data(), r, *oo); if (w < 0) { if (!io) cur->fds[in].of->off -= r; return w; }
    *oo += w; if (io) *io += w; else cur->fds[in].of->off -= r - w;
    return w;
}
int sim_posix_fadvise(int fd, off_t, off_t, int) { return getof(fd) ? 0 : EBADF; }
int sim_posix_fallocate(int fd, off_t at, off_t n) { OF *o = getof(fd); if (!o || !o->ino) return EBADF; if (K->disk_free >= 0 && n > K->disk_free) { K->fired[F_DISKFULL]++; return ENOSPC; } if (o->ino->data.size() < (size_t)(at + n)) { o->ino->data.resize(at + n); touch(*o->ino); } return 0; }
int sim_fallocate(int fd, int, off_t at, off_t n) { int e = sim_posix_fallocate(fd, at, n); if (e) { errno = e; return -1; } return 0; }
int sim_flock(int fd, int) { return getof(fd) ? 0 : -1; }
int sim_lockf(int fd, int, off_t) { return getof(fd) ? 0 : -1; }
int sim_utimensat(int d, const char *p, const struct timespec *, int) { return K->lookup(at(d, p).c_str(), nullptr, nullptr, cur->cwd) ? 0 : -1; }
int sim_futimens(int fd, const struct timespec *) { return getof(fd) ? 0 : -1; }
int sim_utime(const char *p, const void *) { return K->lookup(p, nullptr, nullptr, cur->cwd) ? 0 : -1; }
int sim_utimes(const char *p, const void *) { return K->lookup(p, nullptr, nullptr, cur->cwd) ? 0 : -1; }
int sim_chown(const char *p, unsigned, unsigned) { return K->lookup(p, nullptr, nullptr, cur->cwd) ? 0 : -1; }
int sim_lchown(const char *p, unsigned, unsigned) { return K->lookup(p, nullptr, nullptr, cur->cwd) ? 0 : -1; }
int sim_fchown(int fd, unsigned, unsigned) { return getof(fd) ? 0 : -1; }
void sim_sync() { K->syscall("sync"); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { K->syscall("getrandom"); if (int e = K->fault(F_ENTROPY)) { errno = e; return -1; } for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)(cur->rng.next() >> 24); return n; }
int sim_getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } return sim_getrandom(b, n, 0) < 0 ? -1 : 0; }
void sim_arc4random_buf(void *b, size_t n) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)(cur->rng.next() >> 24); }
unsigned sim_arc4random() { return (unsigned)(cur->rng.next() >> 16); }
unsigned sim_arc4random_uniform(unsigned n) { return n ? (unsigned)((cur->rng.next() >> 16) % n) : 0; }
void sim_openlog(const char *, int, int) {}
void sim_closelog() {}
void sim_vsyslog(int, const char *f, va_list ap) { K->syscall("syslog"); char *s; if (vasprintf(&s, f, ap) < 0) return; if (K->file_tap) (*K->file_tap)["(system log)"] += s; free(s); }
void sim_syslog(int p, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(p, f, ap); va_end(ap); }
static void vwarn_(bool e, const char *f, va_list ap) { int x = errno; FILE *o = *cur->img->err; fprintf(o, "%s: ", cur->argv.size() ? cur->argv[0].c_str() : "tool"); if (f) vfprintf(o, f, ap); if (e) fprintf(o, "%s%s", f ? ": " : "", strerror(x)); fputc('\n', o); }
void sim_exit(int);
void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); vwarn_(true, f, ap); va_end(ap); }
void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); vwarn_(false, f, ap); va_end(ap); }
void sim_err(int c, const char *f, ...) { va_list ap; va_start(ap, f); vwarn_(true, f, ap); va_end(ap); sim_exit(c); }
void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); vwarn_(false, f, ap); va_end(ap); sim_exit(c); }
void sim_error(int c, int e, const char *f, ...) { va_list ap; va_start(ap, f); errno = e; vwarn_(e != 0, f, ap); va_end(ap); if (c) sim_exit(c); }
void sim_psignal(int s, const char *m) { fprintf(*cur->img->err, "%s: signal %d\n", m ? m : "", s); }
BIO *sim_BIO_new_file(const char *p, const char *m) { FILE *f = sim_fopen(p, m); if (!f) return nullptr; BIO *b = BIO_new_fp(f, BIO_CLOSE); if (!b) sim_fclose(f); return b; }

// what glibc's checking headers make of the calls above: the same, and a crash if the buffer is known to be too small
#define FIT(ok, fn) do { if (!(ok)) bad(string("buffer overflow in ") + fn + "()"); } while (0)
int sim_vasprintf(char **, const char *, va_list);
int sim___vprintf_chk(int, const char *f, va_list ap) { return sim_vprintf(f, ap); }
int sim___printf_chk(int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vprintf(f, ap); va_end(ap); return r; }
int sim___vasprintf_chk(char **o, int, const char *f, va_list ap) { return sim_vasprintf(o, f, ap); }
int sim___asprintf_chk(char **o, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
int sim___vdprintf_chk(int fd, int, const char *f, va_list ap) { return sim_vdprintf(fd, f, ap); }
int sim___dprintf_chk(int fd, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
void sim___vsyslog_chk(int p, int, const char *f, va_list ap) { sim_vsyslog(p, f, ap); }
void sim___syslog_chk(int p, int, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(p, f, ap); va_end(ap); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t m) { FIT(n <= m, "read"); return sim_read(fd, b, n); }
ssize_t sim___pread_chk(int fd, void *b, size_t n, off_t at, size_t m) { FIT(n <= m, "pread"); return sim_pread(fd, b, n, at); }
ssize_t sim___pread64_chk(int fd, void *b, size_t n, off_t at, size_t m) { FIT(n <= m, "pread"); return sim_pread(fd, b, n, at); }
char *sim___realpath_chk(const char *p, char *o, size_t m) { FIT(m >= 4096, "realpath"); return sim_realpath(p, o); }
char *sim___getcwd_chk(char *b, size_t n, size_t m) { FIT(n <= m, "getcwd"); return sim_getcwd(b, n); }
ssize_t sim___readlink_chk(const char *p, char *b, size_t n, size_t m) { FIT(n <= m, "readlink"); return sim_readlink(p, b, n); }
ssize_t sim___readlinkat_chk(int d, const char *p, char *b, size_t n, size_t m) { FIT(n <= m, "readlinkat"); return sim_readlinkat(d, p, b, n); }
int sim___poll_chk(struct pollfd *f, unsigned long n, int t, size_t m) { FIT(n * sizeof *f <= m, "poll"); return sim_poll(f, n, t); }
int sim___ppoll_chk(struct pollfd *f, unsigned long n, const struct timespec *t, const sigset_t *s, size_t m) { FIT(n * sizeof *f <= m, "ppoll"); return sim_ppoll(f, n, t, s); }
int sim___open_2(const char *p, int fl) { return sim_open(p, fl, 0644); }
int sim___open64_2(const char *p, int fl) { return sim_open(p, fl, 0644); }
int sim___openat_2(int d, const char *p, int fl) { return sim_openat(d, p, fl, 0644); }
int sim___openat64_2(int d, const char *p, int fl) { return sim_openat(d, p, fl, 0644); }

// ------------------------------------------------------------------ clock
time_t sim_time(time_t *t) { if (cur) K->syscall("time", false); time_t r = K ? K->epoch + K->now / 1000000 : 1735700000; if (t) *t = r; return r; }
struct tm *sim_gmtime(const time_t *t) { return gmtime(t); }
struct tm *sim_localtime(const time_t *t) { return gmtime(t); }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
char *sim_ctime_r(const time_t *t, char *b) { struct tm m; gmtime_r(t, &m); return asctime_r(&m, b); }
char *sim_ctime(const time_t *t) { static thread_local char b[64]; return sim_ctime_r(t, b); }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = K ? K->epoch + K->now / 1000000 : 1735700000; tv->tv_usec = K ? K->now % 1000000 : 0; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = !K ? 1735700000 : (c == CLOCK_REALTIME ? K->epoch : 1000) + K->now / 1000000; ts->tv_nsec = K ? K->now % 1000000 * 1000 : 0; return 0; }
unsigned sim_sleep(unsigned s) { K->syscall("sleep"); K->sleep((uint64_t)s * 1000000); return 0; }
int sim_usleep(unsigned us) { K->syscall("usleep"); K->sleep(us); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { K->syscall("nanosleep"); K->sleep(t->tv_sec * 1000000ull + t->tv_nsec / 1000); return 0; }

// what libssl/libcrypto and the harness use
ssize_t __wrap_read(int fd, void *b, size_t n) { return cur ? sim_read(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return cur ? sim_write(fd, b, n) : __real_write(fd, b, n); }
int __wrap_close(int fd) { return cur ? sim_close(fd) : __real_close(fd); }
time_t __wrap_time(time_t *t) { time_t r = K ? K->epoch + K->now / 1000000 : 1735700000; if (t) *t = r; return r; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { return cur || K ? sim_gettimeofday(tv, z) : __real_gettimeofday(tv, z); }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { return cur || K ? sim_clock_gettime(c, ts) : __real_clock_gettime(c, ts); }

// ------------------------------------------------------------------ archive writer stand-in
// Archive layout on the simulated disk: repeated ENTRY <namelen> <size> <mode>\n name data, then END <entries>\n on close.
// The seeded error F_ZIP makes a call fail as the library documents (negative code), F_WRITE and DISKFULL hit its writes.
static int zcode() { uint64_t r = cur->rng.next(); return r % 4 ? -(int)(1 + r / 4 % 31) : -1; }     // any negative code
struct zip_t { int fd; string name; string data; unsigned mode; bool open; bool failed; int n; bool rd; };
static bool zwrite(zip_t *z, const string &s) {
    if (K->fault(F_ZIP)) { errno = EIO; z->failed = true; return false; }
    size_t d = 0; while (d < s.size()) { ssize_t r = sim_write(z->fd, s.data() + d, s.size() - d); if (r < 0) { z->failed = true; return false; } d += r; }
    return true;
}
zip_t *simzip_openwitherror(const char *name, int, char mode, int *err) {
    if (mode == 'r') {
        int fd = openfile(name, true, false, false, false, false, false, 0);
        if (fd < 0) { if (err) *err = -14; return nullptr; }
        string a; char b[4096]; ssize_t r; while ((r = sim_read(fd, b, sizeof b)) > 0) a.append(b, r);
        vector<ArEntry> e; bool ok = r == 0 && parse_archive(a, e); sim_close(fd);
        if (!ok) { if (err) *err = -15; return nullptr; }
        if (err) *err = 0;
        return new zip_t{-1, "", "", 0, false, false, (int)e.size(), true};
    }
    int fd = openfile(name, false, true, true, true, false, false, 0644);
    if (fd < 0) { if (err) *err = -14; return nullptr; }
    if (err) *err = 0;
    return new zip_t{fd, "", "", 0, false, false, 0, false};
}
zip_t *simzip_open(const char *name, int l, char m) { int e; return simzip_openwitherror(name, l, m, &e); }
int simzip_entry_open(zip_t *z, const char *n) {
    if (!z || !n || !*n) return -1;
    if (z->open || z->rd) return -1;
    if (K->fault(F_ZIP)) return zcode();
    z->name = n; z->data.clear(); z->mode = 0644; z->open = true; return 0;
}
int simzip_entry_write(zip_t *z, const void *b, size_t n) { if (!z || !z->open) return -1; if (K->fault(F_ZIP)) return zcode(); z->data.append((const char *)b, n); return 0; }
int simzip_entry_fwrite(zip_t *z, const char *path) {
    if (!z || !z->open) return -1;
    int fd = openfile(path, true, false, false, false, false, false, 0);
    if (fd < 0) return -14;
    char b[4096]; ssize_t r;
    if (cur->fds[fd].of->ino->dir) { sim_close(fd); return -14; }
    z->mode = cur->fds[fd].of->ino->mode;
    while ((r = sim_read(fd, b, sizeof b)) > 0) z->data.append(b, r);
    sim_close(fd);
    if (r < 0) return -15;
    if (K->fault(F_ZIP)) { z->data.resize(z->data.size() / 2); return zcode(); }
    return 0;
}
int simzip_entry_close(zip_t *z) {
    if (!z || !z->open) return -1;
    z->open = false;
    if (K->fault(F_ZIP)) return zcode();              // the entry is lost, the archive stays a valid one
    char h[80]; snprintf(h, sizeof h, "ENTRY %zu %zu %o\n", z->name.size(), z->data.size(), z->mode);
    if (!zwrite(z, string(h) + z->name + z->data)) return -13;
    z->n++;
    return 0;
}
// as in the real library, closing reports nothing: an archive whose directory could not be written is simply not valid
void simzip_close(zip_t *z) {
    if (!z) return;
    if (!z->rd) {
        char e[40]; snprintf(e, sizeof e, "END %d\n", z->n); if (!z->failed && !z->open) zwrite(z, e);
        sim_close(z->fd);
    }
    delete z;
}
int simzip_is64(zip_t *) { return 0; }
ssize_t simzip_entries_total(zip_t *z) { return z ? z->n : -1; }
const char *simzip_strerror(int) { return "archive error"; }

// ------------------------------------------------------------------ licence manager stand-in
int simlic_new(const char *libpath, char *why, size_t n) {
    K->syscall("lic_new");
    string w = "licence manager not available"; bool ok = true;
    if (!libpath) { K->lic.push_back({cur->pid, "new", "(null)", -1, false, K->steps}); snprintf(why, n, "%s", "no library path"); return -1; }
    if (K->licpolicy) ok = K->licpolicy("new", libpath, w);
    int id = ok ? K->nextlic++ : -1;
    if (ok) K->licopen[id] = true;
    K->lic.push_back({cur->pid, "new", libpath, id, ok, K->steps});
    K->log("licence new(%s) -> %d", libpath, id);
    if (!ok) { K->fired[F_LICENCE]++; snprintf(why, n, "%s", w.c_str()); }
    return id;
}
void simlic_free(int id) {
    K->syscall("lic_free");
    K->lic.push_back({cur->pid, "free", "", id, true, K->steps});
    K->log("licence free(%d)", id);
    if (!K->licopen[id]) bad("licence manager closed twice");
    K->licopen[id] = false;
}
int simlic_op(int id, int in, size_t len, const char *f, char *why, size_t n) {
    K->syscall("lic_op");
    if (id < 0 || !K->licopen[id]) bad("licence manager asked while it is not set up");
    string w = "refused", arg = f ? string(f, strnlen(f, len)) : string("(null)"); bool ok = true;
    if (f) for (size_t i = 0; i < len; i++) (void)((volatile const char *)f)[i];
    if (K->licpolicy) ok = K->licpolicy(in ? "checkin" : "checkout", f ? string(f, len) : arg, w);
    K->lic.push_back({cur->pid, in ? "checkin" : "checkout", f ? string(f, len) : arg, id, ok, K->steps});
    K->log("licence %s(%.40s) -> %d", in ? "checkin" : "checkout", arg.c_str(), ok);
    if (!ok) { K->fired[F_LICENCE]++; snprintf(why, n, "%s", w.c_str()); }
    return ok;
}
}
