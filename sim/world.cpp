#include "world.h"
#include <algorithm>
#include <errno.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/err.h>
#include <openssl/rsa.h>
#include <map>

string g_keydir;

static string alpha(uint64_t h, size_t n) { string s; Rng r; r.seed(h); for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz"[r.next() % 26]; return s; }
bool gen_huge = false;
void coarse() { K->chunk_mode = 0; K->bufsz = 65536; K->pipe_cap = 100000; K->preempt_mean = 0; K->gap = 0; }
int many(uint32_t base, uint32_t rare) { if (K->op(100) == 1) { coarse(); K->probe("long-history"); return base + K->op(rare); } return 1 + K->op(base); }
#ifndef HUGE_ONE_IN
#define HUGE_ONE_IN 120
#endif
string gen_content(const string &tag, bool big) {
    static const size_t sizes[] = {120, 0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 8191, 8192};
    static const size_t bigs[] = {16366, 16367, 16368, 16369, 16370, 16371, 16372, 16383, 16384, 16385, 16399, 16400, 16401, 17408, 32767, 32768, 40000, 65535, 65536, 70000, 120000, 300001};
    size_t n;
    uint32_t c = K->op(big ? 8 : 6);
    if (c < 2) n = 20 + K->op(400); else if (c < 6) n = sizes[K->op(sizeof sizes / sizeof *sizes)]; else n = bigs[K->op(sizeof bigs / sizeof *bigs)];
    if (c >= 6 && gen_huge && K->op(HUGE_ONE_IN) == 1) {       // rarely, a file of megabytes (coarse transport: the interest is in the size)
        static const size_t huge[] = {1048576, 1048577, 2097100, 4194304, 5000000, 10485680, 10485760, 10485761, 12345678};
        n = huge[K->op(sizeof huge / sizeof *huge)]; coarse(); K->probe("huge");
    }
    uint32_t style = K->op(4);
    Rng r; r.seed(std::hash<string>()(tag) ^ K->seed ^ n);
    char name[40]; snprintf(name, sizeof name, "M%016llx", (unsigned long long)(r.next() ^ std::hash<string>()(tag)));     // not the file's path, which is no secret
    string s = string("model ") + name + " // ";
    while (s.size() < n) {
        if (style == 3) s += (char)(r.next() >> 16);
        else if (style == 2 && r.next() % 40 == 0) s += '\n';
        else s += (char)(33 + r.next() % 94);
    }
    if (style == 1 && n >= 2) s[n - 1] = '\n';
    if (style == 3 && n > 8 && r.next() % 2) s[n / 2] = 0;
    s.resize(n);
    return s;
}
Lib gen_lib(const string &root, const GenOpt &o) {
    Lib l; l.root = root; l.src = "/src" + root;
    int nf = o.minfiles + K->op(o.maxfiles);
    vector<string> dirs = {""};
    int nd = K->op(o.maxfiles > 3 ? 5 : 3);
    static const char *dn[] = {"Sub", "A", "Resources", "x y", "d.e", "Pkg_long_directory_name_0123456789", "B", "\xc3\xa5ngstr\xc3\xb6m", "Sub2", "sub", "AA", "Su", ".hid", "%s%d", "-d", "..e", "D.mo", "E.moc", ".library2", "Dir.MO"};
    for (int i = 0; i < nd; i++) {
        string p = dirs[K->op(dirs.size())];
        if (std::count(p.begin(), p.end(), '/') >= o.maxdepth) continue;
        string d = (p.size() ? p + "/" : "") + dn[K->op(20)];
        if (std::find(dirs.begin(), dirs.end(), d) == dirs.end()) dirs.push_back(d);
    }
    if (K->op(12) == 11) {      // long names: paths beyond one message, one TLS record's header, one component
        string d = dirs[K->op(dirs.size())]; size_t tot = 200 + K->op(o.longmax);
        while (d.size() < tot) { size_t n = 1 + K->op(255); d += (d.size() ? "/" : "") + string(n, (char)('a' + K->op(26))); if (K->op(3) == 2) dirs.push_back(d); }
        dirs.push_back(d); K->probe("long-names");
    }
    std::set<string> have;
    auto add = [&](const string &rel, bool enc) {
        if (have.count(rel) || std::find(dirs.begin(), dirs.end(), rel) != dirs.end()) return;
        have.insert(rel);
        LFile f; f.rel = rel; f.enc = enc; f.req = enc ? rel + "c" : rel; f.data = gen_content(rel, o.big); l.f.push_back(f);
    };
    for (auto &d : dirs) {
        bool pkg = d.empty() ? (o.toppkg || K->op(4) != 3) : (!o.nopkgdirs || K->op(4) != 3);
        if (pkg) add((d.size() ? d + "/" : "") + "package.mo", true);
    }
    static const char *fn[] = {"M", "Model1", "a b", "X.Y", "longer_file_name_for_a_model_0123456789_0123456789", "m", "package.order", "Z", "mypackage", "package2", "M1", "package.mo", "packag", ".hid", "%n%s", "-f", "q\"'\\&<$(x)", "..f"};
    for (int i = 0; i < nf; i++) {
        string d = dirs[K->op(dirs.size())];
        string base = fn[K->op(18)];
        uint32_t k = K->op(5);
        string rel = (d.size() ? d + "/" : "") + base;
        if (k < 4) { static const char *ex[] = {".mo", ".mo", ".mo", ".mo", ".mo", ".mo", ".MO", ".Mo"}; add(rel + ex[K->op(8)], true); }
        else if (o.plain) add(rel + (K->op(2) ? ".txt" : ""), false);
    }
    for (auto &f : l.f) if (have.count(f.req) && f.enc) {}
    l.missing = {"nothere.moc", "Sub/nothere.moc", "nodir/x.moc", "package.mo", "nothere.txt", "nodir/package.moc"};
    for (size_t i = 0; i < l.missing.size();) { bool hit = false; for (auto &f : l.f) if (f.req == l.missing[i]) hit = true; if (hit) l.missing.erase(l.missing.begin() + i); else i++; }
    return l;
}
void spell_dir(const string &dir, string &spelled, string &cwd) {       // the same directory, named in another way
    switch (K->op(8)) {
    case 1: spelled = dir + "/"; cwd = "/"; break;
    case 2: spelled = dir.substr(1); cwd = "/"; break;
    case 3: spelled = "./" + dir.substr(1) + "//"; cwd = "/"; break;
    case 4: spelled = "."; cwd = dir; break;
    case 5: spelled = ".." + dir; cwd = dir; break;
    case 6: spelled = "/." + dir + "/."; cwd = "/"; break;
    default: spelled = dir; cwd = "/";
    }
}
void write_sources(const Lib &l) {
    K->mkdirs(l.root); K->mkdirs(l.src);
    for (auto &f : l.f) {
        K->put(l.src + "/" + f.rel, f.data);
        size_t s = f.rel.rfind('/');
        if (s != string::npos) K->mkdirs(l.root + "/" + f.rel.substr(0, s));
        if (!f.enc) K->put(l.root + "/" + f.req, f.data);
    }
}
int run_prog(const string &role, const string &img, vector<string> argv, Proc **out, const string &cwd) {
    Proc *p = K->spawn(role, img, argv); p->cwd = cwd; p->exe = argv[0]; K->start(p); K->run();
    if (out) *out = p;
    if (!p->done()) K->violate("hang:" + img, role + " did not finish: " + quiescent_report());
    return p->sig ? 256 + p->sig : p->code;
}
static int depth(const string &s) { return std::count(s.begin(), s.end(), '/'); }
static bool ispkg(const string &s) { size_t i = s.rfind('/'); return (i == string::npos ? s : s.substr(i + 1)) == "package.mo"; }
vector<const LFile *> enc_order(const Lib &l) {
    vector<const LFile *> v; for (auto &f : l.f) if (f.enc) v.push_back(&f);
    std::stable_sort(v.begin(), v.end(), [](const LFile *a, const LFile *b) {
        bool pa = ispkg(a->rel), pb = ispkg(b->rel);
        if (pa != pb) return pa; if (pa) return depth(a->rel) < depth(b->rel); return false; });
    return v;
}
void encrypt_lib(const Lib &l) {
    bool on = K->faults_on; K->faults_on = false; int64_t df = K->disk_free; K->disk_free = -1;
    for (auto *f : enc_order(l)) {
        Proc *p; int rc = run_prog("encrypt_file", "enc", {"encrypt_file", l.src + "/" + f->rel, f->req, l.root}, &p);
        if (rc) K->violate("encrypt-failed", "encrypt_file of " + f->rel + " exits " + std::to_string(rc) + " on a healthy system: " + p->errtext.substr(0, 300));
    }
    K->faults_on = on; K->disk_free = df;
}
string request_path(const Lib &l) {
    if (l.f.size() && K->op(6) != 5) return l.f[K->op(l.f.size())].req;
    return l.missing[K->op(l.missing.size())];
}
void install_lve(const string &path, const string &base, mode_t mode) { K->put(path, "#!SIM " + base + "\n", mode); }
string hexdiff(const string &w, const string &g) {
    char b[200]; size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++;
    snprintf(b, sizeof b, "%zu bytes instead of %zu, first difference at %zu", g.size(), w.size(), i); return b;
}
string quiescent_report() { string s; for (Proc *p : K->procs) if (!p->done()) s += p->role + " blocked in " + p->why + "; "; return s; }

// ------------------------------------------------------------------ tool sessions
static Outcome out(bool ok, mlle_error *e) {
    Outcome o; o.ok = ok; o.haserr = e != nullptr; o.code = 0;
    if (e) { const char *m = api()->emsg(e); o.err = m ? m : ""; if (!m) o.haserr = false; if (api()->ecode) o.code = api()->ecode(e); api()->efree(&e); }
    return o;
}
Outcome Session::start(const string &exe) { mlle_error *e = nullptr; c = api()->start(exe.c_str(), &e); K->log("api start -> %d", c != nullptr); return out(c != nullptr, e); }
Outcome Session::version(int lo, int hi) { mlle_error *e = nullptr; int r = api()->version(c, lo, hi, &e); K->log("api version -> %d", r); return out(r, e); }
Outcome Session::lib(const string &p) { mlle_error *e = nullptr; int r = api()->libpath(c, p.c_str(), &e); K->log("api lib %s -> %d", p.c_str(), r); return out(r, e); }
Outcome Session::feature(const string &f) { mlle_error *e = nullptr; int r = api()->feature(c, f.c_str(), &e); K->log("api feature %.60s -> %d", f.c_str(), r); return out(r, e); }
Outcome Session::retfeature(const string &f) { mlle_error *e = nullptr; int r = api()->returnfeature(c, f.c_str(), &e); K->log("api returnfeature %.60s -> %d", f.c_str(), r); return out(r, e); }
Outcome Session::license(const string &f) { mlle_error *e = nullptr; int r = api()->license(c, f.c_str(), &e); K->log("api license -> %d", r); return out(r, e); }
Outcome Session::retlicense(const string &f) { mlle_error *e = nullptr; int r = api()->returnlicense(c, f.c_str(), &e); K->log("api returnlicense -> %d", r); return out(r, e); }
Outcome Session::file(const string &p) {
    mlle_error *e = nullptr; mlle_file_contents *f = api()->file(c, p.c_str(), &e);
    Outcome o = out(f != nullptr, e);
    if (f) {
        size_t n = api()->fsize(f); K->mix(n);
        static const size_t bs[] = {1 << 20, 4096, 1000, 17, 65536};
        vector<char> b(bs[K->op(5)]);
        for (;;) {
            size_t r = api()->fread(f, b.data(), b.size());
            if (r == (size_t)-1) break;
            if (r > b.size() || (r == 0)) { K->violate("read-bytes", "mlle_tool_read_bytes returned " + std::to_string(r) + " for a buffer of " + std::to_string(b.size())); }
            o.data.append(b.data(), r);
            if (o.data.size() > n + 100) break;
        }
        if (o.data.size() != n) K->violate("size-mismatch", "file " + p + ": announced size " + std::to_string(n) + " but " + std::to_string(o.data.size()) + " bytes could be read");
        api()->ffree(&f);
    }
    K->log("api file %s -> %d (%zu bytes) %s", p.c_str(), o.ok, o.data.size(), o.err.substr(0, 120).c_str());
    return o;
}
void Session::free() { if (c) { K->log("api free"); api()->cfree(&c); c = nullptr; } }
Outcome open_session(Session &s, const Lib &l, const string &exe) {
    Outcome o = s.start(exe); if (!o.ok) return o;
    o = s.version(1, 1); if (!o.ok) return o;
    static const char *tail[] = {"", "", "", "", "", "/", "//", "/."};       // the same directory, spelled differently
    return s.lib(l.root + tail[K->op(8)]);
}

// ------------------------------------------------------------------ raw TLS
EVP_PKEY *load_key(const string &name) {
    static map<string, EVP_PKEY *> m;
    if (m.count(name)) return m[name];
    FILE *f = fopen((g_keydir + "/" + name + ".pem").c_str(), "r"); if (!f) { fprintf(stderr, "no key %s\n", name.c_str()); _Exit(92); }
    EVP_PKEY *k = PEM_read_PrivateKey(f, nullptr, nullptr, nullptr); fclose(f);
    return m[name] = k;
}
X509 *self_cert(EVP_PKEY *k) {
    X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 31536000L);
    X509_set_pubkey(x, k); X509_NAME *n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(n, "C", MBSTRING_ASC, (unsigned char *)"SE", -1, -1, 0); X509_set_issuer_name(x, n);
    X509_sign(x, k, EVP_sha256()); return x;
}
static map<string, X509 *> certs;
static X509 *cert_for(const string &key) { auto &c = certs[key]; if (!c) c = self_cert(load_key(key)); return c; }
SSL_CTX *client_ctx(const string &key) {
    static map<string, SSL_CTX *> m; auto &c = m[key]; if (c) return c;
    c = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
    string leaf = key.substr(0, key.find('+'));
    if (leaf.size()) { SSL_CTX_use_certificate(c, cert_for(leaf)); SSL_CTX_use_PrivateKey(c, load_key(leaf)); }
    if (leaf != key) { X509 *x = cert_for(key.substr(leaf.size() + 1)); SSL_CTX_add1_chain_cert(c, x); }
    return c;
}
static int ok_cb(X509_STORE_CTX *, void *) { return 1; }
SSL_CTX *server_ctx() {
    static SSL_CTX *c; if (c) return c;
    c = SSL_CTX_new(TLS_server_method()); SSL_CTX_set_verify(c, SSL_VERIFY_PEER, nullptr); SSL_CTX_set_cert_verify_callback(c, ok_cb, nullptr);
    SSL_CTX_use_certificate(c, cert_for("lve")); SSL_CTX_use_PrivateKey(c, load_key("lve"));
    return c;
}
void warm_keys() { for (const char *k : {"tool0", "tool1", "tool2", "untrusted", "lve", "ec", "untrusted+tool0", "untrusted+tool2", "lve+tool1"}) { if (!strchr(k, '+')) cert_for(k); client_ctx(k); } client_ctx(""); server_ctx(); }

Proc *Raw::spawn_lve(const string &base, const string &role) {
    int a[2], b[2]; if (sim_pipe(a) || sim_pipe(b)) { K->violate("harness", "pipe"); }
    static int n = 0;
    Proc *p = K->spawn(role + "#r" + std::to_string(++n), base, {"/opt/" + base}, cur);
    p->fds[0] = cur->fds[a[0]]; p->fds[1] = cur->fds[b[1]];
    sim_close(a[0]); sim_close(b[1]);
    w = a[1]; r = b[0]; lve = p;
    p->env = cur->env;
    K->start(p);
    return p;
}
bool Raw::connect(const string &key, bool tls12) {
    ssl = SSL_new(client_ctx(key)); if (tls12) SSL_set_max_proto_version(ssl, TLS1_2_VERSION);
    BIO *bw = BIO_new_fd(w, BIO_NOCLOSE), *br = BIO_new_fd(r, BIO_NOCLOSE);
    SSL_set_bio(ssl, br, bw);
    SSL_set_mode(ssl, SSL_MODE_AUTO_RETRY);
    rc = SSL_connect(ssl);
    K->log("raw connect(%s) -> %d", key.c_str(), rc);
    return rc > 0;
}
void key_update(SSL *s) { if (SSL_version(s) == TLS1_3_VERSION && K->op(4) == 3 && SSL_key_update(s, K->op(2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED) == 1) K->probe("key-update"); }
bool Raw::send(const string &m, const vector<size_t> &splits) {
    size_t off = 0; vector<size_t> sp = splits;
    K->log("raw send %zu bytes: %.60s", m.size(), m.c_str());
    if (m.empty()) return true;
    while (off < m.size()) {
        size_t n = m.size() - off; if (sp.size()) { n = std::min(n, sp[0]); sp.erase(sp.begin()); if (!n) n = 1; }
        if (ku) key_update(ssl);
        int r = SSL_write(ssl, m.data() + off, (int)n); if (r <= 0) return false; off += r;
    }
    return true;
}
bool Raw::fill() { char b[4096]; int n = SSL_read(ssl, b, sizeof b); if (n <= 0) return false; in.append(b, n); return true; }
Reply Raw::reply() {
    Reply o; size_t nl;
    while ((nl = in.find('\n')) == string::npos) { if (in.size() > 100000) { o.line = in.substr(0, 80); o.eof = false; o.name = "?"; return o; } if (!fill()) { o.line = in; return o; } }
    o.eof = false;
    o.line = in.substr(0, nl);
    vector<string> t; size_t i = 0; while (i < o.line.size()) { size_t j = o.line.find(' ', i); if (j == string::npos) j = o.line.size(); if (j > i) t.push_back(o.line.substr(i, j - i)); i = j + 1; }
    in.erase(0, nl + 1);
    o.name = t.size() ? t[0] : "";
    bool length = false;
    if (o.name == "ERROR" && t.size() == 3) { o.num = atol(t[1].c_str()); o.len = strtoul(t[2].c_str(), 0, 10); length = true; }
    else if (o.name == "VERSION" && t.size() == 2) o.num = atol(t[1].c_str());
    else if ((o.name == "FILECONT" || o.name == "NO" || o.name == "TOOLLIST") && t.size() == 2) { o.len = strtoul(t[1].c_str(), 0, 10); length = true; }
    else if ((o.name == "YES" || o.name == "NOTSIMPLE") && t.size() == 1) {}
    else { o.name = "?" + o.name; return o; }
    if (length) { while (in.size() < o.len) if (!fill()) { o.name = "!" + o.name; o.data = in; in.clear(); return o; } o.data = in.substr(0, o.len); in.erase(0, o.len); }
    K->log("raw reply %s %ld %zu %.100s", o.name.c_str(), o.num, o.len, o.name == "ERROR" ? o.data.c_str() : "");
    return o;
}
bool well_formed(const Reply &r) { return !r.eof && r.name.size() && r.name[0] != '?' && r.name[0] != '!'; }
void Raw::close() { if (ssl) { SSL_shutdown(ssl); SSL_free(ssl); ssl = nullptr; } if (w >= 0) { sim_close(w); sim_close(r); w = r = -1; } }

void pick_faults(const vector<FaultKind> &kinds, const vector<string> &roles, int maxn, uint32_t maxord) {
    int n = 1 + K->tape.choose(S_FAULT, maxn);
    static const int errs[] = {5 /*EIO*/, 28 /*ENOSPC*/, 12 /*ENOMEM*/, 24 /*EMFILE*/, 13 /*EACCES*/};
    for (int i = 0; i < n; i++) {
        FaultKind k = kinds[K->tape.choose(S_FAULT, kinds.size())];
        string role = roles[K->tape.choose(S_FAULT, roles.size())];
        uint32_t bits = 0; while ((1u << bits) < maxord) bits++;
        uint32_t m = 1u << K->tape.choose(S_FAULT, bits + 1);
        uint32_t ord = K->tape.choose(S_FAULT, std::min(m, maxord));
        uint32_t len = 1; uint32_t c = K->tape.choose(S_FAULT, 6);
        if (c == 5) len = 1u << 30; else if (c == 4) len = 2 + K->tape.choose(S_FAULT, 4);
        int err = errs[K->tape.choose(S_FAULT, 5)];
        if (k == F_STALL) { len = 1000 << K->tape.choose(S_FAULT, 14); }
        if (k == F_CLOCKJUMP) { len = 1 << K->tape.choose(S_FAULT, 29); }
        if (k == F_DISKFULL) { K->disk_free = K->tape.choose(S_FAULT, 2) ? K->tape.choose(S_FAULT, 2000) : K->tape.choose(S_FAULT, 200000); continue; }
        K->addfault(k, role, ord, len, err);
    }
}
