// File scenarios: encrypt_file, decrypt_file, packagetool, and the secrecy of sessions.
#include "world.h"
#include <algorithm>
#include <errno.h>
#include <string_view>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <ctype.h>
#include "random_key_file.h"

// ------------------------------------------------------------------ helpers
struct NoFault { bool on; int64_t df; NoFault() : on(K->faults_on), df(K->disk_free) { K->faults_on = false; K->disk_free = -1; } ~NoFault() { K->faults_on = on; K->disk_free = df; } };
struct Fired { uint64_t f[NFAULT]; Fired() { memcpy(f, K->fired, sizeof f); } uint64_t operator()(FaultKind k) const { return K->fired[k] - f[k]; }
    uint64_t any() const { uint64_t n = 0; for (int i = 0; i < NFAULT; i++) n += K->fired[i] - f[i]; return n; } };
typedef map<string, string> Snap;
static Snap snap(const string &root) {
    Snap s; K->walk(root, [&](const string &p, Inode &n) { char m[32]; snprintf(m, sizeof m, "%c%o:", n.dir ? 'd' : 'f', n.mode); s[p.size() ? p : "/"] = m + (n.dir ? string() : n.data); });
    return s;
}
// A program that was killed, or could not remove what it made, may leave an unfinished file beside its output under a name made from the output's.
static void drop_unfinished(Snap &before, Snap &after, const Fired &fi, const string &o, std::set<string> &left) {
    if (fi(F_KILL) || fi(F_UNLINK) || fi(F_ALLOC)) for (auto &x : after) {
        size_t n = o.rfind('/') + 1; const string &f = x.first;
        if (!before.count(f) && x.second[0] == 'f' && f != o && f.compare(0, n, o, 0, n) == 0 && f.find('/', n) == string::npos && f.find(o.substr(n), n) != string::npos) left.insert(f);
    }
    for (auto &f : left) { before.erase(f); after.erase(f); }
}
static string snapdiff(const Snap &a, const Snap &b) {
    for (auto &x : a) { auto it = b.find(x.first); if (it == b.end()) return x.first + " is gone"; if (it->second != x.second) return x.first + " has changed (" + x.second.substr(0, x.second.find(':')) + " " + std::to_string(x.second.size()) + " -> " + it->second.substr(0, it->second.find(':')) + " " + std::to_string(it->second.size()) + ")"; }
    for (auto &x : b) if (!a.count(x.first)) return x.first + " was created";
    return "";
}
static string decrypt_real(const string &base, const string &rel, int &rc) {
    NoFault nf;
    static int n = 0; string out = "/scratch/plain" + std::to_string(++n); K->mkdirs("/scratch");
    Proc *p; rc = run_prog("decrypt_file", "dec", {"decrypt_file", base, rel, out}, &p);
    string d; K->get(out, d); INode par; string leaf; if (K->lookup(out, &par, &leaf)) par->kids.erase(leaf);
    return d;
}
static string tail(const string &s) { return s.size() > 200 ? s.substr(s.size() - 200) : s; }
static bool ispk(const string &r) { size_t i = r.rfind('/'); return (i == string::npos ? r : r.substr(i + 1)) == "package.mo"; }

// ------------------------------------------------------------------ C12
void c12() {
    gen_huge = true;
    GenOpt g; g.maxfiles = 4; g.maxdepth = 2; g.plain = false; g.big = K->op(4) == 3; Lib l = gen_lib("/lib", g); write_sources(l);
    K->put("/lib/keep.txt", "kept");
    pick_faults({F_OPEN_R, F_OPEN_W, F_READ, F_WRITE, F_CLOSE_W, F_STAT, F_DISKFULL, F_ALLOC, F_ENTROPY, F_CRYPTO, F_UNLINK, F_KILL, F_STALL}, {"encrypt_file"}, 4, 60);
    int64_t disk = K->disk_free; K->disk_free = -1;
    bool on = K->op(6) != 5;
    Snap src = snap(l.src);
    auto order = enc_order(l);
    struct Job { const LFile *f; string out, old; bool had; Proc *p; };
    std::set<string> ivs; map<string, bool> ok;
    auto judge = [&](Job &j, const Fired &fi, bool alone, bool faulty) {
        int rc = j.p->sig ? 256 + j.p->sig : j.p->code; string now; bool has = K->get(j.out, now);
        CHECK(rc < 256 || fi(F_KILL), "killed", "encrypt_file of %s ended by signal %d", j.f->rel.c_str(), j.p->sig);
        CHECK(faulty || rc == 0, "refused", "encrypt_file of %s exits %d on a healthy system: %s", j.f->rel.c_str(), rc, tail(j.p->errtext).c_str());
        if (rc == 0) {
            CHECK(has, "no-output", "encrypt_file of %s exits 0 without output", j.f->rel.c_str());
            if (alone) CHECK(!fi(F_ENTROPY), "entropy", "encrypt_file of %s exits 0 although the random generator failed", j.f->rel.c_str());
            CHECK(now.size() > 16 && ivs.insert(now.substr(0, 16)).second, "iv", "encrypt_file of %s used an initialisation vector twice", j.f->rel.c_str());
            K->probe("encrypted"); ok[j.f->rel] = true;
        } else {
            if (fi.any()) K->probe("failed-by-fault");
            bool excuse = j.p->sig || fi(F_UNLINK) || fi(F_ALLOC);
            CHECK(excuse || !has || (j.had && now == j.old), "leftover", "encrypt_file of %s exits %d and leaves an output of %zu bytes: %s", j.f->rel.c_str(), rc, now.size(), tail(j.p->errtext).c_str());
        }
        string d = snapdiff(src, snap(l.src)); CHECK(d.empty(), "source-changed", "%s after encrypt_file of %s", d.c_str(), j.f->rel.c_str());
        string k; K->get("/lib/keep.txt", k); CHECK(k == "kept", "other-changed", "another file of the library changed");
    };
    auto launch = [&](const LFile *f) {
        Job j; j.f = f; j.out = l.root + "/" + f->req; j.had = K->get(j.out, j.old);
        string base, cwd; spell_dir(l.root, base, cwd);
        j.p = K->spawn("encrypt_file", "enc", {"encrypt_file", l.src + "/" + f->rel, f->req, base}); j.p->cwd = cwd; j.p->exe = "/opt/encrypt_file"; K->start(j.p); return j;
    };
    auto verify = [&](const LFile *f) {
        int rc; string d = decrypt_real(l.root, f->req, rc);
        CHECK(rc == 0, "undecryptable", "encrypt_file of %s exited 0 but decrypt_file of its output exits %d", f->rel.c_str(), rc);
        CHECK(d == f->data, "content", "%s: %s", f->rel.c_str(), hexdiff(f->data, d).c_str());
    };
    size_t i = 0;
    while (i < order.size()) {
        size_t n = 1; if (!ispk(order[i]->rel) && K->op(2)) { n = std::min<size_t>(order.size() - i, 2 + K->op(2)); }
        int attempts = on ? 1 + K->op(2) : 1; bool done = false;
        for (int a = 0; a <= attempts && !done; a++) {
            bool faulty = on && a < attempts;
            K->faults_on = faulty; K->disk_free = faulty ? disk : -1;
            Fired fi; vector<Job> js; for (size_t k = 0; k < n; k++) js.push_back(launch(order[i + k]));
            K->run();
            if (faulty) disk = K->disk_free;
            for (auto &j : js) { CHECK(j.p->done(), "hang", "encrypt_file does not finish: %s", quiescent_report().c_str()); judge(j, fi, n == 1, faulty); }
            if (n > 1) K->probe("parallel");
            done = true; for (auto &j : js) if (j.p->sig || j.p->code) done = false;
        }
        K->faults_on = false; K->disk_free = -1;
        for (size_t k = 0; k < n; k++) verify(order[i + k]);
        i += n;
    }
    if (order.size() && K->op(2)) for (auto *f : order) verify(f);        // later files must not have spoilt earlier ones
    // without a base directory: exactly the named output, from the named input
    if (K->op(2)) {
        K->mkdirs("/one"); const LFile *f = order[K->op(order.size())];
        string base = f->rel.substr(f->rel.rfind('/') + 1), in = "/one/" + base; K->put(in, f->data);
        static const char *names[] = {"", "other.moc", "x.enc", "../two/y.moc"}; K->mkdirs("/two"); uint32_t w = K->op(4);
        string outn = w == 0 ? base + "c" : names[w], out = "/one/" + outn; bool rel = K->op(2);
        if (K->op(4) == 3) K->put(out, "old output");
        bool faulty = on && K->op(2); string old; bool had = K->get(out, old); Snap before = snap("/"); 
        K->faults_on = faulty; K->disk_free = faulty ? disk : -1; Fired fi;
        Proc *p; int rc = run_prog("encrypt_file", "enc", {"encrypt_file", rel ? base : in, rel ? outn : out}, &p, "/one");
        K->faults_on = false; K->disk_free = -1;
        Snap after = snap("/"); string op = w == 3 ? "/two/y.moc" : out; string now; bool has = K->get(op, now);
        before.erase(op); after.erase(op); std::set<string> left; drop_unfinished(before, after, fi, op, left);
        string d = snapdiff(before, after); CHECK(d.empty(), "other-changed", "encrypt_file %s %s: %s", in.c_str(), outn.c_str(), d.c_str());
        CHECK(faulty || rc == 0, "refused", "encrypt_file %s %s exits %d on a healthy system: %s", in.c_str(), outn.c_str(), rc, tail(p->errtext).c_str());
        if (rc == 0) {
            CHECK(has, "no-output", "encrypt_file %s %s exits 0 but the named output does not exist", in.c_str(), outn.c_str());
            string dir = op.substr(0, op.rfind('/')), rl = op.substr(op.rfind('/') + 1); int drc; string pl = decrypt_real(dir, rl, drc);
            CHECK(drc == 0 && pl == f->data, "content", "encrypt_file %s %s: decrypt_file exits %d, %s", in.c_str(), outn.c_str(), drc, hexdiff(f->data, pl).c_str());
            K->probe("nobase");
        } else {
            bool excuse = p->sig || fi(F_UNLINK) || fi(F_ALLOC);
            CHECK(excuse || !has || (had && now == old), "leftover", "encrypt_file %s %s exits %d and leaves an output", in.c_str(), outn.c_str(), rc);
        }
    }
}

// ------------------------------------------------------------------ C13
static string damage1(const string &d) {
    string o = d; uint32_t n = d.size(); K->fired[F_DAMAGE]++;
    switch (K->op(7)) {
    case 0: if (n) o[K->op(n)] ^= 1 << K->op(8); break;
    case 1: o.resize(K->op(n + 1)); break;
    case 2: o += string(1 + K->op(40), (char)K->op(256)); break;
    case 3: { uint32_t a = K->op(n + 1); for (size_t i = a; i < o.size(); i++) o[i] = 0; break; }
    case 4: { uint32_t a = K->op(n + 1), b = K->op(65); for (size_t i = a; i < o.size() && i < a + b; i++) o[i] = (char)K->op(256); break; }
    case 5: if (n > 32) { uint32_t a = K->op(n / 16), b = K->op(n / 16); for (int i = 0; i < 16; i++) std::swap(o[a * 16 + i], o[b * 16 + i]); } break;
    default: { uint32_t k = K->op(90); o.resize(std::min<size_t>(k, n)); }
    }
    return o;
}
static bool chain_dirty(const map<string, bool> &dirty, const string &req) {
    if (dirty.count(req)) return true;
    string d = req;
    for (;;) { size_t s = d.rfind('/'); string up = s == string::npos ? "" : d.substr(0, s); if (dirty.count((up.size() ? up + "/" : "") + "package.moc")) return true; if (up.empty()) return false; d = up; }
}
void c13() {
    gen_huge = true; std::set<string> left;
    GenOpt g; g.maxfiles = 4; g.plain = false; g.maxdepth = 2; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    pick_faults({F_OPEN_R, F_OPEN_W, F_READ, F_WRITE, F_CLOSE_W, F_STAT, F_DISKFULL, F_ALLOC, F_CRYPTO, F_UNLINK, F_KILL, F_STALL}, {"decrypt_file"}, 3, 40);
    int64_t disk = K->disk_free; K->disk_free = -1; K->mkdirs("/out");
    map<string, bool> dirty; int n = 1 + K->op(5);
    for (int i = 0; i < n; i++) {
        if (K->op(3) == 2) { auto &f = l.f[K->op(l.f.size())]; string d; if (K->get(l.root + "/" + f.req, d)) { string o = damage1(d); if (o != d) { K->put(l.root + "/" + f.req, o); dirty[f.req] = true; } } }
        int w = 1 + (K->op(4) == 3); struct J { const LFile *f; string out, old; bool had; Proc *p; }; vector<J> js;
        bool faulty = K->op(3) != 2; K->faults_on = faulty; K->disk_free = faulty ? disk : -1;
        Snap before = snap("/"); Fired fi; bool swapdir = K->op(3) == 2;
        for (int k = 0; k < w; k++) {
            J j; j.f = &l.f[K->op(l.f.size())]; j.out = "/out/o" + std::to_string(K->op(3) * 2 + k); j.had = K->get(j.out, j.old);
            if (!j.had && K->op(4) == 3) { j.old = "old plaintext of something else"; j.had = true; K->put(j.out, j.old); before = snap("/"); }
            string base = l.root, cwd = "/"; if (swapdir) spell_dir(l.root, base, cwd);
            j.p = K->spawn("decrypt_file", "dec", {"decrypt_file", base, j.f->req, j.out}); j.p->cwd = cwd; j.p->exe = "/opt/decrypt_file"; K->start(j.p); js.push_back(j);
        }
        K->run();
        if (faulty) disk = K->disk_free;
        K->faults_on = false; K->disk_free = -1;
        Snap after = snap("/");
        for (auto &j : js) { before.erase(j.out); after.erase(j.out); drop_unfinished(before, after, fi, j.out, left); }
        string d = snapdiff(before, after); CHECK(d.empty(), "other-changed", "decrypt_file: %s", d.c_str());
        for (auto &j : js) {
            CHECK(j.p->done(), "hang", "decrypt_file does not finish: %s", quiescent_report().c_str());
            int rc = j.p->sig ? 256 + j.p->sig : j.p->code; string now; bool has = K->get(j.out, now);
            CHECK(rc < 256 || fi(F_KILL), "killed", "decrypt_file of %s ended by signal %d", j.f->req.c_str(), j.p->sig);
            bool touched = chain_dirty(dirty, j.f->req);
            CHECK(faulty || touched || rc == 0, "refused", "decrypt_file of intact %s exits %d on a healthy system: %s", j.f->req.c_str(), rc, tail(j.p->errtext).c_str());
            if (rc == 0) {
                CHECK(has && now == j.f->data, "content", "decrypt_file of %s exits 0: %s", j.f->req.c_str(), has ? hexdiff(j.f->data, now).c_str() : "no output");
                K->probe("exact"); if (touched) K->probe("exact-although-touched");
            } else {
                if (touched && !fi.any()) K->probe("refused-damage"); if (fi.any()) K->probe("failed-by-fault");
                bool excuse = j.p->sig || fi(F_UNLINK) || fi(F_ALLOC);
                CHECK(excuse || !has || (j.had && now == j.old), "leftover", "decrypt_file of %s exits %d and leaves %zu bytes of output: %s", j.f->req.c_str(), rc, now.size(), tail(j.p->errtext).c_str());
            }
            INode par; string leaf; if (K->op(2) && K->lookup(j.out, &par, &leaf)) par->kids.erase(leaf);
        }
    }
}

// ------------------------------------------------------------------ packagetool
static bool allow_local = false;
struct Pack {
    bool local = false;                   // the library is named as seen from its parent, the working directory
    string name, src; bool enc; vector<string> argv; map<string, string> env; bool badpkg = false;
    map<string, string> plain;            // entry -> content
    map<string, string> crypt;            // entry (.moc) -> source content
    map<string, mode_t> lve, mode;        // entry -> mode
    vector<string> mo;                    // contents of every Modelica source
    string icon, iconarg; map<string, string> val; vector<string> lines;
};
static const vector<FaultKind> PKF = {F_OPEN_R, F_OPEN_W, F_READ, F_WRITE, F_CLOSE_W, F_STAT, F_MKDIR, F_MKDTEMP, F_OPENDIR, F_READDIR, F_CHMOD, F_ALLOC, F_ZIP, F_DISKFULL, F_ENTROPY, F_GETCWD, F_READLINK, F_UNLINK, F_RMDIR, F_CRYPTO, F_KILL};
static string lower(string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
static bool is_mo(const string &n) { return n.size() >= 3 && lower(n.substr(n.size() - 3)) == ".mo"; }
static string gen_text() {
    static const char *t[] = {"A title", "x < y & z > \"w\" 'v'", "1", "\xc3\x84ngstr\xc3\xb6m \xe2\x82\xac", "&amp; already <b>escaped</b>", "two  blanks", "-beta", "50 % of %s%n", "- x", "]]><!-- \\", "-", "--", "-hello"};
    string s = t[K->op(13)]; if (K->op(8) == 7) { size_t n = 150 + K->op(900); while (s.size() < n) s += " " + string(1 + s.size() % 13, 'a' + s.size() % 26); }
    return s;
}
static string gen_xml(vector<string> &lines, const string &tag) {
    string o = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; int n = 1 + K->op(5);
    for (int i = 0; i < n; i++) {
        string s = n == 1 ? "<" + tag + "/>" : i == 0 ? "<" + tag + ">" : i == n - 1 ? "</" + tag + ">" : "  <item name=\"" + tag + std::to_string(i) + "\"/>";
        uint32_t k = K->op(8);
        if (k == 7) { size_t m = 190 + K->op(30); s += "<!-- "; while (s.size() < m) s += 'c'; s += " -->"; }
        if (k == 6) { size_t m = 300 + K->op(3000); s += "<!-- "; while (s.size() < m) s += 'd'; s += " -->"; }
        if (k == 5) s += "<!-- \xff -->";
        if (k == 4) s += "";
        lines.push_back(s); o += s; if (i + 1 < n || K->op(3) != 2) o += "\n";
    }
    return o;
}
static Pack gen_pack(bool force = false) {
    Pack p; static const char *nm[] = {"MyLib", "My Lib", "Lib.1", "L"}; p.name = nm[K->op(4)];
    if (K->op(12) == 11) { static const char *odd[] = {"MyLib.mol", "M.mo", "Biblioth\xc3\xa8que", "a..b", "x-1_2+3", ".Lib", "%sLib", "R & D <1>", "0"}; p.name = odd[K->op(9)]; K->probe("odd-name"); }
    if (K->op(25) == 24) { static const int len[] = {100, 195, 196, 199, 200, 230, 251, 252, 255}; int n = len[K->op(9)]; p.name = "L"; while ((int)p.name.size() < n) p.name += (char)('a' + p.name.size() % 26); p.badpkg = n > 251; K->probe("long-name"); }
    GenOpt g; g.longmax = 3600; g.maxfiles = 4; g.maxdepth = 2; g.big = K->op(6) == 5; Lib l = gen_lib("/" + p.name, g);
    p.src = l.src; K->mkdirs(p.src); p.enc = force || K->op(4) != 3;
    auto add = [&](const string &rel, const string &data, mode_t mode = 0644) {
        if (K->exists(p.src + "/" + rel)) return;
        K->put(p.src + "/" + rel, data, mode);
        string e = p.name + "/" + rel;
        if (is_mo(rel)) p.mo.push_back(data);
        if (p.enc && is_mo(rel)) p.crypt[e + "c"] = data; else { p.plain[e] = data; p.mode[e] = mode; }
    };
    static const mode_t modes[] = {0644, 0600, 0755, 0444, 0640};
    for (auto &f : l.f) add(f.rel, f.data, modes[K->op(8) % 5]);
    auto anydir = [&]() { vector<string> d = {""}; for (auto &f : l.f) { size_t s = f.rel.rfind('/'); if (s != string::npos) d.push_back(f.rel.substr(0, s + 1)); } return d[K->op(d.size())]; };
    if (K->op(80) == 1) { string d = anydir(); for (uint32_t i = 20 + K->op(300); i > 0; i--) add(d + "n" + std::to_string(i) + (i % 3 ? ".mo" : ".txt"), "file " + std::to_string(i)); K->probe("many-files"); }
    if (gen_huge && K->op(150) == 1) { static const size_t hs[] = {1048576, 1048577, 2100000, 3000001, 5000000}; Rng r; r.seed(K->seed); string d; size_t n = hs[K->op(5)]; while (d.size() < n) d += (char)r.next(); coarse(); add(anydir() + (K->op(2) ? "huge.bin" : "Huge.mo"), d); K->probe("huge"); }
    if (K->op(4) == 3) add(anydir() + "Y.MO", gen_content("upper", false));
    if (K->op(6) == 5) add(anydir() + ".hidden.mo", gen_content("hidden", false));
    if (K->op(6) == 5) add(anydir() + ".gitignore", "*.o\n");
    if (K->op(8) == 7) add(anydir() + ".mo", gen_content("dotmo", false));
    if (K->op(6) == 5) add(anydir() + "readme.mo.txt", "not a model");
    if (K->op(6) == 5) add(anydir() + "package.mos", gen_content("script", false));
    if (K->op(6) == 5) K->mkdirs(p.src + "/" + anydir() + "Empty");
    if (K->op(6) == 5) K->put(p.src + "/" + anydir() + ".library/old/manifest.xml", "stale");
    if (K->op(8) == 7) {                                         // an old encrypted form beside its source
        vector<string> c; for (auto &f : l.f) if (f.enc) c.push_back(f.rel);
        if (c.size()) { string r = c[K->op(c.size())]; K->put(p.src + "/" + r + "c", "stale encrypted form"); if (!p.enc) p.plain[p.name + "/" + r + "c"] = "stale encrypted form"; }
    }
    if (K->op(8) == 7) add(anydir() + "Foreign.moc", "foreign encrypted file");
    if (p.enc && K->op(25) == 24) { string d = anydir(); if (!K->exists(p.src + "/" + d + "package.mo")) { add(d + "Package.MO", gen_content("badcase", false)); p.badpkg = true; } }
    if (K->op(3) == 2) {                                         // icon, on the top level or below
        static const char *ic[] = {"icon.png", "Resources/Images/icon.png", "Icons/icon.png"}; p.icon = ic[K->op(3)];
        bool clash = false; string d = p.icon; for (size_t s; (s = d.rfind('/')) != string::npos;) { d = d.substr(0, s); INode n = K->lookup(p.src + "/" + d); if (n && !n->dir) clash = true; }
        if (clash) p.icon = "icon.png";
        add(p.icon, gen_content("icon", false));
        if (K->op(3) == 2) { static const char *dc[] = {"ICON.PNG", "Icon.png", "icon.png.bak", "xicon.png", "icon.pn", "icon"}; for (int i = 1 + K->op(3); i > 0; i--) add(anydir() + dc[K->op(6)], "not the icon"); K->probe("icon-decoys"); }
        if (K->op(5) == 4) { K->put("/cfg/icon.png", "the icon as the user has it"); p.iconarg = "/cfg/icon.png"; } else p.iconarg = p.src + "/" + p.icon;
    }
    // packagetool is built for paths of up to 2048 characters: beyond, it may refuse, but never succeed with less than everything
    for (auto *m : {&p.plain, &p.crypt}) for (auto &x : *m) if (x.first.size() > 1900) { p.badpkg = true; K->probe("overlong"); break; }
    // program directory
    K->mkdirs("/opt/pt/LVE"); K->mkdirs("/out"); K->mkdirs("/ref"); K->mkdirs("/tmp"); K->mkdirs("/var/tmp/x");
    static const char *lv[] = {"lve_linux64", "lve_win32.exe", "lve_win64.exe", "lve_linux32", "lve_darwin64"};
    for (int i = 0; i < 5; i++) if (i == 0 || K->op(3) == 2) {
        string d = gen_content(string("exe") + lv[i], K->op(4) == 3); mode_t m = K->op(4) == 3 ? 0775 : 0755; K->put(string("/opt/pt/LVE/") + lv[i], d, m);
        if (p.enc) { string e = p.name + "/.library/" + lv[i]; p.plain[e] = d; p.lve[e] = m; }
    }
    if (K->op(6) == 5) K->put("/opt/pt/LVE/notes.txt", "not an LVE");
    if (K->op(3) == 2) { auto ex = [&](const string &r) { string d = gen_content("extra", false); mode_t m = modes[K->op(8) % 5]; K->put("/opt/pt/.library/" + r, d, m); p.mode[p.name + "/.library/" + r] = m; p.plain[p.name + "/.library/" + r] = d; }; ex("Vendor/data.bin"); if (K->op(2)) ex("Vendor/sub/more.txt"); if (K->op(2)) ex("extra.txt"); }
    // command line
    string lp = p.src; uint32_t pk = K->op(5); if (pk == 1) lp += "/"; if (pk == 2) lp = "../src/" + p.name; if (pk == 3) lp += "//";
    if (allow_local && K->op(6) == 5) { p.local = true; static const char *sp[] = {"", "./"}; lp = sp[K->op(2)] + p.name + (K->op(3) == 2 ? "/" : ""); K->probe("local"); }
    vector<std::pair<string, string>> a = {{"librarypath", lp}, {"version", K->op(2) ? "2.0" : "1.0-beta & <more>"}, {"language", "3.2"}};
    static const char *tr[] = {"true", "true", "true", "true", "TRUE", "True", "tRuE", "trUE"};
    if (p.enc) a.push_back({"encrypt", tr[K->op(8)]}); else if (K->op(2)) a.push_back({"encrypt", "false"});
    for (const char *o : {"title", "description", "build", "date", "copyright", "license"}) if (K->op(4) == 3) { string t = gen_text(); if (*o != 'b' && strcmp(o, "date") && K->op(4) == 3) t += K->op(2) ? "\nsecond line" : "\n\n  third\n line\n."; a.push_back({o, t}); }
    if (K->op(6) == 5) a.push_back({"enabled", "true"});
    if (p.icon.size()) a.push_back({"icon", p.iconarg});
    K->mkdirs("/cfg");
    if (K->op(4) == 3) { K->put("/cfg/tools.xml", gen_xml(p.lines, "compatibility")); a.push_back({"tools", "/cfg/tools.xml"}); }
    if (K->op(4) == 3) { K->put("/cfg/deps.xml", gen_xml(p.lines, "dependencies")); a.push_back({"dependencies", "/cfg/deps.xml"}); }
    for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[K->op(i)]);
    // tools come before dependencies in the manifest, whatever the order of the arguments
    p.argv = {"/opt/pt/packagetool"}; for (auto &x : a) { p.argv.push_back("-" + x.first); p.argv.push_back(x.second); p.val[x.first] = x.second; }
    if (K->op(4) == 3) p.env["TMPDIR"] = K->op(2) ? "/var/tmp/x" : "/t";
    K->dt_unknown = K->op(5) == 4;
    return p;
}
static Proc *start_pack(const Pack &p, const string &cwd) {
    Proc *x = K->spawn("packagetool", "pkg", p.argv); x->exe = p.argv[0]; x->cwd = cwd; x->env = p.env; K->start(x); return x;
}
static string unesc(const string &s) {
    static const std::pair<const char *, char> t[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&amp;", '&'}, {"&apos;", '\''}};
    string o; for (size_t i = 0; i < s.size();) { bool hit = false; for (auto &x : t) if (s.compare(i, strlen(x.first), x.first) == 0) { o += x.second; i += strlen(x.first); hit = true; break; } if (!hit) o += s[i++]; }
    return o;
}
static string trim(const string &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static vector<map<string, string>> elems(const string &x, const string &tag) {          // attributes (and "" = text) of every <tag>
    vector<map<string, string>> v; size_t i = 0;
    while ((i = x.find("<" + tag, i)) != string::npos) {
        size_t j = i + 1 + tag.size(); char c = j < x.size() ? x[j] : 0; i = j; if (c != ' ' && c != '\t' && c != '\n' && c != '>' && c != '/') continue;
        map<string, string> m; size_t e = x.find('>', j); if (e == string::npos) return v;
        string h = x.substr(j, e - j); size_t k = 0;
        for (;;) { size_t q = h.find('=', k); if (q == string::npos) break; string an = trim(h.substr(k, q - k)); size_t o = h.find_first_of("\"'", q); if (o == string::npos) break; size_t c2 = h.find(h[o], o + 1); if (c2 == string::npos) break; m[an] = unesc(h.substr(o + 1, c2 - o - 1)); k = c2 + 1; }
        if (h.empty() || h.back() != '/') { size_t t = x.find("</" + tag + ">", e); if (t != string::npos) m[""] = unesc(trim(x.substr(e + 1, t - e - 1))); }
        v.push_back(m); i = e;
    }
    return v;
}
// every element of a well-formed document as its path from the root, or why it is not well formed
static string xml_paths(const string &x, std::multiset<string> &paths) {
    vector<string> st; size_t i = 0; bool root = false;
    while (i < x.size()) {
        if (x[i] != '<') { if (st.empty() && !isspace((unsigned char)x[i])) return "text outside the root element at " + std::to_string(i); i++; continue; }
        if (!x.compare(i, 4, "<!--")) { i = x.find("-->", i + 4); if (i == string::npos) return "a comment does not end"; i += 3; continue; }
        if (!x.compare(i, 2, "<?")) { if (i) return "a declaration at " + std::to_string(i); i = x.find("?>", i); if (i == string::npos) return "a declaration does not end"; i += 2; continue; }
        size_t e = i; char q = 0; for (; e < x.size() && (q || x[e] != '>'); e++) { if (q ? x[e] == q : (x[e] == '"' || x[e] == '\'')) q = q ? 0 : x[e]; if (e > i && x[e] == '<') return "a tag is not closed at " + std::to_string(i); }
        if (e == x.size()) return "the document breaks off in a tag";
        string t = x.substr(i + 1, e - i - 1); i = e + 1;
        if (t[0] == '/') { t = trim(t.substr(1)); if (st.empty() || st.back() != t) return "</" + t + "> closes " + (st.empty() ? string("nothing") : "<" + st.back() + ">"); st.pop_back(); continue; }
        bool self = t.size() && t.back() == '/'; string n = t.substr(0, t.find_first_of(" \t\r\n/")); if (n.empty()) return "a tag without a name";
        if (st.empty()) { if (root) return "a second root element <" + n + ">"; root = true; }
        st.push_back(n); string path; for (auto &y : st) path += (path.size() ? "/" : "") + y; paths.insert(path); if (self) st.pop_back();
    }
    if (st.size()) return "<" + st.back() + "> is not closed";
    return root ? "" : "no root element";
}
static void check_manifest(const Pack &p, const string &m, const std::set<string> &entries, const char *who) {
    std::multiset<string> paths; string bad = xml_paths(m, paths); CHECK(bad.empty(), "manifest", "%s: the manifest is no XML document: %s", who, bad.c_str());
    auto once = [&](const string &path, size_t n = 1) { CHECK(paths.count(path) == n, "manifest", "%s: the manifest has %zu elements %s instead of %zu", who, paths.count(path), path.c_str(), n); };
    once("archive"); once("archive/manifest"); once("archive/library"); once("archive/library/version"); once("archive/library/language"); once("archive/library/encryption", p.enc); once("archive/library/encryption/executable", p.lve.size());
    for (const char *o : {"title", "description", "copyright", "license", "icon"}) once(string("archive/library/") + o, p.val.count(o)); once("archive/library/compatibility", p.val.count("tools")); once("archive/library/dependencies", p.val.count("dependencies"));
    auto lib = elems(m, "library"), ver = elems(m, "version"), lang = elems(m, "language"), exe = elems(m, "executable"), ic = elems(m, "icon");
    CHECK(lib.size() == 1 && lib[0]["id"] == p.name, "manifest", "%s: library id is \"%s\" instead of \"%s\"", who, lib.size() ? lib[0]["id"].c_str() : "(none)", p.name.c_str());
    CHECK(ver.size() == 1 && ver[0]["number"] == p.val.at("version"), "manifest", "%s: version number is \"%s\"", who, ver.size() ? ver[0]["number"].c_str() : "(none)");
    CHECK(lang.size() == 1 && lang[0]["version"] == p.val.at("language"), "manifest", "%s: language version wrong", who);
    if (p.val.count("enabled")) CHECK(lib[0]["enabled"] == p.val.at("enabled"), "manifest", "%s: enabled is \"%s\"", who, lib[0]["enabled"].c_str());
    for (const char *o : {"build", "date"}) if (p.val.count(o)) CHECK(ver[0][o] == p.val.at(o), "manifest", "%s: %s is \"%s\"", who, o, ver[0][o].c_str());
    for (const char *o : {"title", "description", "copyright", "license"}) if (p.val.count(o)) { auto e = elems(m, o); CHECK(e.size() == 1 && e[0][""] == trim(p.val.at(o)), "manifest", "%s: %s is \"%s\" instead of \"%s\"", who, o, e.size() ? e[0][""].c_str() : "(none)", p.val.at(o).c_str()); }
    std::set<string> named; for (auto &e : exe) { CHECK(entries.count(p.name + "/" + e["path"]), "manifest", "%s: executable %s is not in the archive", who, e["path"].c_str()); named.insert(p.name + "/" + e["path"]);
        string base = e["path"].substr(e["path"].rfind('/') + 1), pf = base.substr(base.find('_') + 1); pf = pf.substr(0, pf.find('.')); CHECK(e["platform"] == pf, "manifest", "%s: platform of %s is \"%s\"", who, base.c_str(), e["platform"].c_str()); }
    for (auto &x : p.lve) CHECK(named.count(x.first), "manifest", "%s: LVE %s is in the archive but not named by the manifest", who, x.first.c_str());
    CHECK(exe.size() == p.lve.size(), "manifest", "%s: %zu executables instead of %zu", who, exe.size(), p.lve.size());
    if (p.icon.size()) { CHECK(ic.size() == 1, "manifest", "%s: no icon", who); CHECK(entries.count(p.name + "/" + ic[0]["file"]) , "manifest", "%s: icon file \"%s\" is no file of the library", who, ic[0]["file"].c_str());
        CHECK(ic[0]["file"] == p.icon, "manifest", "%s: the icon is \"%s\" instead of \"%s\"", who, ic[0]["file"].c_str(), p.icon.c_str()); }
    size_t at = 0; vector<string> ls = p.lines;
    auto find_all = [&](const vector<string> &v) { size_t q = at; for (auto &x : v) { if (x.empty()) continue; q = m.find(x, q); if (q == string::npos) return false; q += x.size(); if (m[q] != '\n' && m[q] != '\r') return false; } return true; };
    CHECK(find_all(ls), "manifest", "%s: the lines of the tools and dependencies files are not all in the manifest", who);
}
// the archive at path is complete and exact; returns its manifest
static string check_archive(const Pack &p, const string &path, const char *who) {
    string a; CHECK(K->get(path, a), "archive", "%s exits 0 without an archive", who);
    vector<ArEntry> v; CHECK(parse_archive(a, v), "archive", "%s exits 0 with a truncated archive of %zu bytes", who, a.size());
    std::set<string> have; string man, manname = p.name + "/.library/manifest.xml";
    for (auto &e : v) {
        CHECK(have.insert(e.name).second, "archive", "%s: entry %s twice", who, e.name.c_str());
        if (e.name == manname) { man = e.data; continue; }
        auto it = p.plain.find(e.name); bool cr = p.crypt.count(e.name) > 0;
        CHECK(cr || it != p.plain.end(), "archive", "%s: entry %s does not belong to the library", who, e.name.c_str());
        if (!cr) CHECK(e.data == it->second, "archive", "%s: entry %s: %s", who, e.name.c_str(), hexdiff(it->second, e.data).c_str());
        auto lv = p.lve.find(e.name); if (lv != p.lve.end()) CHECK((e.mode & 0777) == (lv->second & 0777), "archive", "%s: LVE %s has mode %o instead of %o", who, e.name.c_str(), e.mode, lv->second);
        auto md = p.mode.find(e.name); if (md != p.mode.end()) CHECK((e.mode & 0777) == md->second, "archive", "%s: %s has mode %o instead of %o", who, e.name.c_str(), e.mode, md->second);
    }
    CHECK(man.size(), "archive", "%s: no manifest", who);
    for (auto &x : p.plain) CHECK(have.count(x.first), "archive", "%s exits 0 but %s is missing from the archive", who, x.first.c_str());
    for (auto &x : p.crypt) CHECK(have.count(x.first), "archive", "%s exits 0 but %s is missing from the archive", who, x.first.c_str());
    static int n = 0; string x = "/scratch/x" + std::to_string(++n); K->mkdirs(x);
    for (auto &e : v) K->put(x + "/" + e.name, e.data);
    for (auto &c : p.crypt) { int rc; string d = decrypt_real(x + "/" + p.name, c.first.substr(p.name.size() + 1), rc);
        CHECK(rc == 0 && d == c.second, "archive", "%s: entry %s: decrypt_file exits %d, %s", who, c.first.c_str(), rc, hexdiff(c.second, d).c_str()); }
    check_manifest(p, man, have, who);
    INode par; string leaf; if (K->lookup(x, &par, &leaf)) par->kids.erase(leaf);
    return man;
}
static int finish(Proc *x) { CHECK(x->done(), "hang", "packagetool does not finish: %s", quiescent_report().c_str()); return x->sig ? 256 + x->sig : x->code; }
static void alloc_crash_ok() { K->crash_ok = [](Proc *p) { return K->fired[F_ALLOC] > 0 && p->role.compare(0, 11, "packagetool") == 0; }; }
void c14() {
    gen_huge = true;
    allow_local = true; Pack p = gen_pack(); alloc_crash_ok(); string ref = p.local ? "/src" : "/ref", out = p.local ? "/src" : "/out";
    pick_faults(PKF, {"packagetool"}, 3, 300); int64_t disk = K->disk_free; K->disk_free = -1;
    string refman;
    { NoFault nf; Proc *x = start_pack(p, ref); K->run(); int rc = finish(x);
      CHECK(rc == 0 || p.badpkg, "refused", "packagetool exits %d on a healthy system: %s", rc, tail(x->outtext).c_str());
      if (rc) { K->probe("badcase-refused"); return; }
      refman = check_archive(p, ref + "/" + p.name + ".mol", "fault-free packagetool"); INode par; string leaf; if (K->lookup(ref + "/" + p.name + ".mol", &par, &leaf)) par->kids.erase(leaf); K->probe(p.enc ? "encrypted" : "plain"); }
    if (K->op(3) == 2) K->put(out + "/" + p.name + ".mol", gen_content("junk", false));
    bool two = K->op(4) == 3 && !p.local; K->mkdirs("/out2");
    K->faults_on = true; K->disk_free = disk; Fired fi;
    Proc *x = start_pack(p, out), *y = two ? start_pack(p, "/out2") : nullptr; K->run();
    K->faults_on = false; K->disk_free = -1;
    for (Proc *q : {x, y}) if (q) {
        int rc = finish(q);
        if (rc == 0) { string m = check_archive(p, q->cwd + "/" + p.name + ".mol", fi.any() ? "packagetool under faults" : "packagetool"); CHECK(m == refman, "manifest", "the manifest differs from that of a fault-free run: %s", hexdiff(refman, m).c_str()); K->probe("complete"); if (fi.any()) K->probe("complete-despite-fault"); }
        else { CHECK(fi.any(), "refused", "packagetool exits %d without a fault: %s", rc, tail(q->outtext).c_str()); K->probe("failed-by-fault"); if (q->sig == 9) K->probe("killed"); }
    }
}
static void no_plaintext(const Pack &p, const string &path) {
    string a; if (!K->get(path, a)) return;
    std::unordered_set<std::string_view> win; string paths; K->walk(p.src, [&](const string &q, Inode &) { paths += q + "\n" + q + "c\n"; });
    for (auto &x : p.plain) paths += x.second + "\n";
    for (auto &m : p.mo) for (size_t i = 0; i + 24 <= m.size(); i += 24) if (paths.find(m.substr(i, 24)) == string::npos) win.insert(std::string_view(m).substr(i, 24));
    std::string_view av(a); for (size_t i = 0; i + 24 <= a.size(); i++) if (win.count(av.substr(i, 24))) K->violate("plaintext", path + " contains plaintext Modelica source at offset " + std::to_string(i) + ": " + a.substr(i, 24));
    vector<ArEntry> v; parse_archive(a, v);
    for (auto &e : v) CHECK(!is_mo(e.name), "mo-entry", "%s contains the Modelica source entry %s", path.c_str(), e.name.c_str());
}
void c15() {
    Pack p = gen_pack(true); alloc_crash_ok();
    bool healthy = K->op(8) == 7; if (!healthy) pick_faults(PKF, {"packagetool"}, 4, 300);
    if (K->op(3) == 2) K->put("/out/" + p.name + ".mol", string("an older archive ") + gen_content("junk", false));
    int runs = 1 + K->op(2); K->mkdirs("/out2");
    for (int r = 0; r < runs; r++) {
        bool two = K->op(4) == 3; Fired fi; Proc *x = start_pack(p, "/out"), *y = two ? start_pack(p, "/out2") : nullptr; K->run();
        for (Proc *q : {x, y}) if (q) { int rc = finish(q); K->probe(rc == 0 ? "encrypted" : q->sig == 9 ? "killed" : "failed-by-fault"); CHECK(rc == 0 || fi.any() || p.badpkg, "refused", "packagetool exits %d without a fault: %s", rc, tail(q->outtext).c_str()); }
        bool on = K->faults_on; K->faults_on = false; no_plaintext(p, "/out/" + p.name + ".mol"); no_plaintext(p, "/out2/" + p.name + ".mol"); K->faults_on = on;
    }
}
void c16() {
    Pack p = gen_pack(); alloc_crash_ok();
    bool healthy = K->op(8) == 7; if (!healthy) pick_faults(PKF, {"packagetool"}, 3, 400);
    if (K->op(3) == 2) { K->put("/tmp/TemporaryFolderOther/" + p.name + "/package.mo", "of another run"); K->put("/tmp/other.txt", "kept"); }
    if (K->op(3) == 2) { K->put("/out/notes.txt", "kept"); K->put("/out/" + p.name + "/package.mo", "kept"); }
    if (K->op(3) == 2) K->put("/out/" + p.name + ".mol", "an older archive");
    string cwd = K->op(4) == 3 ? "/src" : "/out"; bool two = K->op(4) == 3; K->mkdirs("/out2");
    std::set<string> left; int rounds = 1 + (K->op(4) == 3) + (K->op(12) == 11);           // later runs meet what killed ones have left, perhaps under the same process id
    for (int r = 0; r < rounds; r++) {
    if (r && K->op(2)) { K->nextpid = 100; K->probe("pid-reused"); }
    Snap before = snap("/");
    Fired fi; Proc *x = start_pack(p, cwd), *y = two ? start_pack(p, "/out2") : nullptr; K->run();
    Snap after = snap("/"); vector<string> staging;
    for (auto it = after.begin(); it != after.end();) {
        if (it->first.compare(0, 20, "/tmp/TemporaryFolder") == 0 && !before.count(it->first)) { bool ours = it->first.compare(0, 25, "/tmp/TemporaryFolderOther") != 0; if (ours) { if (it->first.find('/', 5) == string::npos) staging.push_back(it->first); it = after.erase(it); continue; } }
        ++it;
    }
    for (string a : {cwd + "/" + p.name + ".mol", string("/out2/") + p.name + ".mol"}) { before.erase(a); after.erase(a); drop_unfinished(before, after, fi, a, left); }
    string d = snapdiff(before, after); CHECK(d.empty(), "changed", "packagetool: %s", d.c_str());
    bool clean = true;
    for (Proc *q : {x, y}) if (q) {
        int rc = finish(q); CHECK(rc == 0 || fi.any() || p.badpkg, "refused", "packagetool exits %d without a fault: %s", rc, tail(q->outtext).c_str());
        string o = lower(q->outtext + q->errtext); bool complaint = false; for (const char *w : {"fail", "ignor", "could not", "couldn't", "warning", "error: ", "unable"}) if (o.find(w) != string::npos) complaint = true;
        if (rc != 0 || complaint) clean = false;
        K->probe(rc == 0 ? "complete" : q->sig == 9 ? "killed" : "failed-by-fault");
    }
    if (clean) CHECK(staging.empty(), "staging-left", "packagetool reports success without complaint but leaves %s", staging[0].c_str());
    }
}

// ------------------------------------------------------------------ C19
static bool own_decrypt(const string &c, const unsigned char *key, string &out) {
    if (c.size() < 16 + 32 + 16) return false;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); out.resize(c.size()); int a = 0, b = 0;
    bool ok = EVP_DecryptInit_ex(x, EVP_aes_256_cbc(), nullptr, key, (const unsigned char *)c.data()) && EVP_DecryptUpdate(x, (unsigned char *)&out[0], &a, (const unsigned char *)c.data() + 16, (int)c.size() - 48) && EVP_DecryptFinal_ex(x, (unsigned char *)&out[0] + a, &b);
    EVP_CIPHER_CTX_free(x); if (!ok) return false; out.resize(a + b); return true;
}
static string hexs(const string &k, bool up, const char *sep = "") { string o; char b[4]; for (unsigned char c : k) { if (o.size()) o += sep; snprintf(b, sizeof b, up ? "%02X" : "%02x", c); o += b; } return o; }
void c19() {
    GenOpt g; g.maxfiles = 5; g.minfiles = 2; g.big = K->op(8) == 7; g.plain = K->op(3) == 2; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    // every secret of the library: source windows, base key, masks, and the effective key of every package
    std::unordered_set<string> win; vector<std::pair<string, string>> secrets;
    string paths; for (auto &f : l.f) paths += l.src + "/" + f.rel + "\n" + l.root + "/" + f.req + "\n" + (f.enc ? "" : f.data + "\n");
    auto bytes = [](const string &s) { std::set<char> x(s.begin(), s.end()); return x.size(); };
    for (auto &f : l.f) if (f.enc) for (size_t i = 0; i + 24 <= f.data.size(); i += 24) { string w = f.data.substr(i, 24); if (bytes(w) > 4 && paths.find(w) == string::npos) win.insert(w); }
    DECLARE_MLLE_CR_KEY(); INITIALIZE_MLLE_CR_KEY(); string base((char *)MLLE_CR_KEY, 32);
    secrets.push_back({"the base key", base});
    vector<const LFile *> pk; for (auto *f : enc_order(l)) if (ispk(f->rel)) pk.push_back(f);
    map<string, string> mask;                         // directory -> mask that applies below it
    for (auto *f : pk) {
        string dir = f->rel.size() > 10 ? f->rel.substr(0, f->rel.size() - 11) : "", up = dir, key = base, m, c, pl; 
        bool top = dir.empty();
        if (!top) for (;;) { size_t s = up.rfind('/'); up = s == string::npos ? "" : up.substr(0, s); auto it = mask.find(up); if (it != mask.end()) { m = it->second; break; } if (up.empty()) break; }
        if (m.size()) for (int i = 0; i < 32; i++) key[i] ^= m[i];
        K->get(l.root + "/" + f->req, c); CHECK(own_decrypt(c, (const unsigned char *)key.data(), pl) && pl.size() >= 32, "format", "harness cannot read %s", f->req.c_str());
        CHECK(pl.substr(0, pl.size() - 32) == f->data, "format", "harness reads something else in %s", f->req.c_str());
        string mm = pl.substr(pl.size() - 32); if (m.size()) { secrets.push_back({"the key mask of " + f->rel, mm}); }
        else secrets.push_back({"the key mask of " + f->rel, mm});
        mask[dir] = mm; string k2 = base; for (int i = 0; i < 32; i++) k2[i] ^= mm[i]; secrets.push_back({"the key below " + f->rel, k2});
    }
    for (const char *kn : {"lve"}) (void)kn;
    string tap; K->pipe_tap = &tap; map<string, string> written; K->file_tap = &written;
    install_lve(); bool logging = K->op(3) != 2, badlog = logging && K->op(6) == 5;
    K->mkdirs("/log"); K->mkdirs("/run");
    pick_faults({F_OPEN_R, F_READ, F_STAT, F_ALLOC, F_WRITE, F_ENTROPY, F_KILL, F_STALL, F_DISKFULL, F_OPEN_W, F_CRYPTO}, {"lve", "tool"}, 3, 200);
    K->faults_on = K->op(3) != 2;
    Proc *t = K->spawn_fn("tool", [&]() {
        cur->sigpipe = 1; cur->cwd = "/run"; if (logging) cur->env["SEMLA_LVE_LOG_FILE"] = badlog ? "/nowhere/lve.log" : "/log/lve.log";
        Session s; Outcome o = open_session(s, l); if (!o.ok) { K->probe("error-path"); s.free(); return 0; }
        int n = 1 + K->op(8);
        for (int i = 0; i < n; i++) {
            if (K->op(4) == 3) { const LFile &f = l.f[K->op(l.f.size())]; string d; if (f.enc && K->get(l.root + "/" + f.req, d)) { K->put(l.root + "/" + f.req, damage1(d)); K->probe("damaged"); } }
            string rq = request_path(l); o = s.file(rq); if (o.ok) K->probe("session"); else K->probe("error-path");
            if (K->op(5) == 4) s.feature("F1");
            if (K->op(8) == 7) s.lib("/elsewhere");
        }
        s.free(); return 0;
    }, "toolA");
    K->run(); (void)t;
    vector<std::pair<string, const string *>> streams = {{"the pipe between tool and LVE", &tap}};
    for (Proc *p : K->procs) if (p->role.compare(0, 3, "lve") == 0 || p->role == "tool") { streams.push_back({p->role + "'s standard error", &p->errtext}); streams.push_back({p->role + "'s standard output", &p->outtext}); }
    vector<string> keep; vector<std::pair<string, string>> files;
    K->walk("/", [&](const string &p, Inode &n) { if (!n.dir && p.compare(0, l.src.size() + 1, l.src + "/") != 0) { if (p.compare(0, 5, "/log/") == 0 && n.data.size()) K->probe("logged"); files.push_back({p, n.data}); } });
    for (auto &f : files) { bool isplain = false; for (auto &x : l.f) if (!x.enc && f.first == l.root + "/" + x.req) isplain = true; if (!isplain) streams.push_back({"file " + f.first, &f.second}); }
    // whatever was ever written to a file, also if it was removed or overwritten since
    K->file_tap = nullptr; for (auto &w : written) streams.push_back({"what was written to " + w.first, &w.second});
    for (auto &st : streams) {
        const string &d = *st.second;
        for (size_t i = 0; i + 24 <= d.size(); i++) { string w = d.substr(i, 24); if (win.count(w)) K->violate("source", st.first + " contains decrypted source at offset " + std::to_string(i) + ": " + w); }
        for (auto &k : secrets) for (size_t off = 0; off + 8 <= 32; off += 8) {
            string part = k.second.substr(off, 8);
            for (auto &form : {part, hexs(part, false), hexs(part, true), hexs(part, false, ":"), hexs(part, true, ":"), hexs(part, false, " "), hexs(part, true, " ")})
                if (d.find(form) != string::npos) K->violate("key", st.first + " contains " + k.first + " at " + std::to_string(d.find(form)) + " of " + std::to_string(d.size()) + ": " + hexs(form, false));
        }
    }
}

// ------------------------------------------------------------------ C21: key headers
// reads a generated header: the key it yields, or why it does not yield one
static string read_header(const string &h, const string &name, string &key, size_t &len) {
    size_t dp = h.find("DECLARE_" + name); if (dp == string::npos) return "no DECLARE macro";
    size_t q = h.find(name + "[", dp + 8 + name.size()); if (q == string::npos) return "no declaration";
    long dim = strtol(h.c_str() + q + name.size() + 1, nullptr, 0);
    size_t lp = h.find("#define " + name + "_LEN"); if (lp == string::npos) return "no _LEN macro";
    const char *c = h.c_str() + lp + 12 + name.size(); while (*c == ' ' || *c == '(' || *c == '\t') c++;
    char *e; long ln = strtol(c, &e, 0); if (e == c) return "no number in the _LEN macro"; len = ln;
    if (dim < ln + 1) return "the declared array has " + std::to_string(dim) + " bytes for a key of " + std::to_string(ln);
    size_t ip = h.find("INITIALIZE_" + name); if (ip == string::npos) return "no INITIALIZE macro";
    size_t ie = ip; for (;; ie++) { ie = h.find('\n', ie); if (ie == string::npos) return "the INITIALIZE macro does not end"; if (h[ie - 1] != '\\') break; }
    string b = h.substr(ip, ie - ip); if (b.find("while") == string::npos && b.find("do") != string::npos) return "the INITIALIZE macro is not closed";
    map<long, int> v; size_t at = 11 + name.size();
    while ((at = b.find(name + "[", at)) != string::npos) {
        at += name.size() + 1; long i = strtol(b.c_str() + at, nullptr, 0); size_t eq = b.find('=', at); if (eq == string::npos) return "an assignment breaks off";
        const char *s = b.c_str() + eq + 1; while (*s == ' ' || *s == '(') s++; if (!strncmp(s, "char)", 5)) s += 5; while (*s == ' ') s++;
        int val;
        if (*s == '\'') { s++; if (*s == '\\') { s++; if (*s == 'x') val = strtol(s + 1, nullptr, 16); else if (*s >= '0' && *s <= '7') val = strtol(s, nullptr, 8); else val = *s == 'n' ? 10 : *s == 'r' ? 13 : *s == 't' ? 9 : *s; } else val = (unsigned char)*s; }
        else val = strtol(s, nullptr, 0);
        if (i < 0 || i >= dim) return "byte " + std::to_string(i) + " of an array of " + std::to_string(dim) + " is assigned";
        v[i] = val & 255; at = eq;
    }
    key.clear(); for (long i = 0; i < ln; i++) { if (!v.count(i)) return "byte " + std::to_string(i) + " of " + std::to_string(ln) + " is never set"; key += (char)v[i]; }
    if (!v.count(ln) || v[ln] != 0) return "the key is not terminated";
    if (h.find("CLEAR_" + name, ie) == string::npos) return "no CLEAR macro";
    if (h.empty() || h.back() != '\n') return "the header breaks off";
    return "";
}
void c21() {
    pick_faults({F_OPEN_R, F_OPEN_W, F_READ, F_WRITE, F_CLOSE_W, F_STAT, F_DISKFULL, F_ALLOC, F_ENTROPY, F_KILL, F_STALL}, {"obfuscate", "randomize_key"}, 3, 12);
    int64_t disk = K->disk_free; K->disk_free = -1; bool on = K->op(5) != 4;
    K->mkdirs("/k"); K->put("/k/keep.txt", "kept"); std::set<string> rnds, left; int n = 1 + K->op(5);
    for (int i = 0; i < n; i++) {
        int w = 1 + (K->op(4) == 3); struct J { bool rnd; string in, out, name, data, old; bool had; Proc *p; }; vector<J> js;
        for (int k = 0; k < w; k++) {
            J j; j.rnd = K->op(3) == 2; static const char *ty[] = {"TOOL_PUBLIC", "TOOL_PRIVATE", "LVE_PRIVATE"}; const char *t = ty[K->op(3)];
            static const char *nm[] = {"PRIVATE_KEY_TOOL", "PUBLIC_KEY_TOOL0", "MLLE_CR_KEY", "K"}; j.name = nm[K->op(4)];
            j.out = "/k/out" + std::to_string(2 * K->op(3) + k) + ".h"; j.in = "/k/in" + std::to_string(i) + std::to_string(k) + ".pem";
            if (!j.rnd) {
                uint32_t c = K->op(6); size_t len = 1 + (c == 5 ? K->op(20000) : c == 4 ? K->op(3) : K->op(1800)); bool cr = K->op(3) == 2, bin = K->op(4) == 3; Rng r; r.seed(K->op(1u << 30));
                while (j.data.size() < len) { uint64_t x = r.next(); if (bin) j.data += (char)(x >> 20); else { j.data += "ABCDEFabcdef0123+/=- "[(x >> 20) % 21]; if (j.data.size() % 65 == 64) { if (cr) { j.data += '\r'; } j.data += '\n'; } } }
                if (cr) { if (K->op(2)) j.data += '\r'; if (K->op(4) == 3) j.data = "\r" + j.data; if (K->op(4) == 3) j.data += "\r\r\r"; if (j.data.find('\r') != string::npos) K->probe("carriage-return"); }
                K->put(j.in, j.data);
            }
            if (K->op(4) == 3) K->put(j.out, "#define OLD\n");
            j.had = K->get(j.out, j.old);
            vector<string> av = j.rnd ? vector<string>{"randomize_key", j.out, j.name} : vector<string>{"obfuscate", j.out, j.in, j.name, t};
            j.p = K->spawn(av[0], j.rnd ? "rnd" : "obf", av); j.p->exe = "/opt/" + av[0]; js.push_back(j);
        }
        bool faulty = on && K->op(3) != 2; K->faults_on = faulty; K->disk_free = faulty ? disk : -1;
        Snap before = snap("/"); Fired fi; for (auto &j : js) K->start(j.p); K->run(); if (faulty) disk = K->disk_free; K->faults_on = false; K->disk_free = -1;
        Snap after = snap("/"); for (auto &j : js) { before.erase(j.out); after.erase(j.out); drop_unfinished(before, after, fi, j.out, left); }
        string d = snapdiff(before, after); CHECK(d.empty(), "other-changed", "key generator: %s", d.c_str());
        for (auto &j : js) {
            const char *who = j.rnd ? "randomize_key" : "obfuscate";
            CHECK(j.p->done(), "hang", "%s does not finish: %s", who, quiescent_report().c_str());
            CHECK(!j.p->sig || fi(F_KILL), "killed", "%s ended by signal %d", who, j.p->sig);
            int rc = j.p->sig ? 256 + j.p->sig : j.p->code; string h; bool has = K->get(j.out, h);
            CHECK(faulty || rc == 0, "refused", "%s exits %d on a healthy system: %s", who, rc, tail(j.p->errtext).c_str());
            if (rc) { if (fi.any()) K->probe("failed-by-fault"); CHECK(j.p->sig || j.p->errtext.size(), "no-error", "%s exits %d without a message", who, rc); continue; }
            CHECK(has, "no-output", "%s exits 0 without a header", who);
            if (w == 1 && j.rnd) CHECK(!fi(F_ENTROPY), "entropy", "randomize_key exits 0 although the random generator failed");
            string key; size_t len = 0; string bad = read_header(h, j.name, key, len); CHECK(bad.empty(), "header", "%s exits 0 but the header is not whole: %s", who, bad.c_str());
            if (j.rnd) { CHECK(len == 32, "random", "randomize_key made a key of %zu bytes", len); CHECK(rnds.insert(key).second, "random", "randomize_key made the same key twice"); std::set<char> x(key.begin(), key.end()); CHECK(x.size() > 8, "random", "randomize_key made a key of %zu different bytes", x.size()); K->probe("random"); }
            else { string want; for (char c : j.data) if (c != '\r') want += c; CHECK(key == want, "key", "obfuscate: the header yields another key: %s", hexdiff(want, key).c_str()); K->probe("key"); }
        }
    }
}

// ------------------------------------------------------------------ C24: command lines that cannot be obeyed
struct Cmd { string role, img, what; vector<string> argv; string cwd = "/out"; bool help = false, early = true; };
static string junk_word() { static const char *w[] = {"--foo", "-x", "help", "--Version", "--checkout", "--libpat", "-", "--", "true", "-versions", "-librarypat", "--checkout-feature=f"}; return w[K->op(12)]; }
static Cmd bad_pack(const Pack &p) {
    Cmd c; c.role = "packagetool"; c.img = "pkg"; vector<std::pair<string, string>> a;
    for (size_t i = 1; i + 1 < p.argv.size(); i += 2) a.push_back({p.argv[i], p.argv[i + 1]});
    auto drop = [&](const string &n) { for (size_t i = 0; i < a.size(); i++) if (a[i].first == "-" + n) { a.erase(a.begin() + i); return; } };
    auto set = [&](const string &n, const string &v) { drop(n); a.insert(a.begin() + K->op(a.size() + 1), {"-" + n, v}); };
    auto flat = [&]() { c.argv = {p.argv[0]}; for (auto &x : a) { c.argv.push_back(x.first); c.argv.push_back(x.second); } };
    static const char *mand[] = {"librarypath", "version", "language"}; static const char *lost[] = {"/cfg/none.xml", "/nowhere/x.xml", "none.xml"};
    uint32_t k = K->op(12);
    if (k == 0) { c.what = "unknown argument"; a.insert(a.begin() + K->op(a.size() + 1), {junk_word(), "value"}); flat(); }
    else if (k == 1) { auto x = a[K->op(a.size())]; if (K->op(2)) x.second = K->op(2) ? "other" : x.second; a.insert(a.begin() + K->op(a.size() + 1), x); c.what = "argument " + x.first + " twice"; flat(); }
    else if (k == 2) { c.what = "last argument without value"; flat(); c.argv.pop_back(); }
    else if (k == 3) { size_t i = K->op(a.size()); a[i].second = ""; c.what = "empty value of " + a[i].first; flat(); }
    else if (k == 4) { const char *m = mand[K->op(3)]; drop(m); c.what = string("missing -") + m; flat(); }
    else if (k == 5) { set("librarypath", K->op(2) ? "/src/none" : "none/" + p.name); c.what = "library path that does not exist"; flat(); }
    else if (k == 6) { K->put("/src/file.mo", "within ; end file;"); set("librarypath", K->op(2) ? "/src/file.mo" : "/src/file.mo/"); c.what = "library path that is a file"; flat(); }
    else if (k == 7) { const char *n = K->op(2) ? "tools" : "dependencies"; set(n, lost[K->op(3)]); c.what = string("-") + n + " file that does not exist"; flat(); }
    else if (k == 8) { set("icon", lost[K->op(3)]); c.what = "icon that does not exist"; flat(); }
    else if (k == 9) { K->put("/cfg/elsewhere.ico", "icon"); set("icon", "/cfg/elsewhere.ico"); c.what = "icon outside the library"; c.early = false; flat(); }
    else if (k == 10) { c.what = "no argument"; c.argv = {p.argv[0]}; }
    else { c.help = true; c.what = "help"; flat(); if (K->op(2)) c.argv.resize(1); c.argv.insert(c.argv.begin() + 1 + 2 * K->op((c.argv.size() + 1) / 2), K->op(2) ? "-h" : "--help"); if (K->op(3) == 2) c.argv.push_back("-version"); }
    return c;
}
static Cmd bad_lve() {
    Cmd c; c.role = "lve-cli"; c.img = K->op(3) == 2 ? "lveg" : "lve"; c.argv = {"/opt/lve"}; auto &a = c.argv; string f = "feat" + std::to_string(K->op(5)), lp = K->op(3) == 2 ? "/nolib" : "/base";
    vector<string> cf = {"--checkout-feature", f}, lb = {"--libpath", lp}; auto add = [&](const vector<string> &x) { a.insert(a.end(), x.begin(), x.end()); };
    uint32_t k = K->op(10);
    if (k == 9) { static const char *no[] = {"/nolib", "/src/in.mo", "/base/none", "", "/src/in.mo/", "none"}; c.what = "a library that is no directory"; lb[1] = no[K->op(6)]; bool first = K->op(2); if (first) add(lb); add(cf); if (!first) add(lb); }
    else if (k == 0) { c.what = "unknown option"; vector<vector<string>> v = {cf, lb}; if (K->op(2)) v.pop_back(); v.insert(v.begin() + K->op(v.size() + 1), vector<string>{junk_word()}); for (auto &x : v) add(x); }
    else if (k == 1) { c.what = "unknown option"; a.push_back(junk_word()); }
    else if (k == 2) { c.what = "--checkout-feature twice"; add(cf); if (K->op(2)) add(lb); add({"--checkout-feature", K->op(2) ? f : "other"}); if (K->op(2)) add(lb); }
    else if (k == 3) { c.what = "--libpath twice"; add(lb); if (K->op(2)) add(cf); add({"--libpath", K->op(2) ? lp : "/other"}); if (K->op(2)) add(cf); }
    else if (k == 4) { c.what = "option without value"; if (K->op(2)) { if (K->op(2)) add(lb); a.push_back("--checkout-feature"); } else { if (K->op(2)) add(cf); a.push_back("--libpath"); } }
    else if (k == 5) { c.what = "--checkout-feature without --libpath"; add(cf); }
    else if (k == 6) { const char *o = K->op(2) ? "--version" : "--help"; c.what = string(o) + " with other options"; uint32_t w = K->op(4); if (w & 1) add(cf); if (w & 2) { if (K->op(2)) add(lb); else add({K->op(2) ? "--help" : "--version"}); } a.push_back(o); if (!w || K->op(2)) add(K->op(2) ? cf : lb); }
    else { c.help = true; c.what = k == 7 ? "--version" : "--help"; a.push_back(c.what); }
    return c;
}
static Cmd bad_other(const string &src) {
    Cmd c; uint32_t k = K->op(12); string out = "/out/o" + std::to_string(K->op(2));
    // a name that is empty, or longer than the system allows but with an acceptable beginning: prefix ./././name|rest, cut at 4095
    auto overlong = [](size_t dir, const string &name, const string &rest) { string s; size_t room = 4095 - dir - name.size(); while (s.size() + 2 <= room) s += "./"; if (s.size() < room) s.insert(1, "/"); return s + name + rest; };
    if (k == 10) { c.role = "encrypt_file"; c.img = "enc"; c.what = "an output name that is too long"; bool base = K->op(2); string n = overlong(5, "n.moc", string(1 + (K->op(2) ? K->op(3) : K->op(5000)), 'c')); if (!base) n = "/out/" + n;
        if (K->op(4) == 3) { c.what = "an empty output name"; n = ""; }
        c.argv = {"encrypt_file", src, n}; if (base) c.argv.push_back("/out"); return c; }
    if (k == 11) { c.role = "decrypt_file"; c.img = "dec"; c.what = "an input name that is too long"; K->mkdirs("/e"); bool on = K->faults_on; K->faults_on = false; int64_t df = K->disk_free; K->disk_free = -1; run_prog("encrypt_file", "enc", {"encrypt_file", src, "in.moc", "/e"}); K->faults_on = on; K->disk_free = df;
        c.argv = {"decrypt_file", "/e", overlong(3, "in.moc", string(1 + (K->op(2) ? K->op(3) : K->op(5000)), 'x')), out}; return c; }
    auto many = [&](vector<string> v, int n) { while ((int)v.size() < n) v.push_back("more"); v.resize(n); return v; };
    if (k < 3) { c.role = "encrypt_file"; c.img = "enc";
        if (k == 0) { c.what = "wrong number of arguments"; c.argv = many({"encrypt_file", src, out + ".moc", "/out"}, K->op(2) ? 1 + K->op(2) : 5 + K->op(3)); }
        else { c.what = "input that does not exist"; c.argv = {"encrypt_file", K->op(2) ? "/src/none.mo" : "", k == 1 ? out + ".moc" : "o0.moc"}; if (k == 2) c.argv.push_back("/out"); } }
    else if (k == 3) { c.role = "decrypt_file"; c.img = "dec"; c.what = "too few arguments"; c.argv = many({"decrypt_file", "/out", out}, 1 + K->op(3)); }
    else if (k < 8) { c.role = "obfuscate"; c.img = "obf"; vector<string> v = {"obfuscate", out, src, "KEY", "TOOL_PUBLIC"};
        if (k == 4) { c.what = "wrong number of arguments"; c.argv = many(v, K->op(2) ? 1 + K->op(4) : 6 + K->op(2)); }
        else if (k == 5) { c.what = "unknown key type"; static const char *t[] = {"TOOL", "tool_public", "ENCRYPT", "", "LVE_PUBLIC", "TOOL_PUBLICX"}; v[4] = t[K->op(6)]; c.argv = v; }
        else { c.what = "input that does not exist"; v[2] = "/src/none.pem"; c.argv = v; } }
    else { c.role = "randomize_key"; c.img = "rnd"; c.what = "wrong number of arguments"; c.argv = many({"randomize_key", out, "KEY"}, K->op(2) ? 1 + K->op(2) : 4 + K->op(2)); }
    return c;
}
static Proc *start_cmd(const Cmd &c) { Proc *x = K->spawn(c.role, c.img, c.argv); x->exe = c.argv[0]; x->cwd = c.cwd; K->start(x); return x; }
void c24() {
    Pack p = gen_pack(); alloc_crash_ok(); K->mkdirs("/src"); K->put("/src/in.mo", "model in end in;"); for (int i = 0; i < 2; i++) if (K->op(2)) K->put("/out/o" + std::to_string(i), "kept " + std::to_string(i)); 
    if (K->op(2)) K->put("/out/o0.moc", "kept"); if (K->op(2)) K->put("/out/" + p.name + ".mol", "an older archive"); K->put("/base/package.moc", "x");
    K->licpolicy = [](const string &, const string &, string &) { return true; };
    bool nolve = K->op(8) == 7; INode ld; if (nolve && (ld = K->lookup("/opt/pt/LVE"))) ld->kids.clear();
    bool faulty = K->op(4) == 3; if (faulty) pick_faults({F_OPEN_R, F_READ, F_STAT, F_ALLOC, F_WRITE, F_DISKFULL, F_KILL, F_STALL}, {"packagetool", "lve", "encrypt_file", "obfuscate"}, 2, 16);
    int n = 1 + K->op(4);
    for (int i = 0; i < n; i++) {
        Cmd c; uint32_t w = K->op(6); bool lvelost = false;
        if (w < 3 && nolve && p.enc && K->op(2)) { c.role = "packagetool"; c.img = "pkg"; c.argv = p.argv; c.what = "encryption without an LVE"; lvelost = true; }
        else if (w < 3) c = bad_pack(p); else if (w < 5) c = bad_lve(); else c = bad_other("/src/in.mo");
        // sometimes beside a command line that can be obeyed: that one is not disturbed
        bool beside = !faulty && !nolve && !p.badpkg && K->op(6) == 5; 
        Snap before = snap("/"); size_t l0 = K->lic.size(); Fired fi; Proc *x = start_cmd(c), *y = nullptr;
        if (beside) { K->mkdirs("/out2"); y = start_pack(p, "/out2"); } K->run();
        CHECK(x->done(), "hang", "%s with %s does not end: %s", c.role.c_str(), c.what.c_str(), quiescent_report().c_str());
        int rc = x->sig ? 256 + x->sig : x->code; Snap after = snap("/");
        string said = x->outtext + x->errtext;
        if (c.help) { CHECK(rc == 0 || fi.any(), "help-failed", "%s: %s exits %d", c.role.c_str(), c.what.c_str(), rc); if (rc == 0 && !fi.any()) { CHECK(said.size() > 10, "help-silent", "%s: %s prints nothing", c.role.c_str(), c.what.c_str()); K->probe("help"); } }
        else { CHECK(rc != 0, "accepted", "%s with %s exits 0", c.role.c_str(), c.what.c_str()); if (!fi.any()) CHECK(said.size(), "silent", "%s with %s exits %d without a word", c.role.c_str(), c.what.c_str(), rc); K->probe("refused"); }
        CHECK(K->lic.size() == l0, "licence", "%s with %s used the licence manager", c.role.c_str(), c.what.c_str());
        string own = "/out2"; auto strip = [&](Snap &s) { for (auto it = s.begin(); it != s.end();) { const string &f = it->first; if ((beside && f.compare(0, 5, own) == 0) || ((beside || !c.early || fi.any()) && f.compare(0, 20, "/tmp/TemporaryFolder") == 0)) it = s.erase(it); else ++it; } };
        strip(before); strip(after); string d = snapdiff(before, after);
        CHECK(d.empty(), "changed", "%s with %s: %s", c.role.c_str(), c.what.c_str(), d.c_str());
        if (y) { int r = finish(y); CHECK(r == 0, "disturbed", "packagetool exits %d beside %s with %s: %s", r, c.role.c_str(), c.what.c_str(), tail(y->outtext).c_str()); check_archive(p, "/out2/" + p.name + ".mol", "packagetool beside a refused command"); K->probe("beside"); }
        if (lvelost) K->probe("no-lve");
        if (fi.any()) K->probe("refused-despite-fault");
    }
}
