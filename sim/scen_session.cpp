// Session scenarios: tool library and LVE.
#include "world.h"
#include <algorithm>
#include <errno.h>

static uint64_t hashs(const string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h ^ (h >> 31); }
static void need_end(Proc *t, const char *cls) {
    K->run();
    CHECK(t->done() && !t->sig && t->code == 0, cls, "%s did not finish (sig %d code %d): %s", t->role.c_str(), t->sig, t->code, quiescent_report().c_str());
}
static bool same_dir(string a, const string &b) { for (;;) { if (a.size() > 1 && a.back() == '/') a.pop_back(); else if (a.size() > 2 && a.compare(a.size() - 2, 2, "/.") == 0) a.resize(a.size() - 2); else return a == b; } }
static Proc *last_lve() { Proc *r = nullptr; for (Proc *p : K->procs) if (p->role.compare(0, 3, "lve") == 0) r = p; return r; }
static vector<Proc *> all_lves() { vector<Proc *> v; for (Proc *p : K->procs) if (p->role.compare(0, 3, "lve") == 0) v.push_back(p); return v; }
static void licence_policy(int mode) {    // mode 0: all granted; 1: by name; 2: by name and history
    K->licpolicy = [mode](const string &op, const string &arg, string &why) {
        if (mode == 0) return true;
        uint64_t h = hashs(op + "|" + arg) ^ (K->seed * 0x9E3779B97F4A7C15ull); if (mode == 2) h ^= (K->lic.size() + 1) * 0xC2B2AE3D27D4EB4Full;
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        if (h % 3) return true;
        why = "licence server says no to " + op + " of " + arg.substr(0, 40) + " (" + std::to_string(h % 1000) + ")";
        if (h % 7 == 0) why = "";
        else if (h % 5 == 0) why += string(h % 300, 'r');
        return false;
    };
}
static const char *feats[] = {"F1", "feature_two", "a", "licensed feature with blanks", "F\xc3\xa9", "feature-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789", "F1 ", "x\ny"};
static string hex(const string &d) { string r; char b[4]; for (unsigned char c : d) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
static string gen_feature() { return feats[K->op(8)]; }
static string long_string(size_t n) { string s = "L"; Rng r; r.seed(n * 77 + 5); while (s.size() < n) s += (char)(33 + r.next() % 90); return s; }
static size_t gen_long() { static const size_t ls[] = {1000, 1015, 1023, 1024, 2048, 4096, 8191, 16000, 16370, 16383, 16384, 16385, 20000, 33000, 60000, 65535, 65536, 66000}; return ls[K->op(18)]; }

// the LVE's log, on or off, writable or not, must not change what a session does
static void log_knob() {
    uint32_t c = K->op(6); if (c < 3) return;
    K->mkdirs("/log"); K->defenv["SEMLA_LVE_LOG_FILE"] = c == 5 ? "/nowhere/lve.log" : "/log/lve.log"; K->probe(c == 5 ? "log-unwritable" : "log-on");
}
// ------------------------------------------------------------------ C01
static string toolimg_for() { return K->op(4) == 3 ? "toolB" : "toolA"; }
// A tool may be started with some of its standard descriptors closed (a daemon).
static void close_std() { if (K->op(8) != 7) return; int m = 1 + K->op(7); for (int i = 0; i < 3; i++) if (m >> i & 1) cur->fds.erase(i); K->probe("closed-std"); }
// A library that is worked on while it is in use: other versions of some files (each encrypted for its place), and files that come and go.
// Packages stay as they are: the LVE keeps their key masks for the session.
struct Live { string req; vector<std::pair<string, string>> ver; bool there = true; };      // (plaintext, what is stored)
static vector<Live> make_live(const Lib &l) {
    vector<Live> v; if (K->op(3) != 2) return v;
    for (auto &f : l.f) {
        size_t s = f.rel.rfind('/'); string base = s == string::npos ? f.rel : f.rel.substr(s + 1);
        for (auto &c : base) c = tolower((unsigned char)c);
        if (base == "package.mo" || K->op(2) || v.size() >= 3) continue;
        Live x; x.req = f.req; string raw; K->get(l.root + "/" + f.req, raw); x.ver.push_back({f.data, raw});
        for (int k = 1 + K->op(2); k > 0; k--) {
            string d = gen_content(f.rel + std::to_string(k), false); if (K->op(3) == 2 && f.data.size()) { d = f.data; d[K->op(d.size())] ^= 1 + K->op(255); }
            if (!f.enc) { x.ver.push_back({d, d}); continue; }
            string src = l.src + "/" + f.rel; K->put(src, d); Proc *p;
            int rc = run_prog("encrypt_file", "enc", {"encrypt_file", src, f.req, l.root}, &p);
            CHECK(rc == 0, "encrypt-failed", "encrypt_file of another %s exits %d: %s", f.rel.c_str(), rc, p->errtext.c_str());
            K->get(l.root + "/" + f.req, raw); x.ver.push_back({d, raw}); K->put(src, f.data); K->put(l.root + "/" + f.req, x.ver[0].second);
        }
        v.push_back(x);
    }
    return v;
}
static void drop_file(const string &p) { INode par; string leaf; if (K->lookup(p, &par, &leaf)) par->kids.erase(leaf); }
static void work_on(Lib &l, vector<Live> &live) {
    if (live.empty() || K->op(3) != 2) return;
    Live &x = live[K->op(live.size())]; uint32_t k = K->op(x.ver.size() + 1);
    auto f = std::find_if(l.f.begin(), l.f.end(), [&](const LFile &y) { return y.req == x.req; });
    if (k == x.ver.size()) {
        if (f == l.f.end()) return;
        drop_file(l.root + "/" + x.req); l.missing.push_back(x.req); l.f.erase(f); K->probe("removed"); return;
    }
    if (f == l.f.end()) {
        LFile n; n.req = n.rel = x.req; n.enc = true; n.data = x.ver[k].first; l.f.push_back(n);
        l.missing.erase(std::find(l.missing.begin(), l.missing.end(), x.req)); K->probe("put-back");
    } else { f->data = x.ver[k].first; K->probe("replaced"); }
    drop_file(l.root + "/" + x.req); K->put(l.root + "/" + x.req, x.ver[k].second);
}
static void c01() {
    gen_huge = true;
    log_knob();
    GenOpt g; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    install_lve();
    vector<Live> live = make_live(l);
    Proc *t = K->spawn_fn("tool", [&l, &live]() {
        close_std();
        int sessions = 1 + (K->op(4) == 3);
        for (int k = 0; k < sessions; k++) {
            string root, cwd; spell_dir(l.root, root, cwd); cur->cwd = cwd;
            Session s; Outcome o = s.start("/opt/lve");
            CHECK(o.ok, "session-refused", "LVE start on a healthy system failed: %s", o.err.c_str());
            o = s.version(1, 1); CHECK(o.ok, "session-refused", "version refused: %s", o.err.c_str());
            o = s.lib(root); CHECK(o.ok, "session-refused", "library refused: %s", o.err.c_str());
            int n = many(14); int missing = 0;
            for (int i = 0; i < n; i++) {
                work_on(l, live);
                string rq = request_path(l); const LFile *f = l.find(rq);
                o = s.file(rq);
                if (f) {
                    CHECK(o.ok, "file-refused", "request %d for %s refused: %s", i, rq.c_str(), o.err.c_str());
                    CHECK(o.data == f->data, "content", "request %d for %s: %s", i, rq.c_str(), hexdiff(f->data, o.data).c_str());
                    K->probe("delivered");
                    if (f->data.size() > 16384) K->probe("big"); if (f->data.empty()) K->probe("empty");
                    if (std::count(f->rel.begin(), f->rel.end(), '/') > 1) K->probe("deep");
                } else {
                    CHECK(!o.ok, "missing-delivered", "request %d for missing %s delivered %zu bytes", i, rq.c_str(), o.data.size());
                    CHECK(o.haserr, "no-error", "request %d for missing %s: no error message", i, rq.c_str());
                    K->probe("missing");
                }
                if (K->op(8) == 7) { s.feature("F"); K->probe("mixed"); }
                if (K->op(12) == 11) { s.license("x"); K->probe("mixed"); }
            }
            s.free();
        }
        return 0;
    }, toolimg_for());
    need_end(t, "tool-end");
}
// ------------------------------------------------------------------ C02
static void c02() {
    gen_huge = true;
    log_knob();
    GenOpt g; g.maxfiles = 5; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    install_lve();
    pick_faults({F_OPEN_R, F_READ, F_ALLOC, F_STAT, F_STALL, F_WRITE, F_OPEN_W, F_CRYPTO}, {"lve"}, 4, 160);
    Proc *t = K->spawn_fn("tool", [&l]() {
        cur->sigpipe = 1;
        K->faults_on = K->op(4) == 3;            // sometimes the faults reach the set-up as well
        Session s; Outcome o = open_session(s, l);
        if (!o.ok) { CHECK(K->faults_on, "session-refused", "%s", o.err.c_str()); K->probe("start-failed"); s.free(); return 0; }
        K->faults_on = true;
        Proc *lve = last_lve();
        int n = 1 + K->op(10);
        for (int i = 0; i < n; i++) {
            string rq = request_path(l); const LFile *f = l.find(rq);
            o = s.file(rq);
            if (o.ok) {
                CHECK(f != nullptr, "missing-delivered", "missing file %s delivered", rq.c_str());
                CHECK(o.data == f->data, "content", "request %d for %s under faults: %s", i, rq.c_str(), hexdiff(f->data, o.data).c_str());
            } else { CHECK(o.haserr, "no-error", "request for %s failed without an error", rq.c_str()); if (f) K->probe("failed-by-fault"); }
        }
        K->faults_on = false;
        o = s.license("x");                       // does the LVE still answer?
        bool alive = o.code == 4;
        if (!alive) { K->block("lve end", [lve] { return lve->done(); }); K->probe("lve-ended"); s.free(); return 0; }
        for (auto &f : l.f) {
            o = s.file(f.req);
            CHECK(o.ok, "no-recovery", "faults have stopped but %s is refused: %s", f.req.c_str(), o.err.c_str());
            CHECK(o.data == f.data, "content-after", "%s after the faults: %s", f.req.c_str(), hexdiff(f.data, o.data).c_str());
        }
        K->probe("recovered");
        s.free();
        return 0;
    }, toolimg_for());
    need_end(t, "tool-end");
}
// ------------------------------------------------------------------ C03
static string damage(const string &d, const Lib &l, const map<string, string> &orig, const LFile *&swapped) {
    string o = d; uint32_t n = d.size();
    K->fired[F_DAMAGE]++;
    switch (K->op(10)) {
    case 0: if (n) o[K->op(n)] ^= 1 << K->op(8); break;                              // bit flip
    case 1: o.resize(K->op(n + 1)); break;                                            // truncation
    case 2: o += string(1 + K->op(40), (char)K->op(256)); break;                       // extension
    case 3: { uint32_t a = K->op(n + 1); for (size_t i = a; i < o.size(); i++) o[i] = 0; break; }   // torn write: tail lost
    case 4: { uint32_t a = K->op(n + 1), b = K->op(65); for (size_t i = a; i < o.size() && i < a + b; i++) o[i] = (char)K->op(256); break; }
    case 5: if (n > 32) { uint32_t a = K->op(n / 16), b = K->op(n / 16); for (int i = 0; i < 16; i++) std::swap(o[a * 16 + i], o[b * 16 + i]); } break;   // blocks swapped
    case 6: { uint32_t k = K->op(90); o.resize(std::min<size_t>(k, n)); break; }       // very short
    case 7: case 8: if (n >= 80) {              // the body altered (its last blocks kept, so that it still decrypts) and the end of the file lost, zeroed or rewritten
        uint32_t body = n - 64; for (int k = 1 + K->op(2); k > 0; k--) o[K->op(body)] ^= 1 << K->op(8);
        uint32_t a = n - 32 + (K->op(2) ? K->op(33) : 0); char fill = K->op(3) == 2 ? (char)K->op(256) : 0; for (size_t i = a; i < o.size(); i++) o[i] = fill;
    } else if (n) o[K->op(n)] ^= 1; break;
    default: { auto &f = l.f[K->op(l.f.size())]; auto it = orig.find(f.req); if (it != orig.end()) { o = it->second; swapped = &f; } }    // another (intact) file of the library
    }
    return o;
}
static void c03() {
    gen_huge = true;
    GenOpt g; g.maxfiles = 5; g.minfiles = 2; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    install_lve();
    map<string, string> orig; for (auto &f : l.f) { string d; if (K->get(l.root + "/" + f.req, d)) orig[f.req] = d; }
    map<string, vector<const LFile *>> swapped; map<string, bool> dirty;                     // encrypted files whose bytes changed
    auto strike = [&]() {
        const LFile *f = &l.f[K->op(l.f.size())]; if (!f->enc) return;
        string p = l.root + "/" + f->req, d; if (!K->get(p, d)) return;
        const LFile *sw = nullptr; string o = damage(d, l, orig, sw);
        if (o != d) { if (sw) swapped[f->req].push_back(sw); K->put(p, o); dirty[f->req] = true; K->log("damaged %s", f->req.c_str()); K->probe("damaged"); }
    };
    auto affected = [&](const LFile &f) {        // itself or a package above it was touched
        if (!f.enc) return false;
        if (dirty.count(f.req)) return true;
        string d = f.req; for (;;) { size_t s = d.rfind('/'); string up = s == string::npos ? "" : d.substr(0, s); string pk = (up.size() ? up + "/" : "") + "package.moc"; if (dirty.count(pk)) return true; if (up.empty()) return false; d = up; }
    };
    bool many = K->op(3) == 2;                   // many damaged images of the same files, one after the other, in one session
    if (many) {
        Proc *t = K->spawn_fn("tool", [&]() {
            Session s; Outcome o = open_session(s, l);
            CHECK(o.ok, "session-refused", "%s", o.err.c_str());
            vector<const LFile *> enc, large; for (auto &f : l.f) if (f.enc) (f.data.size() < 5000 ? enc : large).push_back(&f);
            if (large.size() && large[0]->data.size() < 400000 && K->op(2)) { enc = {large[0]}; coarse(); K->probe("damaged-large"); }
            if (enc.empty()) { s.free(); return 0; }
            int n = 5 + K->op(60); if (enc[0]->data.size() >= 5000) n *= 3;
            for (int i = 0; i < n; i++) {
                const LFile &f = *enc[K->op(enc.size())]; string p = l.root + "/" + f.req, d, x; K->get(p, d);
                const LFile *sw = nullptr; x = damage(d, l, orig, sw); if (sw || x == d) continue;
                K->put(p, x);
                o = s.file(f.req); K->probe("damaged");
                if (o.ok) CHECK(o.data == f.data, "altered", "image %d: damaged %s delivered altered: %s", i, f.req.c_str(), hexdiff(f.data, o.data).c_str());
                else { CHECK(o.haserr, "no-error", "no error message"); K->probe("refused"); }
                K->put(p, d);
                if (K->op(8) == 7 || i == n - 1) { o = s.file(f.req); CHECK(o.ok && o.data == f.data, "intact-refused", "%s restored but not delivered: %s", f.req.c_str(), o.err.c_str()); K->probe("intact"); }
            }
            s.free(); return 0;
        }, toolimg_for());
        need_end(t, "tool-end"); return;
    }
    bool early = K->op(3) != 2; int strikes = 1 + K->op(3);
    if (early) for (int i = 0; i < strikes; i++) strike();
    Proc *t = K->spawn_fn("tool", [&]() {
        Session s; Outcome o = open_session(s, l);
        CHECK(o.ok, "session-refused", "%s", o.err.c_str());
        int n = 2 + K->op(10); int at = early ? -1 : (int)K->op(n);
        for (int i = 0; i < n; i++) {
            if (i == at) for (int k = 0; k < strikes; k++) strike();
            const LFile &f = l.f[K->op(l.f.size())];
            o = s.file(f.req);
            // a file that was replaced by another intact one of the same directory may be delivered as that one: names are not authenticated
            bool other = false; if (o.ok && swapped.count(f.req)) for (auto *g : swapped[f.req]) { string a = o.data.substr(0, g->data.size()), b = g->data.substr(0, o.data.size()); if (a == b && o.data.size() + 32 >= g->data.size() && o.data.size() <= g->data.size() + 32) { other = true; K->probe("swapped"); } }
            if (o.ok) { CHECK(other || o.data == f.data, "altered", "request %d: damaged library, %s delivered altered: %s", i, f.req.c_str(), hexdiff(f.data, o.data).c_str()); if (dirty.count(f.req)) K->probe("harmless"); }
            else { CHECK(o.haserr, "no-error", "no error message"); CHECK(affected(f), "intact-refused", "intact file %s refused: %s", f.req.c_str(), o.err.c_str()); K->probe("refused"); }
        }
        for (auto &f : l.f) if (!affected(f)) { o = s.file(f.req); CHECK(o.ok && o.data == f.data, "intact-refused", "intact file %s is not delivered at the end: %s", f.req.c_str(), o.err.c_str()); K->probe("intact"); }
        s.free();
        return 0;
    }, toolimg_for());
    need_end(t, "tool-end");
}
// ------------------------------------------------------------------ raw messages
static string msg(const string &cmd, const string &data) { return cmd + " " + std::to_string(data.size()) + "\n" + data; }
static string not_content(const Lib &l, const string &d) { for (auto &f : l.f) if (f.data.size() >= 24 && d.find(f.data.substr(0, 24)) != string::npos) return f.req; return ""; }
// ------------------------------------------------------------------ C04
static void c04() {
    GenOpt g; g.maxfiles = 3; g.big = false; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    struct Img { const char *base; vector<string> listed; };
    static const Img imgs[] = {{"lve", {"tool0", "tool1", "tool2"}}, {"lveq", {"tool2"}}, {"lver", {"tool1", "big", "tool0", "tool3", "tool4", "tool5"}}};
    static const char *keys[] = {"tool0", "tool1", "tool2", "untrusted", "", "lve", "ec", "untrusted+tool0", "untrusted+tool2", "lve+tool1",   // a+b: key a, with the certificate of b in its chain
        "big", "tool3", "tool4", "tool5", "near0", "mod0"};   // near0: its modulus begins like tool0's; mod0: the modulus of tool0 with another exponent
    licence_policy(0);
    if (K->op(4) == 3) {        // through the tool library
        struct T { const char *img, *key; }; static const T ts[] = {{"toolA", "tool0"}, {"toolB", "tool2"}, {"toolC", "untrusted"}};
        T tt = ts[K->op(3)]; const Img &im = imgs[K->op(3)]; bool listed = std::count(im.listed.begin(), im.listed.end(), tt.key);
        install_lve("/opt/lve", im.base);
        Proc *t = K->spawn_fn("tool", [&l, listed, tt, im]() {
            Session s; Outcome o = open_session(s, l); CHECK(o.ok, "session-refused", "%s", o.err.c_str());
            int n = 1 + K->op(6);
            for (int i = 0; i < n; i++) {
                const LFile &f = l.f[K->op(l.f.size())]; o = s.file(f.req);
                if (listed) { CHECK(o.ok && o.data == f.data, "listed-refused", "listed tool %s refused by %s: %s", tt.key, im.base, o.err.c_str()); K->probe("listed"); }
                else { CHECK(!o.ok, "unlisted-served", "tool with unlisted key %s got %s from %s", tt.key, f.req.c_str(), im.base); CHECK(o.haserr, "no-error", "no error"); K->probe("unlisted"); }
                if (K->op(3) == 2) s.feature("F");
            }
            s.free(); return 0;
        }, tt.img);
        need_end(t, "tool-end"); return;
    }
    // one or two peers at once, each with an LVE of its own
    int npeers = 1 + (K->op(4) == 3); bool faulty = K->op(3) == 2; vector<Proc *> ps;
    K->faults_on = false;
    if (faulty) pick_faults({F_ALLOC, F_OPEN_R, F_READ, F_STAT, F_STALL, F_CLOCKJUMP, F_CRYPTO}, {"lve"}, 3, 120);
    for (int pn = 0; pn < npeers; pn++) {
    const Img &im = imgs[K->op(3)]; string key = keys[K->op(16)]; bool listed = std::count(im.listed.begin(), im.listed.end(), key);
    ps.push_back(K->spawn_fn("peer" + std::to_string(pn), [&l, &im, key, listed, faulty, pn]() {
        cur->sigpipe = 1;
        Raw r; r.spawn_lve(im.base);
        if (K->op(6) == 5) { K->block("start", [] { return true; }); }
        if (!r.connect(key, K->op(4) == 3)) { CHECK(!listed || faulty, "listed-refused", "handshake with listed key %s failed", key.c_str()); K->probe("handshake-refused"); r.close(); return 0; }
        if (pn == 0) K->faults_on = true;
        // the library path the peer names; some are no library when they are named and become one later
        static const char *later[] = {"/later", "/later/deep", "/plainfile"};
        string root = l.root; bool pending = false; uint32_t rk = K->op(8);
        if (rk == 5) root += "/"; else if (rk == 6) root += "/."; else if (rk == 7) { root = string(later[K->op(3)]) + std::to_string(pn); pending = true; if (root.compare(0, 6, "/plain") == 0) K->put(root, "not a directory"); }
        auto appear = [&]() {
            if (!pending) return; pending = false; K->log("library appears at %s", root.c_str()); K->probe("appeared");
            INode par; string leaf; if (K->lookup(root, &par, &leaf) && par) par->kids.erase(leaf);
            K->mkdirs(root); for (auto &f : l.f) { string d; size_t s = f.req.rfind('/'); if (s != string::npos) K->mkdirs(root + "/" + f.req.substr(0, s)); if (K->get(l.root + "/" + f.req, d)) K->put(root + "/" + f.req, d); }
        };
        bool waslate = pending;
        int st = 0;          // 0 version, 1 tools, 2 lic
        int n = 4 + K->op(10); int served = 0;
        for (int i = 0; i < n; i++) {
            string m; const LFile &f = l.f[K->op(l.f.size())]; bool isfile = false;
            if (st == 2 && K->op(2)) appear();
            uint32_t c = K->op(8);
            if (c < 4) { if (st == 0) m = "VERSION 1\n"; else if (st == 1) m = msg("LIB", root); else { m = msg("FILE", f.req); isfile = true; } }
            else if (c == 4) { m = msg("FILE", K->op(2) ? f.req : l.missing[K->op(l.missing.size())]); isfile = true; }
            else if (c == 5) m = msg("FEATURE", "F1");
            else if (c == 6) m = msg("RETURNFEATURE", "F1");
            else switch (K->op(6)) { case 0: m = "BOGUS\n"; break; case 1: m = "VERSION 1\n"; break; case 2: m = "TOOLS\n"; break; case 3: m = msg("LIB", l.root); break; case 4: m = msg("LICENSE", f.req); break; default: m = msg("LIB", f.req); }
            bool eff = isfile && st == 2; bool lib = m.compare(0, 4, "LIB ") == 0;
            if (!r.send(m)) { CHECK(!listed || faulty, "listed-refused", "session of listed key %s lost", key.c_str()); break; }
            Reply o = r.reply();
            if (o.eof) { CHECK(!listed || faulty, "listed-refused", "session of listed key %s ended after %s", key.c_str(), m.substr(0, 20).c_str()); K->probe("ended"); break; }
            CHECK(well_formed(o), "malformed", "malformed reply %s", o.line.c_str());
            if (st == 0 && o.name == "VERSION") st = 1; else if (st == 1 && lib && o.name == "YES") { st = 2; if (m != msg("LIB", root)) { root = m.find(l.root) == string::npos ? "" : l.root; pending = false; waslate = root.empty(); } }
            if (!listed) {
                CHECK(o.name != "FILECONT", "unlisted-served", "peer with key '%s' (not listed in %s) got FILECONT for %s", key.c_str(), im.base, m.c_str());
                string hit = not_content(l, o.data); CHECK(hit.empty(), "unlisted-served", "reply to unlisted key carries content of %s", hit.c_str());
                if (eff) { CHECK(o.name == "ERROR" && (faulty || waslate || o.num == 5), "wrong-error", "unlisted key: file request answered %s %ld instead of ERROR 5", o.name.c_str(), o.num); K->probe(waslate ? "unlisted-late" : "unlisted"); }
            } else if (eff && !faulty && !waslate && m == msg("FILE", f.req)) { CHECK(o.name == "FILECONT" && o.data == f.data, "listed-refused", "listed key %s: FILE answered %s %ld", key.c_str(), o.name.c_str(), o.num); served++; K->probe("listed"); }
        }
        r.close();
        return 0;
    })); }
    for (Proc *t : ps) need_end(t, "peer-end");
}
// ------------------------------------------------------------------ the protocol's reference model
struct Model {
    enum { VER, TOOLS, LIB, LIC } st = VER; string root; bool libok = false; const Lib *l; bool approved = true;
    map<string, bool> held;
};
enum Kind { K_ERR, K_VERSION, K_ANY, K_YES, K_FEATURE, K_RETFEATURE, K_NOTSIMPLE, K_FILE, K_ERR_LIB };
struct Exp { Kind k; string arg; };
struct Msg { string wire; string cmd, data; long num = 0; bool malformed = false; };
static Exp model_step(Model &m, const Msg &x) {
    if (x.malformed) return {K_ERR, ""};
    if (x.cmd == "VERSION" && m.st == Model::VER) { if (x.num < 1) return {K_ERR, ""}; m.st = Model::TOOLS; return {K_VERSION, ""}; }
    if (x.cmd == "TOOLS" && m.st == Model::TOOLS) { m.st = Model::LIB; return {K_ANY, ""}; }
    if (x.cmd == "LIB" && (m.st == Model::TOOLS || m.st == Model::LIB)) { if (x.data.empty()) return {K_ERR_LIB, ""}; m.st = Model::LIC; m.root = x.data; return {K_YES, ""}; }
    if (m.st == Model::LIC) {
        if (x.cmd == "FEATURE") return {K_FEATURE, x.data};
        if (x.cmd == "RETURNFEATURE") return {K_RETFEATURE, x.data};
        if (x.cmd == "LICENSE" || x.cmd == "RETURNLICENSE") return {K_NOTSIMPLE, ""};
        if (x.cmd == "FILE") return {K_FILE, x.data};
    }
    return {K_ERR, ""};
}
static Msg mk_num(const string &c, const string &n) { Msg m; m.cmd = c; m.num = strtol(n.c_str(), 0, 10); m.wire = c + " " + n + "\n"; return m; }
static Msg mk_len(const string &c, const string &d) { Msg m; m.cmd = c; m.data = d; m.wire = msg(c, d); return m; }
static Msg gen_msg(const Model &m, const Lib &l, bool allow_long) {
    uint32_t c = K->op(12);
    static const char *vers[] = {"1", "2", "7", "1000000"};
    auto feature = [&]() { return allow_long && K->op(5) == 4 ? long_string(gen_long()) : gen_feature(); };
    auto file = [&]() -> string { if (allow_long && K->op(10) == 9) return long_string(gen_long()); return request_path(l); };
    // any data a command can carry: a library, a file of one, a feature ...
    auto any = [&]() -> string { switch (K->op(7)) { case 0: return l.root; case 1: case 2: return file(); case 3: return l.root + "/" + file(); case 4: return "/lib2"; case 5: return "/nolib"; default: return feature(); } };
    if (c < 6) {   // a command that is in order
        if (m.st == Model::VER) return mk_num("VERSION", vers[K->op(4)]);
        if (m.st == Model::TOOLS && K->op(3) == 2) { Msg x; x.cmd = "TOOLS"; x.wire = "TOOLS\n"; return x; }
        if (m.st == Model::TOOLS || m.st == Model::LIB) return mk_len("LIB", l.root);
        switch (K->op(6)) { case 0: return mk_len("FEATURE", feature()); case 1: return mk_len("RETURNFEATURE", feature()); case 2: return mk_len(K->op(2) ? "LICENSE" : "RETURNLICENSE", feature()); default: return mk_len("FILE", file()); }
    }
    if (c < 9) {   // a known command, in order or not
        switch (K->op(9)) {
        case 0: return mk_num("VERSION", K->op(2) ? "1" : (K->op(2) ? "0" : "-5"));
        case 1: { Msg x; x.cmd = "TOOLS"; x.wire = "TOOLS\n"; return x; }
        case 2: return mk_len("LIB", K->op(4) == 3 ? "" : any());
        case 3: return mk_len("FEATURE", any()); case 4: return mk_len("RETURNFEATURE", any());
        case 5: return mk_len("LICENSE", any()); case 6: return mk_len("RETURNLICENSE", any());
        default: return mk_len("FILE", any());
        }
    }
    Msg x; x.malformed = true;
    static const char *bads[] = {"BOGUS\n", "VERSION\n", "VERSION x\n", "VERSION 1 2\n", "LIB\n", "LIB -1\n", "FILE -3\nabc", "FEATURE x\n", "YES\n", "NOTSIMPLE\n", "NO 3\nabc", "FILECONT 3\nabc", "ERROR 1 3\nabc", "TOOLLIST 2\nab",
        "TOOLS 1\n", "\n", " \n", "version 1\n", "LIB 4 5\n/lib", "FEATURE\n", "FILE\n", "A B C D E F\n", "\n\n\n", "LICENSE\n", "RETURNFEATURE one\n", "FILES 3\nabc", "FIL 3\nabc", "VERSION \t\n", "FILE \v\n", "FEATURE \t\t\n", "LIB \t\n", "VERSIONS 1\n", "LIBRARY 4\n/lib"};
    x.wire = bads[K->op(sizeof bads / sizeof *bads)];
    return x;
}
static vector<size_t> gen_splits(const Msg &m) {     // the command line goes in one TLS record, the data in any number of records
    vector<size_t> v; size_t nl = m.wire.find('\n'); if (m.malformed || m.data.empty() || nl == string::npos || K->op(4) != 3) return v;
    v.push_back(nl + 1 + (K->op(2) ? 0 : K->op(m.data.size())));
    for (int i = K->op(4); i > 0; i--) v.push_back(1 + K->op(m.data.size() > 5000 ? 5000 : m.data.size()));
    return v;
}
struct LicView { size_t from; };
static bool check_reply(const Model &m, const Msg &x, const Exp &e, const Reply &o, size_t lic0, bool faulty, string &why) {
    auto W = [&](const string &s) { why = "reply to '" + x.wire.substr(0, 40) + "': " + s + " (got " + o.name + " " + std::to_string(o.num) + " '" + o.data.substr(0, 80) + "')"; return false; };
    if (!well_formed(o)) return W("not a well-formed reply: " + o.line.substr(0, 60));
    if (faulty && o.name == "ERROR") return true;
    const LicCall *op = nullptr; bool newfail = false; string refusal;
    for (size_t i = lic0; i < K->lic.size(); i++) { auto &c = K->lic[i]; if (c.op == "new" && !c.ok) newfail = true; if (c.op == "checkout" || c.op == "checkin") op = &c; }
    switch (e.k) {
    case K_ERR: if (o.name != "ERROR") return W("ERROR expected"); if (o.data.empty()) return W("a reason expected"); if (K->lic.size() != lic0) return W("a refused command touched the licence manager"); break;
    case K_ERR_LIB: if (o.name != "ERROR") return W("ERROR expected for an empty library path"); break;
    case K_VERSION: if (o.name != "VERSION" || o.num != 1) return W("VERSION 1 expected"); break;
    case K_ANY: if (o.name == "ERROR") return W("non-error reply expected"); break;
    case K_YES: if (o.name != "YES") return W("YES expected"); break;
    case K_NOTSIMPLE: if (o.name != "NOTSIMPLE") return W("NOTSIMPLE expected"); break;
    case K_FEATURE: case K_RETFEATURE: {
        const char *want = e.k == K_FEATURE ? "checkout" : "checkin";
        if (newfail) { if (o.name != "ERROR") return W("licence manager could not be set up: ERROR expected"); break; }
        if (!op || op->op != want || op->arg != e.arg) return W(string("licence manager was not asked for exactly this ") + want);
        if (op->ok) { if (o.name != "YES") return W("granted: YES expected"); }
        else if (o.name != (e.k == K_FEATURE ? "NO" : "ERROR")) return W("refused: refusal expected");
        break; }
    case K_FILE: {
        if (m.root != m.l->root) {      // another library path: /lib2 holds unencrypted files of the same names
            string want; bool have = K->get(m.root + "/" + e.arg, want);
            if (have && e.arg.size() > 4 && strcasecmp(e.arg.c_str() + e.arg.size() - 4, ".moc") == 0) break;
            if (have ? o.name != "FILECONT" || o.data != want : o.name != "ERROR") return W(have ? "content of the file expected" : "ERROR expected for a missing file");
            break; }
        const LFile *f = m.l->find(e.arg);
        if (f) { if (o.name != "FILECONT" || o.data != f->data) return W("content of the file expected"); }
        else if (o.name != "ERROR") return W("ERROR expected for a missing file");
        break; }
    }
    return true;
}
// ------------------------------------------------------------------ C05
static void c05() {
    log_knob();
    GenOpt g; g.maxfiles = 3; g.big = false; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(K->op(3));
    K->mkdirs("/lib2"); for (auto &f : l.f) if (!f.enc) K->put("/lib2/" + f.req, "other library: " + f.data);
    Proc *t = K->spawn_fn("peer", [&l]() {
        cur->sigpipe = 1;
        Raw r; r.spawn_lve("lve"); CHECK(r.connect("tool0"), "handshake", "handshake failed");
        r.ku = K->op(4) == 3;
        Model m; m.l = &l; int n = 2 + many(28);
        for (int i = 0; i < n; i++) {
            Msg x = gen_msg(m, l, false); size_t lic0 = K->lic.size();
            auto before = m.st;
            Exp e = model_step(m, x);
            CHECK(r.send(x.wire), "session-lost", "session lost before '%s'", x.wire.substr(0, 30).c_str());
            Reply o = r.reply();
            CHECK(!o.eof, "session-lost", "no reply to '%s' (step %d)", x.wire.substr(0, 30).c_str(), i);
            string why; CHECK(check_reply(m, x, e, o, lic0, false, why), e.k == K_ERR ? "out-of-order-obeyed" : "in-order-refused", "step %d, state %d: %s", i, before, why.c_str());
            if (before < Model::LIC) { CHECK(o.name != "FILECONT", "early-file", "file delivered before LIB"); if (x.cmd != "LIB") CHECK(K->lic.size() == lic0, "early-licence", "licence manager used before LIB"); }
            if (e.k == K_ERR) K->probe("refused" + std::to_string(before)); else K->probe("obeyed" + std::to_string(before));
            if (m.st == Model::LIC) K->probe("licensed-state");
            if (e.k == K_FILE && m.l->find(e.arg)) K->probe("file");
        }
        r.close(); return 0;
    });
    need_end(t, "peer-end");
}
// ------------------------------------------------------------------ C06
static void c06() {
    log_knob();
    GenOpt g; g.maxfiles = 4; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(K->op(3));
    bool faulty = K->op(2);
    K->faults_on = false;
    if (faulty) pick_faults({F_ALLOC, F_OPEN_R, F_READ, F_STAT, F_STALL, F_CLOCKJUMP, F_CRYPTO}, {"lve"}, 3, 120);
    Proc *t = K->spawn_fn("peer", [&l, faulty]() {
        cur->sigpipe = 1;
        Raw r; r.spawn_lve("lve"); CHECK(r.connect(K->op(3) ? "tool0" : "tool1"), "handshake", "handshake failed");
        K->faults_on = true; r.ku = K->op(4) == 3;
        Model m; m.l = &l; int n = 1 + many(16);
        for (int i = 0; i < n; i++) {
            Msg x = gen_msg(m, l, true); size_t lic0 = K->lic.size();
            Model before = m; Exp e = model_step(m, x);
            bool sent = r.send(x.wire, gen_splits(x));
            Reply o; if (sent) o = r.reply();
            if (!sent || o.eof) {
                bool fired = false; for (auto &f : K->faults) fired |= f.fired > 0;
                CHECK(fired, "no-reply", "no reply to message %d '%s' (%zu bytes)", i, x.wire.substr(0, 30).c_str(), x.wire.size());
                CHECK(o.line.empty(), "truncated", "truncated reply '%s'", o.line.substr(0, 60).c_str());
                K->block("lve end", [&r] { return r.lve->done(); });
                CHECK(r.lve->sig == 0, "lve-died", "LVE died of signal %d", r.lve->sig); K->probe("lve-ended"); r.close(); return 0;
            }
            string why; CHECK(check_reply(m, x, e, o, lic0, faulty, why), "reply", "message %d: %s", i, why.c_str());
            if (faulty && o.name == "ERROR" && e.k != K_ERR) { if (e.k == K_VERSION || e.k == K_ANY) { if (!(e.k == K_VERSION)) m = before; else m = before; } else if (e.k == K_YES) m = before; K->probe("error-by-fault"); 
                // after a faulty LIB the LVE may have stayed or moved on: find out which by what it accepts
                if (e.k == K_YES) { K->faults_on = false; CHECK(r.send("LICENSE 1\nx"), "no-reply", "lost"); Reply q = r.reply(); CHECK(well_formed(q), "no-reply", "no reply after failed LIB"); if (q.name == "NOTSIMPLE") { CHECK(false, "lib-error-state", "LIB was answered ERROR but obeyed"); } K->faults_on = true; } }
            // nothing more may come
            CHECK(r.in.empty() && SSL_pending(r.ssl) == 0, "extra-data", "extra bytes after the reply to message %d: '%s'", i, r.in.substr(0, 40).c_str());
            if (x.wire.size() > 16384) K->probe("multi-record"); K->probe("replied");
        }
        // a last exchange in a known state shows that no stray reply is queued
        K->faults_on = false;
        CHECK(r.send("BOGUS\n"), "no-reply", "session lost at the end");
        Reply o = r.reply(); CHECK(well_formed(o) && o.name == "ERROR" && o.data.find("BOGUS") != string::npos, "extra-reply", "stray reply %s '%s' before the last one", o.name.c_str(), o.data.substr(0, 60).c_str());
        SSL_shutdown(r.ssl); sim_close(r.w); r.w = -1;
        string rest; for (;;) { char b[512]; int k = SSL_read(r.ssl, b, sizeof b); if (k <= 0) break; rest.append(b, k); }
        CHECK(rest.empty(), "extra-reply", "%zu stray bytes after the last reply: %s", rest.size(), rest.substr(0, 60).c_str());
        SSL_free(r.ssl); r.ssl = nullptr; sim_close(r.r);
        return 0;
    });
    need_end(t, "peer-end");
}
// ------------------------------------------------------------------ C07
static void lves_gone(const char *when) {
    for (Proc *p : all_lves()) {
        CHECK(p->done(), "lve-stays", "%s still runs (%s) although the tool is gone (%s)", p->role.c_str(), p->why.c_str(), when);
        CHECK(!p->sig || p->tag == 77, "lve-killed", "%s was killed by signal %d when the tool went away", p->role.c_str(), p->sig);
    }
    for (auto &e : K->licopen) CHECK(!e.second, "licence-kept", "licence manager %d was never closed although the tool is gone (%s)", e.first, when);
}
static void c07() {
    log_knob();
    GenOpt g; g.maxfiles = 3; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(K->op(3)); install_lve("/opt/lve", K->op(4) == 3 ? "lveg" : "lve");
    uint32_t mode = K->op(4);
    // 0: kill the tool at a seeded point; 1: exit without free at a seeded point; 2: raw peer; 3: free one of two sessions
    if (mode == 0) { uint32_t m = 1u << K->op(10); K->addfault(F_KILL, "tool", K->op(m), 1, 0); }
    if (K->op(5) == 4) K->addfault(F_STALL, "lve", K->op(60), 1000000, 0);
    if (mode == 2) {
        Proc *t = K->spawn_fn("peer", [&l]() {
            cur->sigpipe = 1; Raw r; r.spawn_lve("lve");
            uint32_t cut = K->op(6);
            if (cut == 0) { string junk = "\x16\x03\x01\x02"; sim_write(r.w, junk.data(), K->op(5)); }
            else if (r.connect(K->op(6) == 5 ? "untrusted" : "tool0")) {
                Model m; m.l = &l; int n = K->op(8);
                for (int i = 0; i < n; i++) { Msg x = gen_msg(m, l, true); model_step(m, x); if (!r.send(x.wire)) break; if (i == n - 1 && cut == 1) break; if (r.reply().eof) break; }
                if (cut == 2) { string junk(1 + K->op(30), 'x'); sim_write(r.w, junk.data(), junk.size()); }
                if (cut == 3) { SSL_write(r.ssl, "FILE 5000\nabc", 13); }
                if (cut == 4) SSL_shutdown(r.ssl);
            }
            bool both = K->op(3) != 2;
            if (K->op(2)) { sim_close(r.w); if (both) sim_close(r.r); } else { sim_close(r.r); sim_close(r.w); both = true; }
            if (!both) { char b[4096]; while (sim_read(r.r, b, sizeof b) > 0) {} K->block("lve end", [&r] { return r.lve->done(); }); }
            K->probe("raw-cut" + std::to_string(cut));
            return 0;
        });
        K->run();
        lves_gone("raw peer closed"); CHECK(t->done(), "peer-end", "peer not done");
        return;
    }
    int nt = 1 + (K->op(3) == 2);
    vector<Proc *> ts;
    for (int k = 0; k < nt; k++) ts.push_back(K->spawn_fn(k ? "tool2" : "tool", [&l, mode, k]() {
        Session s[2]; int ns = 1 + (mode == 3 || K->op(3) == 2);
        auto talk = [&](Session &x) { int n = K->op(5); for (int i = 0; i < n; i++) { switch (K->op(4)) { case 0: x.feature(gen_feature()); break; case 1: x.retfeature(gen_feature()); break; default: x.file(request_path(l)); } } };
        for (int i = 0; i < ns; i++) {
            Outcome o = s[i].start("/opt/lve"); if (!o.ok) return 0;
            if (mode == 1 && K->op(5) == 4) { K->probe("exit-early"); sim_close(99); K->proc_exit(0, 0); }
            if (!s[i].version(1, 1).ok) { s[i].free(); return 0; }
            s[i].lib(l.root);
            talk(s[i]);
        }
        if (mode == 1) { K->probe("exit"); K->proc_exit(3, 0); }
        if (mode == 3) {     // one of two sessions is freed: its LVE must end although the other one goes on
            vector<Proc *> before; for (Proc *p : all_lves()) if (p->parent == cur) before.push_back(p);
            int which = K->op(2); s[which].free(); Proc *gone = which < (int)before.size() ? before[which] : nullptr;
            if (gone) { K->block("lve end", [gone] { return gone->done(); }); K->probe("one-of-two"); }
            talk(s[1 - which]);
        }
        for (int i = 0; i < ns; i++) s[i].free();
        K->probe("free");
        return 0;
    }, k ? "toolA" : toolimg_for()));
    K->run();
    for (Proc *t : ts) { if (t->sig) K->probe("killed"); CHECK(t->done(), "tool-hangs", "%s hangs: %s", t->role.c_str(), quiescent_report().c_str()); }
    if (K->licopen.size()) K->probe("had-licence");
    lves_gone(mode == 0 ? "killed" : mode == 1 ? "exit" : "free");
}
// ------------------------------------------------------------------ C08
static bool fake_handshake(SSL *&ssl) {
    ssl = SSL_new(server_ctx()); SSL_set_bio(ssl, BIO_new_fd(0, BIO_NOCLOSE), BIO_new_fd(1, BIO_NOCLOSE)); SSL_set_mode(ssl, SSL_MODE_AUTO_RETRY);
    return SSL_accept(ssl) > 0;
}
// one whole request of the tool, in however many pieces it comes; false at the end of the connection
static bool fake_request(SSL *ssl, string &q) {
    char b[8192]; q.clear();
    for (;;) {
        size_t nl = q.find('\n'), need = 0;
        if (nl != string::npos) { size_t sp = q.find(' '); if (sp < nl && q.compare(0, sp, "VERSION")) need = strtoul(q.c_str() + sp, nullptr, 10); if (q.size() >= nl + 1 + need) return true; }
        int n = SSL_read(ssl, b, sizeof b); if (n <= 0) return false; q.append(b, n);
    }
}
static string g_fakemsg;    // what the fake LVE answered last
static bool g_fakegood, g_fakesync;  // good reply; replies and requests still match one to one
static int fake_lve() {
    cur->sigpipe = 1;
    uint32_t pre = K->op(10);
    K->fired[F_GARBAGE]++;
    if (pre == 0) return K->op(3);                                            // dies at once
    if (pre == 1) { string j(1 + K->op(200), (char)K->op(256)); sim_write(1, j.data(), j.size()); return 0; }
    if (pre == 2) { string j = "HTTP/1.0 400 Bad Request\r\n\r\n"; sim_write(1, j.data(), j.size()); char b[100]; while (sim_read(0, b, sizeof b) > 0) {} return 0; }
    SSL *ssl; if (!fake_handshake(ssl)) return 0;
    if (pre == 3) return 0;                                                   // dies after the handshake
    for (;;) {
        string rq, rp; if (!fake_request(ssl, rq)) break;
        string cmd = rq.substr(0, rq.find_first_of(" \n"));
        string good = cmd == "VERSION" ? "VERSION 1\n" : cmd == "FILE" ? msg("FILECONT", "content of the fake file") : cmd == "LICENSE" || cmd == "RETURNLICENSE" ? "NOTSIMPLE\n" : "YES\n";
        g_fakegood = false; bool end = false, split = false, formed = false;
        switch (K->op(16)) {
        case 0: case 1: case 2: case 3: case 4: rp = good; g_fakegood = true; break;
        case 5: rp = "ERROR 8 5\nsorry"; formed = true; break;
        case 6: rp = string(K->op(3000), 'A' + K->op(26)); if (rp.empty()) rp = "\n"; break;
        case 7: { static const char *w[] = {"TOOLS\n", "NOTSIMPLE\n", "VERSION 99\n", "NO 4\nnope", "TOOLLIST 1\nx", "LIB 4\n/lib", "FILECONT 3\nabc", "YES\n", "FEATURE 1\nx", "ERROR 3 0\n"}; rp = w[K->op(10)]; formed = true; g_fakegood = rp == good; break; }
        case 8: rp = "FILECONT 10\nabc"; end = true; break;                        // short, then death
        case 9: rp = "FILECONT 3\nabcdefghij" + string(K->op(3000), 'z'); break;     // over-long
        case 10: rp = "FILECONT 99999999999999999999\nabc"; end = true; break;
        case 11: rp = "ERROR 8 100\nshort"; end = true; break;
        case 12: { Rng r; r.seed(K->op(1000000)); for (int i = 1 + K->op(400); i > 0; i--) rp += (char)r.next(); break; }
        case 13: rp = good; for (uint32_t i = 1 + K->op(3); i; i--) rp[K->op(rp.size())] = (char)K->op(256); break;
        case 14: rp = "NO 3"; end = K->op(2); break;                               // no line end
        default: end = true; if (K->op(2)) { string j(1 + K->op(60), 'q'); sim_write(1, j.data(), j.size()); } rp = ""; 
        }
        // an LVE that announces more than it has sent and stays alive cannot be told from a slow one: such a reply is followed by the LVE's end
        if (!g_fakegood && !formed) for (size_t i = 0, e = rp.find('\n'); e != string::npos && i < e; i++) if (isdigit((unsigned char)rp[i])) { if (strtod(rp.c_str() + i, nullptr) > rp.size() - e - 1) end = true; }
        g_fakemsg = rp; split = K->op(4) == 3;
        size_t hdr = rp.find('\n'); uint32_t cut = split && rp.size() > 2 ? 1 + K->op(rp.size() - 1) : 0; if (!(g_fakegood || formed) || end || (cut && (hdr == string::npos || cut <= hdr))) g_fakesync = false;
        if (rp.size()) { if (cut) { int k = cut; SSL_write(ssl, rp.data(), k); SSL_write(ssl, rp.data() + k, rp.size() - k); } else SSL_write(ssl, rp.data(), rp.size()); }
        if (end) { if (K->op(2)) SSL_shutdown(ssl); break; }
    }
    return 0;
}
static void c08() {
    log_knob();
    K->harness_exe["fake"] = fake_lve; g_fakesync = true;
    uint32_t mode = K->op(6);
    Lib l; GenOpt g; g.maxfiles = 3; g.big = K->op(2);
    if (mode >= 2 && mode <= 3) { l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l); } else { K->mkdirs("/lib"); l.root = "/lib"; l.missing = {"a.moc"}; }
    string exe = "/opt/lve";
    if (mode == 0) { switch (K->op(5)) { case 0: break; case 1: K->put(exe, "#!SIM lve\n", 0644); break; case 2: K->put(exe, "garbage", 0755); break; case 3: K->mkdirs(exe); break; default: install_lve(); K->addfault(F_EXEC, "child:tool", 0, 1, K->op(2) ? 12 : 26); } }
    else if (mode == 1) { install_lve(); pick_faults({F_PIPE, F_FORK, F_DUP2, F_EXEC, F_ALLOC, F_ACCESS, F_CRYPTO}, {"tool", "child:tool", "lve"}, 2, 20); }
    else if (mode == 2 || mode == 3) { install_lve(); uint32_t m = 1u << K->op(11); K->addfault(F_KILL, "lve", K->op(m), 1, 0); if (mode == 3) K->addfault(F_STALL, "lve", K->op(100), 2000000, 0); }
    else K->put(exe, "#!SIM fn:fake\n", 0755);
    K->faults_on = true;
    licence_policy(1);
    bool two = K->op(4) == 3;
    Proc *t = K->spawn_fn("tool", [&l, mode, exe, two]() {
        Session first; bool havefirst = false; Lib l0 = l;
        if (two && mode >= 2) { havefirst = first.start(exe).ok; }
        Session s; Outcome o = s.start(exe);
        auto failed = [&](const char *call, const Outcome &x) {
            bool oom = false; for (auto &f : K->faults) if (f.k == F_ALLOC && f.fired) oom = true;
            if (!oom) CHECK(x.haserr && (x.err.size() || x.code == 3), "no-error-message", "%s failed without an error message", call);
            K->probe(string("failed-") + call);
        };
        bool fake = mode >= 4;
        if (!o.ok) { failed("start", o); if (havefirst) first.free(); return 0; }
        CHECK(!(mode == 0), "start-ok", "start of an impossible LVE succeeded");
        int n = 1 + K->op(8); bool dead = false; Proc *lve = nullptr; for (Proc *p : K->procs) if (p->parent == cur) lve = p;
        int stage = 0;
        for (int i = 0; i < n; i++) {
            bool wasdead = lve && lve->done();
            g_fakegood = false; g_fakemsg.clear();
            string what; string rq; const LFile *f = nullptr; bool file = false;
            if (stage == 0) { what = "version"; o = s.version(1, 1); }
            else if (stage == 1) { what = "lib"; o = s.lib(l.root); }
            else switch (K->op(6)) {
                case 0: what = "feature"; o = s.feature(gen_feature()); break; case 1: what = "returnfeature"; o = s.retfeature(gen_feature()); break;
                case 2: what = "license"; o = s.license("x"); break; case 3: what = "returnlicense"; o = s.retlicense("x"); break;
                default: what = "file"; file = true; rq = request_path(l); f = l.find(rq); o = s.file(rq); }
            if (o.ok) {
                CHECK(!dead && !wasdead, "success-when-dead", "%s succeeded although the LVE is dead", what.c_str());
                if (fake && g_fakesync) { CHECK(g_fakegood || (what == "file" && g_fakemsg == "FILECONT 3\nabc") || (what.find("license") != string::npos && g_fakemsg == "YES\n"), "false-success", "%s succeeded on the reply '%s'", what.c_str(), g_fakemsg.substr(0, 60).c_str());
                    if (file && g_fakegood) CHECK(o.data == "content of the fake file" || o.data == "abc", "content", "content differs: %s", o.data.substr(0, 60).c_str()); }
                else if (file && !fake) CHECK(f && o.data == f->data, "content", "%s: %s", rq.c_str(), f ? hexdiff(f->data, o.data).c_str() : "missing file");
                K->probe("ok-" + what);
                if (stage < 2) stage++;
            } else {
                failed(what.c_str(), o);
                if (fake && g_fakegood && g_fakesync && what != "license" && what != "returnlicense" && g_fakemsg.compare(0, 9, "NOTSIMPLE")) CHECK(false, "false-failure", "%s failed on the good reply '%s': %s", what.c_str(), g_fakemsg.substr(0, 60).c_str(), o.err.c_str());
                if (lve && lve->done()) dead = true;
                if (stage < 2 && K->op(2)) stage++;
            }
        }
        if (lve && lve->done()) K->probe("lve-dead");
        s.free(); if (havefirst) first.free();
        return 0;
    }, toolimg_for());
    K->run();
    CHECK(t->done(), "tool-hangs", "the tool is left blocked: %s", quiescent_report().c_str());
    CHECK(!t->sig, "tool-killed", "the tool process was killed by signal %d", t->sig);
    CHECK(t->code == 0, "tool-end", "code %d", t->code);
}
// ------------------------------------------------------------------ C09
static void c09() {
    log_knob();
    GenOpt g; g.maxfiles = 2; g.big = false; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(K->op(4) == 0 ? 0 : 1 + K->op(2));
    auto reason = [](const LicCall &c, const map<uint64_t, string> &) { return string(); };
    (void)reason;
    auto *whys = new map<size_t, string>; auto inner = K->licpolicy;
    K->licpolicy = [inner, whys](const string &op, const string &arg, string &why) { bool ok = inner(op, arg, why); if (!ok) (*whys)[K->lic.size()] = why; return ok; };
    if (K->op(4) == 3) {       // command line checkout
        string f = gen_feature(); string lp = K->op(5) == 4 ? "/nolib" : l.root; vector<string> av = {"lve"};
        uint32_t form = K->op(6);
        if (form == 4) av = {"lve", "--checkout-feature"}; else if (form == 5) av = {"lve", "--checkout-feature", f, "--libpath"};
        else if (form == 3) av = {"lve", "--checkout-feature", f};
        else if (K->op(2)) av.insert(av.end(), {"--checkout-feature", f, "--libpath", lp}); else av.insert(av.end(), {"--libpath", lp, "--checkout-feature", f});
        bool faulty = K->op(5) == 4; if (faulty) { K->faults_on = true; pick_faults({F_ALLOC}, {"lve"}, 2, 20); }
        int rc = run_prog("lve-cli", K->op(3) == 2 ? "lveg" : "lve", av);
        bool granted = false; for (auto &c : K->lic) if (c.op == "checkout" && c.ok && c.arg == f) granted = true;
        CHECK((rc == 0) == granted, "cli-exit", "command line checkout exits %d but the licence manager %s %s", rc, granted ? "granted" : "did not grant", f.c_str());
        int asked = 0; bool setup = true; for (auto &c : K->lic) { if (c.op == "new") { setup = c.ok; if (c.ok) CHECK(same_dir(c.arg, lp), "cli-library", "licence manager set up for '%s' instead of '%s'", c.arg.c_str(), lp.c_str()); } else if (c.op == "checkout" && c.arg == "global_feature") { if (!c.ok) setup = false; } else if (c.op == "checkout") asked++; }
        if (form < 3 && !faulty && setup && lp == l.root) CHECK(asked == 1, "cli-asked", "command line checkout of %s asked the licence manager %d times", f.c_str(), asked);
        if (form >= 3) CHECK(asked == 0, "cli-asked", "an incomplete command line asked the licence manager");
        for (auto &c : K->lic) if (c.op == "checkout" && c.arg != "global_feature") CHECK(c.arg == f, "cli-feature", "asked for %s instead of %s", c.arg.c_str(), f.c_str());
        K->probe(granted ? "cli-granted" : "cli-refused"); return;
    }
    if (K->op(8) == 7) {       // the project's own licence manager: grants exactly one feature, whatever was asked before
        auto feat = []() -> string { static const char *f[] = {"test_licensed_feature", "test_licensed_featur", "test_licensed_feature ", "test_licensed_feature2", "Test_licensed_feature", "test_licensed", "est_licensed_feature"}; uint32_t w = K->op(12); return w < 5 ? f[0] : w < 11 ? f[w - 4] : gen_feature(); };
        if (K->op(4) == 3) {
            string f = feat(); int rc = run_prog("lve-cli", "lved", {"lve", "--libpath", l.root, "--checkout-feature", f});
            CHECK((rc == 0) == (f == "test_licensed_feature"), "cli-exit", "the shipped LVE's command line checkout of '%s' exits %d", f.c_str(), rc); K->probe("own-manager-cli"); return;
        }
        install_lve("/opt/lve", "lved");
        Proc *t = K->spawn_fn("tool", [&l, feat]() {
            Session s; Outcome o = open_session(s, l); CHECK(o.ok, "session-refused", "%s", o.err.c_str());
            for (int i = many(12); i > 0; i--) {
                string f = feat(); bool out = K->op(3) != 2; o = out ? s.feature(f) : s.retfeature(f);
                CHECK(o.ok == (!out || f == "test_licensed_feature"), "wrong-answer", "the shipped LVE's answer to %s of '%.60s' is %s", out ? "checkout" : "return", f.c_str(), o.ok ? "yes" : "no");
                if (!o.ok) CHECK(o.code == 3 && o.err.find("Feature not licensed") != string::npos, "reason", "refusal: code %d, '%s'", o.code, o.err.c_str());
                if (K->op(4) == 3) { string p = request_path(l); o = s.file(p); const LFile *w = l.find(p); if (w) CHECK(o.ok && o.data == w->data, "file", "file '%s' not delivered exactly", p.c_str()); }
            }
            K->probe("own-manager"); s.free(); return 0;
        }, "toolA");
        K->run(); CHECK(t->done() && !t->sig, "tool-end", "tool did not finish: %s", quiescent_report().c_str()); return;
    }
    if (K->op(6) == 5) {       // a tool with a protocol implementation of its own: the name of a feature is any string of bytes
        Proc *t = K->spawn_fn("peer", [&l, whys]() {
            cur->sigpipe = 1; Raw r; r.spawn_lve("lve"); CHECK(r.connect("tool0"), "session-refused", "handshake failed");
            r.send("VERSION 1\n"); Reply o = r.reply(); CHECK(o.name == "VERSION", "session-refused", "VERSION answered %s", o.line.c_str());
            r.send(msg("LIB", l.root)); o = r.reply(); CHECK(o.name == "YES", "session-refused", "LIB answered %s", o.line.c_str());
            for (int i = many(10); i > 0; i--) {
                string f; if (K->op(6) != 5) { f = gen_feature(); for (int k = K->op(4); k > 0; k--) { static const char odd[] = {0, 0, '\n', '\r', ' ', (char)0xff, 1, '%'}; f.insert(K->op(f.size() + 1), 1, odd[K->op(8)]); } if (K->op(8) == 7) f += string(1, 0) + gen_feature(); if (K->op(12) == 11) { static const uint32_t at[] = {1000, 16000, 32600, 65400, 65500, 131000}; coarse(); f += long_string(at[K->op(6)] + K->op(400)); K->probe("long-name"); } }
                bool out = K->op(3) != 2; size_t l0 = K->lic.size(); r.send(msg(out ? "FEATURE" : "RETURNFEATURE", f)); o = r.reply();
                CHECK(!o.eof && well_formed(o), "malformed", "reply '%s'", o.line.c_str());
                const LicCall *op = nullptr; bool set = true; int nops = 0; size_t opi = 0;
                for (size_t k = l0; k < K->lic.size(); k++) { auto &c = K->lic[k]; if (c.op == "new") { set = c.ok; if (!c.ok) opi = k; } else { op = &c; opi = k; nops++; } }
                if (!set) { CHECK(o.name == "ERROR" && nops == 0, "init-failure", "licence manager could not be set up, but the answer is %s", o.line.c_str()); continue; }
                CHECK(nops == 1 && op->op == (out ? "checkout" : "checkin") && op->arg == f, "wrong-feature", "the licence manager was asked %d times, last to %s %s instead of %s %s", nops, op ? op->op.c_str() : "", op ? hex(op->arg.substr(0, 40)).c_str() : "", out ? "checkout" : "checkin", hex(f.substr(0, 40)).c_str());
                CHECK((o.name == "YES") == op->ok && (op->ok || o.name == (out ? "NO" : "ERROR")), "wrong-answer", "the licence manager %s but the answer is %s", op->ok ? "granted" : "refused", o.line.c_str());
                string w = (*whys)[opi]; w = w.substr(0, w.find('\0')); if (!op->ok) CHECK(o.data.find(w) != string::npos, "reason", "reason '%s' is not in '%s'", w.c_str(), o.data.c_str());
                K->probe(f.find('\0') != string::npos ? "nul-in-name" : f.empty() ? "empty-name" : "odd-name");
            }
            r.close(); return 0;
        });
        need_end(t, "peer-end"); return;
    }
    install_lve();
    Proc *t = K->spawn_fn("tool", [&l, whys]() {
        Session s; Outcome o = open_session(s, l); CHECK(o.ok, "session-refused", "%s", o.err.c_str());
        int n = many(12); Proc *lve = last_lve();
        for (int i = 0; i < n; i++) {
            size_t l0 = K->lic.size();
            if (K->op(5) == 4) { s.file(request_path(l)); CHECK(K->lic.size() == l0, "stray-licence", "a file request used the licence manager"); continue; }
            if (K->op(8) == 7) { o = K->op(2) ? s.license("x") : s.retlicense("x"); CHECK(!o.ok && K->lic.size() == l0, "stray-licence", "LICENSE used the licence manager"); continue; }
            bool out = K->op(3) != 2; string f = gen_feature(); if (K->op(10) == 9) f = long_string(gen_long());
            o = out ? s.feature(f) : s.retfeature(f);
            const LicCall *op = nullptr, *nw = nullptr; size_t opi = 0; int nops = 0;
            for (size_t k = l0; k < K->lic.size(); k++) { auto &c = K->lic[k]; if (c.op == "new") { nw = &c; opi = k; CHECK(same_dir(c.arg, l.root), "wrong-library", "licence manager set up for '%s' instead of '%s'", c.arg.c_str(), l.root.c_str()); } else { op = &c; opi = k; nops++; } CHECK(c.pid == lve->pid, "wrong-process", "x"); }
            if (nw && !nw->ok) {
                CHECK(!o.ok && !op, "init-failure", "licence manager could not be set up, but the call succeeded");
                CHECK(o.code != 3, "init-failure", "failed set-up reported as refusal");
                CHECK(o.err.find((*whys)[opi]) != string::npos, "reason", "set-up failure: reason '%s' is not in '%s'", (*whys)[opi].c_str(), o.err.c_str()); K->probe("init-failed"); continue;
            }
            CHECK(op && nops == 1, "not-asked", "the licence manager was asked %d times about %.40s", nops, f.c_str());
            CHECK(op->op == (out ? "checkout" : "checkin") && op->arg == f, "wrong-feature", "licence manager was asked to %s '%.60s' instead of %s '%.60s'", op->op.c_str(), op->arg.c_str(), out ? "checkout" : "checkin", f.c_str());
            CHECK(o.ok == op->ok, "wrong-answer", "the licence manager %s but the tool got %s", op->ok ? "granted" : "refused", o.ok ? "yes" : "no");
            if (!op->ok) {
                CHECK(o.err.find((*whys)[opi]) != string::npos, "reason", "reason '%s' is not in '%s'", (*whys)[opi].c_str(), o.err.c_str());
                if (out) CHECK(o.code == 3, "no-licence-code", "refusal has code %d instead of NO_LICENSE", o.code);
                K->probe("refused");
            } else K->probe("granted");
        }
        s.free(); return 0;
    }, toolimg_for());
    need_end(t, "tool-end");
    int opens = 0; for (auto &c : K->lic) if (c.op == "new" && c.ok) opens++;
    CHECK(opens <= 1, "reopened", "licence manager opened %d times in one session", opens);
}
// ------------------------------------------------------------------ C10
static void c10() {
    GenOpt g; g.maxfiles = 3; g.big = false; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    uint32_t pol = K->op(4); string reason = "the global licence is not available " + std::to_string(K->op(1000));
    auto *gcalls = new int(0);
    K->licpolicy = [pol, reason, gcalls](const string &op, const string &arg, string &why) {
        why = reason;
        if (op == "new") return pol != 1;
        if (op == "checkout" && arg == "global_feature") { (*gcalls)++; if (pol == 2) return false; if (pol == 3) return *gcalls > 1; return true; }
        why = "no"; return hashs(arg) % 2 == 0;
    };
    bool allowed = pol == 0; install_lve("/opt/lve", "lveg");
    bool faulty = K->op(4) == 3; 
    if (faulty) { pick_faults({F_ALLOC, F_STALL, F_CRYPTO}, {"lve"}, 2, 40); }
    K->faults_on = false;
    Proc *t = K->spawn_fn("tool", [&l, allowed, reason, faulty, pol]() {
        cur->sigpipe = 1;
        Session s; Outcome o = s.start("/opt/lve"); CHECK(o.ok, "start", "%s", o.err.c_str()); o = s.version(1, 1); CHECK(o.ok, "version", "%s", o.err.c_str());
        if (faulty) K->faults_on = true;
        auto granted = [&]() { for (auto &c : K->lic) if (c.op == "checkout" && c.arg == "global_feature" && c.ok && pol != 3) return true; return false; };
        o = s.lib(l.root);
        if (!faulty) {
            CHECK(o.ok == allowed, "lib-answer", "global licence %s but LIB %s: %s", allowed ? "granted" : "refused", o.ok ? "succeeded" : "failed", o.err.c_str());
            if (!allowed) CHECK(o.err.find(reason) != string::npos, "reason", "LIB error '%s' lacks the manager's reason", o.err.c_str());
        } else if (o.ok) CHECK(granted(), "lib-answer", "LIB succeeded without the global licence");
        bool libok = o.ok;
        int n = many(10);
        for (int i = 0; i < n; i++) {
            uint32_t c = K->op(6);
            if (c == 0) { s.feature(K->op(3) ? gen_feature() : "global_feature"); continue; }
            if (c == 1) { s.retfeature(K->op(3) ? gen_feature() : "other"); continue; }
            if (c == 2) { o = s.lib(l.root); CHECK(!o.ok || faulty, "second-lib", "second LIB obeyed"); continue; }
            string rq = request_path(l); const LFile *f = l.find(rq); o = s.file(rq);
            if (o.ok) { CHECK(allowed && (libok || faulty), "served-without-licence", "%s delivered without the global licence", rq.c_str()); CHECK(f && o.data == f->data, "content", "content of %s differs", rq.c_str()); K->probe("served"); }
            else if (!faulty) {
                if (allowed) CHECK(!f, "refused-with-licence", "%s refused although the global licence was granted: %s", rq.c_str(), o.err.c_str());
                else { CHECK(o.err.find(reason) != string::npos, "reason", "file error '%s' lacks the manager's reason", o.err.c_str()); K->probe("refused"); }
            }
        }
        s.free(); return 0;
    }, toolimg_for());
    need_end(t, "tool-end");
}
// ------------------------------------------------------------------ C11
static string gen_garbage_msg(const Model &m, const Lib &l) {
    static const char *cmds[] = {"VERSION", "TOOLS", "LIB", "FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE", "FILE", "FILECONT", "ERROR", "NO", "YES", "TOOLLIST", "NOTSIMPLE"};
    static const char *nums[] = {"0", "1", "3", "16", "1023", "1024", "16384", "65536", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-1", "-9223372036854775808", "x", "", "1e9", "0x10", "+5", "  7", "99999999999999999999999"};
    string s; Rng r;
    switch (K->op(10)) {
    case 9: {       // an existing file under another, very long spelling of its name
        string req = request_path(l), pad = K->op(2) ? "/" : "./"; size_t max = 4095 - (l.root.size() + 1), tot = K->op(2) ? max - K->op(30) : req.size() + K->op(max - req.size());
        size_t cut = req.rfind('/'); cut = cut == string::npos || K->op(2) ? 0 : cut + 1; string p; while (p.size() + req.size() + pad.size() <= tot) p += pad;
        K->probe("long-spelling"); return msg("FILE", req.substr(0, cut) + p + req.substr(cut)); }
    case 0: case 1: case 2: { s = cmds[K->op(14)]; s += " "; s += nums[K->op(25)]; if (K->op(4) == 3) { s += " "; s += nums[K->op(25)]; } s += "\n"; size_t n = K->op(3) ? K->op(64) : K->op(3000); r.seed(n * 31 + K->op(1000)); for (size_t i = 0; i < n; i++) s += (char)(K->op(16) == 15 ? r.next() : 33 + r.next() % 90); return s; }
    case 3: { size_t n = 1 + K->op(K->op(4) == 3 ? 20000 : 300); r.seed(K->op(1 << 30)); for (size_t i = 0; i < n; i++) s += (char)r.next(); return s; }
    case 4: { s = msg("FILE", K->op(2) ? long_string(gen_long()) : string("a/") + long_string(3000 + K->op(1200)) + "/" + long_string(K->op(1200)) + ".moc"); return s; }
    case 5: { if (K->op(4) == 3) return msg(K->op(2) ? "LIB" : cmds[K->op(14)], string(1 + K->op(3), K->op(2) ? '/' : '\\')); s = cmds[K->op(14)]; return s; }                                     // no line end at all
    case 6: { Msg x = gen_msg(m, l, true); s = x.wire; for (uint32_t i = 1 + K->op(4); i && s.size(); i--) { if (K->op(2)) s[K->op(s.size() > 60 ? 60 : s.size())] = (char)K->op(256); else s.erase(K->op(s.size() > 60 ? 60 : s.size()), 1 + K->op(3)); } if (s.empty()) s = "\n"; return s; }
    case 7: { string p; for (int i = 1 + K->op(600); i > 0; i--) p += K->op(2) ? "d/" : "package.moc/"; p += "package.moc"; return msg("FILE", p); }
    default: { Msg x = gen_msg(m, l, true); return x.wire + (K->op(2) ? string(1 + K->op(2000), 'E') : string()); }   // trailing data
    }
}
static void c11() {
    log_knob();
    K->harness_exe["fake"] = fake_lve;
    if (K->op(3) == 2) {        // tool side: a hostile LVE
        K->mkdirs("/lib"); K->put("/opt/lve", "#!SIM fn:fake\n", 0755);
        Proc *t = K->spawn_fn("tool", [&]() {
            cur->sigpipe = 1;
            Session s; if (!s.start("/opt/lve").ok) { K->probe("tool-nostart"); return 0; }
            int n = 1 + K->op(8);
            for (int i = 0; i < n; i++) switch (K->op(6)) { case 0: s.version(1, 1); break; case 1: s.lib("/lib"); break; case 2: s.feature("F"); break; case 3: s.license("x"); break; case 4: s.retfeature("x"); break; default: s.file("a.moc"); }
            s.free(); K->probe("tool-side"); return 0;
        }, toolimg_for());
        K->run();
        CHECK(t->done(), "tool-hangs", "a tool call does not return: %s", quiescent_report().c_str());
        CHECK(!t->sig, "tool-killed", "signal %d", t->sig);
        return;
    }
    GenOpt g; g.maxfiles = 3; g.big = false; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(K->op(3)); string base = K->op(5) == 4 ? "lveg" : "lve";
    // damaged or odd files in the library are input of the peer's requests as well
    for (int i = K->op(3); i > 0; i--) { string j; Rng r; size_t n = K->op(120); r.seed(n + 3); while (j.size() < n) j += (char)r.next(); K->put(l.root + (K->op(2) ? "/odd.moc" : "/Odd/package.moc"), j); }
    l.missing.push_back("odd.moc"); l.missing.push_back("Odd/package.moc"); l.missing.push_back("Odd/x.moc"); l.missing.push_back(""); l.missing.push_back("/"); l.missing.push_back("."); l.missing.push_back(".moc"); l.missing.push_back("Sub"); l.missing.push_back("/package.moc");
    bool lg = K->op(4) == 3;
    Proc *t = K->spawn_fn("peer", [&l, base, lg]() {
        cur->sigpipe = 1; if (lg) cur->env["SEMLA_LVE_LOG_FILE"] = "/log.txt";
        Raw r; r.spawn_lve(base);
        if (K->op(5) == 4) { string j; Rng x; size_t n = 1 + K->op(800); x.seed(K->op(1 << 30)); while (j.size() < n) j += (char)x.next(); if (K->op(2)) j = string("\x16\x03\x01\x01\x00", 5) + j; sim_write(r.w, j.data(), j.size()); sim_close(r.w); char b[200]; while (sim_read(r.r, b, sizeof b) > 0) {} K->probe("pre-handshake"); K->block("lve end", [&r] { return r.lve->done(); }); return 0; }
        static const char *keys[] = {"tool0", "tool1", "untrusted", ""};
        if (!r.connect(keys[K->op(4) == 3 ? K->op(4) : 0])) { r.close(); return 0; }
        Model m; m.l = &l; int n = 2 + K->op(14); bool unknown = false; cur->fds[r.r].of->pipe->cap = 1 << 24;   // the peer may send without reading
        for (int i = 0; i < n; i++) {
            bool bad = K->op(3) == 2; string w;
            if (bad) w = gen_garbage_msg(m, l); else { Msg x = gen_msg(m, l, true); model_step(m, x); w = x.wire; }
            // an announced length beyond what is sent legitimately leaves the LVE waiting: end the session then
            if (!r.send(w)) break;
            size_t nl = w.find('\n'); size_t have = nl == string::npos ? 0 : w.size() - nl - 1; bool incomplete = false;
            if (nl != string::npos) { char c[40]; unsigned long long len = 0; string line = w.substr(0, nl); const char *sp = strchr(line.c_str(), ' '); if (sp) { const char *sp2 = strchr(sp + 1, ' '); len = strtoull(sp2 ? sp2 : sp, nullptr, 10); if (len > have) incomplete = true; } (void)c; } else incomplete = true;
            if (incomplete || bad) unknown = true;
            if (unknown) {
                Raw *rr = &r; K->block("lve idle", [rr] { return rr->lve->done() || (rr->lve->st == Proc::BLOCK && !rr->lve->why.compare(0, 9, "read pipe")) || (rr->lve->st == Proc::BLOCK && !rr->lve->why.compare(0, 10, "write pipe")); });
                bool any = false; char b[4096]; while (cur->fds[r.r].of->pipe->buf.size()) { if (sim_read(r.r, b, sizeof b) <= 0) break; any = true; }   // ciphertext: the reply stream is not interpreted any more
                K->probe(any ? "bad-answered" : "left-waiting"); if (r.lve->done()) break;
                // what the LVE made of it is unknown: only safety is judged from here on
                continue;
            }
            r.in.clear();
            Reply o = r.reply(); if (o.eof) break;
            K->probe("answered");
        }
        r.close();
        K->block("lve end", [&r] { return r.lve->done(); });
        return 0;
    });
    K->run();
    CHECK(t->done(), "lve-hangs", "LVE neither answers nor ends: %s", quiescent_report().c_str());
    for (Proc *p : all_lves()) CHECK(p->done() && !p->sig, "lve-end", "%s: signal %d", p->role.c_str(), p->sig);
}
// ------------------------------------------------------------------ C17
static string fdlist(Proc *p) { string s = " "; for (auto &e : p->fds) s += std::to_string(e.first) + " "; return s; }
static void c17() {
    GenOpt g; g.maxfiles = 3; g.big = false; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(K->op(3)); install_lve();
    K->put("/opt/noexec", "#!SIM lve\n", 0644); K->put("/opt/garbage", "garbage", 0755); K->harness_exe["fake"] = fake_lve; K->put("/opt/fake", "#!SIM fn:fake\n", 0755);
    bool faulty = K->op(2);
    if (faulty) pick_faults({F_PIPE, F_FORK, F_DUP2, F_EXEC, F_ALLOC, F_ACCESS, F_KILL, F_OPEN_R, F_READ, F_STAT, F_CRYPTO}, {"tool", "child:tool", "lve"}, 3, 60);
    for (auto &f : K->faults) if (f.k == F_KILL && f.role != "lve") f.role = "lve";
    Proc *t = K->spawn_fn("tool", [&l, faulty]() {
        cur->sigpipe = 1;
        if (K->op(3) == 2) { int f[2]; sim_pipe(f); sim_close(f[0]); }            // the host has descriptors of its own
        if (faulty && K->op(4) == 3) cur->maxfd = 6 + K->op(6);                       // descriptor limit
        close_std();
        size_t base = cur->fds.size(); string before = fdlist(cur);
        int rounds = 1 + K->op(5);
        for (int k = 0; k < rounds; k++) {
            Session s[2]; int ns = 1 + (K->op(3) == 2);
            for (int i = 0; i < ns; i++) {
                static const char *ex[] = {"/opt/lve", "/opt/lve", "/opt/lve", "/opt/lve", "/opt/noexec", "/opt/garbage", "/opt/fake", "/opt/absent"};
                string e = ex[K->op(8)]; Outcome o = s[i].start(e);
                if (!o.ok) { K->probe("start-failed"); continue; }
                Proc *lve = nullptr; for (Proc *p : K->procs) if (p->parent == cur && p->exe == e) lve = p;
                if (lve && e == "/opt/lve") for (int fd : lve->exec_fds) CHECK(fd <= 2 || before.find(" " + std::to_string(fd) + " ") != string::npos, "inherited", "the LVE inherited descriptor %d", fd);
                if (e == "/opt/fake") { s[i].version(1, 1); s[i].file("x.moc"); continue; }
                if (!s[i].version(1, 1).ok) continue;
                s[i].lib(l.root);
                for (int n = K->op(5); n > 0; n--) {
                    if (K->op(4) == 3) s[i].feature("F1"); else s[i].file(request_path(l));
                    K->block("lve idle", [lve] { return lve->done() || (lve->st == Proc::BLOCK && lve->why == "read pipe"); });
                    if (lve->done()) break;
                    for (auto &f : lve->fds) CHECK(f.second.of->t != OF::FILE_ && !(f.second.of->t == OF::NUL && f.first > 2), "lve-file-open", "the LVE keeps %s open between requests", f.second.of->path.c_str());
                    CHECK(lve->fds.size() <= 3 + before.size(), "lve-leak", "LVE descriptors: %s", fdlist(lve).c_str());
                    K->probe("idle-checked");
                }
            }
            if (K->op(2)) { s[0].free(); s[1].free(); } else { s[1].free(); s[0].free(); }
            CHECK(cur->fds.size() == base, "descriptor-leak", "round %d: open descriptors %s before: %s", k, fdlist(cur).c_str(), before.c_str());
            K->probe("balanced");
        }
        return 0;
    }, toolimg_for());
    K->run();
    CHECK(t->done() && !t->sig, "tool-end", "tool did not finish: %s", quiescent_report().c_str());
}
// ------------------------------------------------------------------ C18
static void c18() {
    log_knob();
    GenOpt g; g.maxfiles = 3; g.big = K->op(2); int nl = 1 + K->op(2); auto *libs = new vector<Lib>;
    for (int i = 0; i < nl; i++) { libs->push_back(gen_lib(i ? "/lib2" : "/lib", g)); write_sources(libs->back()); encrypt_lib(libs->back()); }
    install_lve(); 
    licence_policy(1);
    auto expect_feature = [](const string &op, const string &f) { string w; return K->licpolicy(op, f, w); };
    if (K->op(4) == 3) {        // one tool, a thread for each session; the sessions are started one after another
        Proc *t = K->spawn_fn("tooly", [libs, nl]() {
            static const uint32_t fine[] = {0, 2, 8, 30, 100, 400}; K->fine = fine[K->op(6)]; K->finegap = 1 + K->op(50);
            cur->sigpipe = 1; int ns = 2 + K->op(2); vector<Session> *v = new vector<Session>(ns); vector<Proc *> th; vector<function<int()>> later; bool late = K->op(2); int vic = K->op(4) == 3 ? (int)K->op(ns) : -1;
            // what each request that fails would get alone
            auto *alone = new map<string, string>; vector<string> misses = {"none.moc", "none/package.mo", "M.none", "another file that is not there"}; bool odd = K->op(4) == 3;
            auto rnd = [](int k, int j) { return string(1 + (k * 7 + j * 3) % 11, (char)('A' + 5 * k + j)); };
            for (int k = 0; odd && k < ns; k++) K->harness_exe["odd" + std::to_string(k)] = [k, rnd]() { cur->sigpipe = 1; SSL *ssl; if (!fake_handshake(ssl)) return 0; for (int j = 0;; j++) { string q; if (!fake_request(ssl, q)) break; string rp = j < 3 ? "ERROR 8 " + std::to_string(rnd(k, j).size()) + "\n" + rnd(k, j) : "BOGUS-" + rnd(k, j) + " 1\n"; SSL_write(ssl, rp.data(), rp.size()); } return 0; };
            if (odd) for (int k = 0; k < ns; k++) K->put("/opt/odd" + std::to_string(k), "#!SIM fn:odd" + std::to_string(k) + "\n", 0755);
            auto oddtalk = [rnd, alone](Session &s, int k, bool solo) { for (int j = 0; j < 5; j++) { Outcome o = j == 1 ? s.feature("x") : j == 2 ? s.file("y") : s.version(1, 1); CHECK(!o.ok, "influenced", "thread %d: an ERROR reply became success", k); string key = "odd" + std::to_string(k) + "/" + std::to_string(j); if (solo) (*alone)[key] = o.err; else { CHECK(o.err == (*alone)[key], "influenced", "thread %d: the failure '%s' became '%s'", k, (*alone)[key].c_str(), o.err.c_str()); K->probe("thread-error"); } } };
            { uint32_t keep = K->fine; K->fine = 0; Session s; Outcome o = s.start("/opt/lve"); CHECK(o.ok, "influenced", "start: %s", o.err.c_str());
              (*alone)["version"] = s.version(0, 0).err; s.version(1, 1); s.lib((*libs)[0].root); for (auto &m : misses) if (!(*libs)[0].find(m)) (*alone)[m] = s.file(m).err; s.free();
              if (odd) for (int k = 0; k < ns; k++) { Session t; o = t.start("/opt/odd" + std::to_string(k)); CHECK(o.ok, "influenced", "start: %s", o.err.c_str()); oddtalk(t, k, true); t.free(); }
              K->fine = keep; }
            auto talk = [libs, nl, alone, misses](Session &s, int k, Proc *lve, bool dead) {
                const Lib &l = (*libs)[K->op(nl)]; Outcome o; auto bad = [&](const char *w) { CHECK(dead, "influenced", "thread %d: %s failed: %s", k, w, o.err.c_str()); };
                for (int i = K->op(3); i > 0; i--) { o = s.version(0, 0); CHECK(!o.ok, "influenced", "thread %d: a refused version became accepted", k); if (!dead) CHECK(o.err == (*alone)["version"], "influenced", "thread %d: the failure '%s' became '%s'", k, (*alone)["version"].c_str(), o.err.c_str()); }
                o = s.version(1, 1); if (!o.ok) { bad("version"); return; }
                o = s.lib(l.root); if (!o.ok) { bad("lib"); return; }
                for (int i = 1 + K->op(8); i > 0; i--) {
                    if (K->op(8) == 7 && &l == &(*libs)[0]) { string m = misses[K->op(4)]; if (alone->count(m)) { o = s.file(m); CHECK(!o.ok, "influenced", "missing file delivered"); if (!dead) CHECK(o.err == (*alone)[m], "influenced", "thread %d: the failure '%s' became '%s'", k, (*alone)[m].c_str(), o.err.c_str()); continue; } }
                    if (K->op(4) == 3) { string f = gen_feature(); bool out = K->op(2); size_t l0 = K->lic.size(); o = out ? s.feature(f) : s.retfeature(f); if (dead) { if (o.ok) continue; return; }
                        int ops = 0; bool ok = false, initfail = false; for (size_t q = l0; q < K->lic.size(); q++) { auto &c = K->lic[q]; if (c.pid != lve->pid) continue; if (c.op == "new" && !c.ok) initfail = true; if (c.op != "new") { ops++; ok = c.ok; CHECK(c.arg == f, "influenced", "thread %d: licence request for '%s' became '%s'", k, f.c_str(), c.arg.c_str()); } }
                        CHECK(initfail ? !o.ok : (ops == 1 && o.ok == ok), "influenced", "thread %d: licence answer does not match the manager's for this session", k); continue; }
                    string rq = request_path(l); const LFile *f = l.find(rq); o = s.file(rq);
                    if (!f) { CHECK(!o.ok, "influenced", "missing file delivered"); if (!dead) CHECK(o.err.size(), "influenced", "no reason"); continue; }
                    if (!o.ok) { bad(rq.c_str()); return; }
                    CHECK(o.data == f->data, "influenced", "thread %d: %s from %s: %s", k, rq.c_str(), l.root.c_str(), hexdiff(f->data, o.data).c_str()); K->probe("thread-file");
                }
            };
            for (int k = 0; k < ns; k++) {
                std::set<Proc *> old; for (Proc *p : K->procs) if (p->parent == cur) old.insert(p);
                bool isodd = odd && K->op(4) != 3;
                Outcome o = (*v)[k].start(isodd ? "/opt/odd" + std::to_string(k) : "/opt/lve"); CHECK(o.ok, "influenced", "start: %s", o.err.c_str()); Proc *lve = nullptr; for (Proc *p : K->procs) if (p->parent == cur && !old.count(p)) lve = p;
                if (isodd) { auto body = [v, k, oddtalk]() { cur->sigpipe = 1; oddtalk((*v)[k], k, false); return 0; }; if (late) later.push_back(body); else th.push_back(K->spawn_thread("thr" + std::to_string(k), body)); continue; }
                bool self = K->op(2), dead = k == vic; if (dead) K->addfault(F_KILL, lve->role, K->op(1u << K->op(9)), 1, 0);
                auto body = [v, k, talk, lve, self, dead]() { cur->sigpipe = 1; talk((*v)[k], k, lve, dead); if (self) (*v)[k].free(); return 0; };
                if (late) later.push_back(body); else th.push_back(K->spawn_thread("thr" + std::to_string(k), body));
            }
            for (auto &b : later) th.push_back(K->spawn_thread("thr" + std::to_string(th.size()), b));
            K->block("threads", [&th] { for (Proc *p : th) if (!p->done()) return false; return true; });
            for (auto &s : *v) s.free();
            K->fine = 0; if (K->fineswitch) K->probe("preempted-in-code");
            K->probe("threads"); return 0;
        }, "toolA");
        K->run(); CHECK(t->done() && !t->sig, "blocked", "threads of a tool block each other: %s", quiescent_report().c_str()); return;
    }
    int nt = 1 + K->op(2); vector<Proc *> ts; auto *doomed = new std::set<int>;
    bool kill_lve = K->op(3) == 2, kill_tool = nt == 2 && K->op(4) == 3;
    if (kill_tool) { K->addfault(F_KILL, "toolx", K->op(1u << K->op(11)), 1, 0); }
    if (K->op(3) == 2) K->addfault(F_STALL, "lve", K->op(200), 5000000, 0);
    for (int k = 0; k < nt; k++) ts.push_back(K->spawn_fn(k ? "toolx" : "tooly", [libs, nl, expect_feature, kill_lve, k]() {
        cur->sigpipe = 1;
        struct S { Session s; const Lib *l; int stage = 0; bool dead = false; Proc *lve = nullptr; };
        int ns = 1 + K->op(2) + (k == 0); if (ns > 2) ns = 2; vector<S> v(ns);
        for (auto &x : v) x.l = &(*libs)[K->op(nl)];
        int n = ns * (4 + K->op(10)); int killat = kill_lve && k == 0 ? (int)K->op(n) : -1;
        for (int i = 0; i < n; i++) {
            S &x = v[K->op(ns)]; Outcome o;
            if (i == killat) { S &y = v[K->op(ns)]; if (y.lve && !y.lve->done()) { y.lve->tag = 77; K->kill(y.lve, 9); K->fired[F_KILL]++; y.dead = true; K->probe("lve-killed"); } }
            auto bad = [&](const char *what) { CHECK(x.dead, "influenced", "session %ld of %s: %s failed although only other sessions were disturbed: %s", (long)(&x - &v[0]), cur->role.c_str(), what, o.err.c_str()); };
            switch (x.stage) {
            case 0: { std::set<Proc *> old; for (Proc *p : K->procs) if (p->parent == cur) old.insert(p); o = x.s.start("/opt/lve"); if (!o.ok) bad("start"); else { for (Proc *p : K->procs) if (p->parent == cur && !old.count(p)) x.lve = p; x.stage = 1; } break; }
            case 1: o = x.s.version(1, 1); if (!o.ok) bad("version"); else x.stage = 2; break;
            case 2: o = x.s.lib(x.l->root); if (!o.ok) bad("lib"); else x.stage = 3; break;
            case 3: {
                uint32_t c = K->op(8);
                if (c == 7 && K->op(2)) { x.s.free(); x.stage = 0; x.dead = false; x.lve = nullptr; K->probe("reopened"); break; }
                if (c >= 5) { string f = gen_feature(); bool out = K->op(2); size_t l0 = K->lic.size(); o = out ? x.s.feature(f) : x.s.retfeature(f);
                    if (x.dead) { CHECK(!o.ok, "dead-ok", "ok from a dead session"); break; }
                    int ops = 0; bool ok = false, initfail = false; for (size_t q = l0; q < K->lic.size(); q++) { auto &c = K->lic[q]; if (c.pid != x.lve->pid) continue; if (c.op == "new" && !c.ok) initfail = true; if (c.op != "new") { ops++; ok = c.ok; CHECK(c.arg == f, "influenced", "licence request for '%s' became '%s'", f.c_str(), c.arg.c_str()); } }
                    CHECK(initfail ? !o.ok : (ops == 1 && o.ok == ok), "influenced", "licence answer does not match the manager's for this session"); K->probe("feature"); break; }
                string rq = request_path(*x.l); const LFile *f = x.l->find(rq); o = x.s.file(rq);
                if (x.dead) { CHECK(!o.ok, "dead-ok", "file from a dead session"); break; }
                if (f) { if (!o.ok) bad(rq.c_str()); else CHECK(o.data == f->data, "influenced", "%s from %s: %s", rq.c_str(), x.l->root.c_str(), hexdiff(f->data, o.data).c_str()); K->probe("file"); }
                else CHECK(!o.ok, "influenced", "missing file delivered"); }
            }
        }
        int open = 0; for (auto &x : v) if (x.stage) open++;
        if (open > 1) K->probe("concurrent");
        for (auto &x : v) x.s.free();
        return 0;
    }, "toolA"));
    K->run();
    for (Proc *t : ts) CHECK(t->done() && (!t->sig || (t->sig == 9 && kill_tool)), "blocked", "%s blocked or killed (%d) by what happened in another session: %s", t->role.c_str(), t->sig, quiescent_report().c_str());
    if (kill_tool && ts[1]->sig) K->probe("tool-killed");
}
// ------------------------------------------------------------------ C20
static void c20() {
    K->mkdirs("/lib"); Lib l; l.root = "/lib"; l.missing = {"x.moc"}; LFile lf; lf.rel = "a.mo"; lf.req = "a.moc"; lf.enc = true; lf.data = "model a end a;"; l.f.push_back(lf); l.src = "/src/lib"; write_sources(l); encrypt_lib(l);
    licence_policy(0);
    static const int vs[] = {1, 0, 2, 3, -1, 7, 100, 2147483647, -2147483647 - 1, 10, 255, 256, 257, 32767, 65535, 65536, 65537, -255, -65535, 16777217};
    auto ver = []() -> int { uint32_t k = K->op(8); if (k < 3) return vs[K->op(4)]; if (k < 6) return vs[K->op(20)]; if (k == 6) return (int)K->op(40) - 5; return (int)(K->op(1u << 31) * 2u + K->op(2)); };
    auto wver = [ver]() -> long { static const long ws[] = {4294967296, 4294967297, 4294967295, -4294967295, 9223372036854775807, -9223372036854775807 - 1, 8589934593, 2147483648}; return K->op(6) == 5 ? ws[K->op(8)] : (long)ver(); };
    uint32_t mode = K->op(3);
    if (mode == 0) {            // real LVE (lowest 1, answers 1), raw client of any version
        Proc *t = K->spawn_fn("peer", [&l, wver]() {
            cur->sigpipe = 1; Raw r; r.spawn_lve(K->op(4) == 3 ? "lveq" : "lve"); CHECK(r.connect("tool2"), "handshake", "handshake failed");
            bool done = false; int n = 1 + K->op(6);
            for (int i = 0; i < n && !done; i++) {
                if (K->op(3) == 2) { Msg x = K->op(2) ? mk_len("LIB", l.root) : K->op(2) ? mk_len("FILE", "a.moc") : mk_len("FEATURE", "F"); size_t l0 = K->lic.size(); CHECK(r.send(x.wire), "lost", "lost"); Reply o = r.reply(); CHECK(well_formed(o) && o.name == "ERROR", "obeyed-before-version", "%s obeyed before a version was agreed: %s", x.cmd.c_str(), o.name.c_str()); CHECK(K->lic.size() == l0, "obeyed-before-version", "licence"); K->probe("early-refused"); }
                long v = wver(); CHECK(r.send("VERSION " + std::to_string(v) + "\n"), "lost", "session lost");
                Reply o = r.reply(); CHECK(well_formed(o), "lost", "no reply to VERSION %ld", v);
                if (v >= 1) { CHECK(o.name == "VERSION" && o.num == 1, "refused", "VERSION %ld answered %s %ld", v, o.name.c_str(), o.num); done = true; K->probe("agreed"); }
                else { CHECK(o.name == "ERROR" && o.num == 2, "too-low-accepted", "VERSION %ld answered %s %ld instead of ERROR 2", v, o.name.c_str(), o.num); K->probe("too-low"); }
            }
            if (!done) { CHECK(r.send("VERSION 1\n"), "lost", "lost"); Reply o = r.reply(); CHECK(o.name == "VERSION" && o.num == 1, "no-retry", "after refused versions VERSION 1 is answered %s", o.name.c_str()); K->probe("retried"); }
            CHECK(r.send(msg("LIB", l.root)) && r.reply().name == "YES", "after", "LIB refused after the version was agreed");
            CHECK(r.send(msg("FILE", "a.moc")), "lost", "lost"); Reply o = r.reply(); CHECK(o.name == "FILECONT" && o.data == l.f[0].data, "after", "FILE refused after the version was agreed");
            r.close(); return 0;
        });
        need_end(t, "peer-end"); return;
    }
    // the tool library against an LVE that answers any version (fake) or the real one
    bool real = mode == 1; auto *answered = new long(0); auto *asked = new string; auto *low = new bool(false);
    K->harness_exe["verlve"] = [answered, asked, low, wver]() {
        cur->sigpipe = 1; SSL *ssl; if (!fake_handshake(ssl)) return 0;
        for (;;) { string rp, q; if (!fake_request(ssl, q)) break; *asked = q; *low = K->op(4) == 3;
            if (asked->compare(0, 7, "VERSION")) rp = "ERROR 1 3\nbad"; else if (*low) rp = "ERROR 2 7\ntoo low"; else { *answered = wver(); rp = "VERSION " + std::to_string(*answered) + "\n"; }
            SSL_write(ssl, rp.data(), rp.size()); }
        return 0; };
    if (real) install_lve(); else K->put("/opt/lve", "#!SIM fn:verlve\n", 0755);
    Proc *t = K->spawn_fn("tool", [&l, real, answered, asked, low, ver]() {
        Session s; Outcome o = s.start("/opt/lve"); CHECK(o.ok, "start", "%s", o.err.c_str());
        int n = 1 + K->op(5); bool done = false;
        for (int i = 0; i < n && !done; i++) {
            int lo = ver(), hi = ver(); if (K->op(4) && lo > hi) std::swap(lo, hi);
            o = s.version(lo, hi); bool want;
            if (real) { want = hi >= 1 && lo <= 1 && 1 <= hi; done = hi >= 1; }
            else { CHECK(*asked == "VERSION " + std::to_string(hi) + "\n", "asked", "the tool offered '%s' instead of its highest version %d", asked->substr(0, 30).c_str(), hi); want = !*low && *answered >= lo && *answered <= hi; }
            CHECK(o.ok == want, "negotiation", "tool range %d..%d, LVE %s %ld: result %d", lo, hi, real ? "answers" : "answered", real ? 1L : *answered, o.ok);
            if (!o.ok) CHECK(o.haserr && o.err.size(), "no-error", "refused version without an error message");
            K->probe(o.ok ? "agreed" : "refused");
        }
        s.free(); return 0;
    }, "toolA");
    need_end(t, "tool-end");
}

// ------------------------------------------------------------------ C22
// The same round of requests again and again: memory may grow at first (buffers, caches, the error queue) but must stop growing.
struct Growth {
    vector<long> img, ossl;
    void add(Proc *p) { img.push_back(p->nalloc); ossl.push_back(p->nossl); }
    bool grows(const vector<long> &v) const { size_t n = v.size(); if (n < 7) return false; for (size_t i = n - 6; i < n; i++) if (v[i] <= v[i - 1]) return false; return true; }
    string text() const { string s; for (size_t i = 0; i < img.size(); i++) s += std::to_string(img[i]) + "+" + std::to_string(ossl[i]) + " "; return s; }
    bool bad() const { return grows(img) || grows(ossl); }
};
static void c22() {
    log_knob();
    GenOpt g; g.maxfiles = 3; g.big = K->op(3) == 2; Lib l = gen_lib("/lib", g); write_sources(l); encrypt_lib(l);
    licence_policy(1 + K->op(2)); K->mkdirs("/lib2"); 
    if (K->op(4) == 3 && l.f.size()) { const LFile &f = l.f[K->op(l.f.size())]; if (f.enc) { string d; K->get(l.root + "/" + f.req, d); const LFile *sw = nullptr; K->put(l.root + "/" + f.req, damage(d, l, {}, sw)); } }
    uint32_t mode = K->op(4); const int R = 26;       // the error queue of OpenSSL holds 16 entries
    bool faulty = K->op(3) == 2;                       // the same call fails in every round
    auto again = [faulty]() { if (faulty) for (auto &f : K->faults) f.seen = 0; };
    K->faults_on = false;
    if (faulty && mode == 3) pick_faults({F_CRYPTO, F_CRYPTO, F_PIPE, F_FORK, F_DUP2, F_EXEC, F_ACCESS, F_ALLOC}, {"tool", "tool", "child:tool"}, 1, 24);
    else if (faulty) pick_faults({F_ALLOC, F_ALLOC, F_OPEN_R, F_READ, F_STAT, F_CRYPTO}, {mode == 1 && K->op(2) ? "tool" : "lve"}, 1, 24);
    auto idle = [](Proc *lve) { K->block("lve idle", [lve] { return lve->done() || (lve->st == Proc::BLOCK && (lve->why == "read pipe" || lve->why == "write pipe")); }); };
    if (mode == 0) {           // requests of any kind by a raw peer; the LVE's memory
        Proc *t = K->spawn_fn("peer", [&l, idle, again]() {
            cur->sigpipe = 1; static const char *im[] = {"lve", "lve", "lve", "lveg", "lveq"}; static const char *ks[] = {"tool0", "tool0", "tool0", "untrusted"};
            Raw r; r.spawn_lve(im[K->op(5)]); if (!r.connect(ks[K->op(4)])) { r.close(); return 0; }
            Model m; m.l = &l; bool up = K->op(5) != 4; if (up) { m.st = Model::LIC; m.root = l.root; if (!r.send("VERSION 1\n")) return 0; r.reply(); if (!r.send(msg("LIB", l.root))) return 0; r.reply(); }
            vector<Msg> round; for (int n = 1 + K->op(4); n > 0; n--) round.push_back(gen_msg(m, l, true));
            Growth gr; bool lost = false;
            for (int k = 0; k < R && !lost; k++) {
                again(); K->faults_on = true;
                for (auto &x : round) { if (!r.send(x.wire)) { lost = true; break; } Reply o = r.reply(); if (o.eof) { lost = true; break; } }
                idle(r.lve); if (r.lve->done() || r.lve->why == "write pipe") lost = true; gr.add(r.lve);
            }
            if (!lost) { string w; for (auto &x : round) w += x.wire.substr(0, 30) + "|"; CHECK(!gr.bad(), "lve-grows", "the LVE's memory grows with every round of '%s': blocks held %s", w.c_str(), gr.text().c_str()); K->probe("lve-rounds"); }
            r.close(); return 0;
        });
        need_end(t, "peer-end"); return;
    }
    auto *answers = new map<string, string>;
    static const char *w[] = {"YES\n", "NO 4\nnope", "NOTSIMPLE\n", "FILECONT 3\nabc", "FILECONT 0\n", "ERROR 8 5\nsorry", "ERROR 3 0\n", "TOOLS\n", "VERSION 99\n", "TOOLLIST 1\nx", "LIB 4\n/lib", "BOGUS\n", "FEATURE 1\nx", "\n", "VERSION 1\n",
        "NO -4\n", "ERROR 8 -1\n", "FILECONT -7\n", "NO x\n", "ERROR 8\n", "YES 3\nabc", "VERSION -1\n", "ERROR -8 2\nno"};
    for (const char *c : {"VERSION", "LIB", "FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE", "FILE"}) (*answers)[c] = w[K->op(23)];
    K->harness_exe["odd"] = [answers]() { cur->sigpipe = 1; SSL *ssl; if (!fake_handshake(ssl)) return 0; for (;;) { string q; if (!fake_request(ssl, q)) break; string c = q.substr(0, q.find_first_of(" \n")); if (!answers->count(c)) continue; string rp = (*answers)[c]; SSL_write(ssl, rp.data(), rp.size()); } return 0; };
    if (mode == 3) {           // whole sessions, complete or failed at their start; the tool's memory
        install_lve(); K->put("/opt/odd", "#!SIM fn:odd\n", 0755); K->put("/opt/noexec", "#!SIM lve\n", 0644); K->put("/opt/garbage", "garbage", 0755);
        Proc *t = K->spawn_fn("tool", [&l, again]() {
            static const char *ex[] = {"/opt/lve", "/opt/lve", "/opt/lve", "/opt/noexec", "/opt/garbage", "/opt/absent", "/opt/odd", "/opt/odd"}; string e = ex[K->op(8)]; string rq = request_path(l), ft = gen_feature(); uint32_t what = K->op(16), kill = K->op(4), order = K->op(2), two = K->op(3); Growth gt;
            for (int k = 0; k < 12; k++) {
                again(); K->faults_on = true;
                Session s[2]; for (int i = 0; i < (two == 2 ? 2 : 1); i++) {
                    if (!s[i].start(e).ok) continue;
                    if (kill == 3) { Proc *lve = nullptr; for (Proc *p : K->procs) if (p->parent == cur) lve = p; if (lve) K->kill(lve, 9); K->fired[F_KILL]++; }
                    if (what & 1) s[i].version(1, 1); if (what & 2) s[i].lib(l.root); if (what & 4) s[i].file(rq); if (what & 8) s[i].feature(ft); }
                s[order].free(); s[!order].free(); gt.add(cur);
            }
            CHECK(!gt.bad(), "sessions-grow", "the tool's memory grows with every session (%s): blocks held %s", e.c_str(), gt.text().c_str());
            K->probe(e == "/opt/lve" ? "sessions" : e == "/opt/odd" ? "odd-sessions" : "failed-starts"); return 0;
        }, toolimg_for());
        need_end(t, "tool-end"); return;
    }
    // calls of the tool library: against the real LVE, or one whose replies it must refuse
    bool real = mode == 1; if (real) install_lve(); else K->put("/opt/lve", "#!SIM fn:odd\n", 0755);
    Proc *t = K->spawn_fn("tool", [&l, real, R, idle, again]() {
        Session s; if (!s.start("/opt/lve").ok) return 0; Proc *lve = nullptr; for (Proc *p : K->procs) if (p->parent == cur) lve = p;
        if (real) { if (!s.version(1, 1).ok || !s.lib(l.root).ok) return 0; }
        struct Q { int c; string a; }; vector<Q> round; for (int n = 1 + K->op(4); n > 0; n--) { int c = K->op(9); round.push_back({c, c < 2 ? gen_feature() : c < 4 ? "x" : c == 7 ? l.root : request_path(l)}); }
        Growth gt, gl; bool lost = false;
        for (int k = 0; k < R && !lost; k++) {
            again(); K->faults_on = true;
            for (auto &q : round) switch (q.c) { case 0: s.feature(q.a); break; case 1: s.retfeature(q.a); break; case 2: s.license(q.a); break; case 3: s.retlicense(q.a); break; case 7: s.lib(q.a); break; case 8: s.version(1, 1); break; default: s.file(q.a); }
            if (lve) { idle(lve); if (lve->done() || lve->why == "write pipe") lost = true; }
            gt.add(cur); if (lve) gl.add(lve);
        }
        if (!lost) { string wv; for (auto &q : round) wv += std::to_string(q.c) + ":" + q.a.substr(0, 20) + "|";
            CHECK(!gt.bad(), "tool-grows", "the tool library's memory grows with every round of '%s': blocks held %s", wv.c_str(), gt.text().c_str());
            if (real) CHECK(!gl.bad(), "lve-grows", "the LVE's memory grows with every round of '%s': blocks held %s", wv.c_str(), gl.text().c_str());
            K->probe(real ? "tool-rounds" : "odd-rounds"); }
        s.free(); return 0;
    }, toolimg_for());
    need_end(t, "tool-end");
}

// ------------------------------------------------------------------ C23
// The tool library against a conforming LVE of someone else's: every call is one exact request, its result is exactly that request's reply.
struct Exch { string cmd, arg; long num = 0; string rname; long rnum = 0; string rdata; };
static string any_text(size_t max, bool nul) {
    size_t n; switch (K->op(6)) { case 0: n = K->op(3); break; case 1: n = 900 + K->op(250); break; case 2: n = K->op(max); break; default: n = 1 + K->op(60); }
    Rng r; r.seed(K->op(1u << 30)); string s; uint32_t st = K->op(4); static const char *bits[] = {"YES\n", "NO 2\nno", "FILECONT 3\nabc", "ERROR 8 3\nbad", "%s%n%d", "VERSION 1\n", " ", "\n", "\\", "/"};
    while (s.size() < n) { if (st == 1 && r.next() % 4 == 0) s += bits[r.next() % 10]; else if (st == 2) s += (char)(1 + r.next() % 255); else if (st == 3 && nul) s += (char)r.next(); else s += (char)(33 + r.next() % 94); }
    s.resize(n); return s;
}
static void c23() {
    log_knob();
    auto *log = new vector<Exch>; auto *hold = new string;
    K->harness_exe["conf"] = [log]() {
        cur->sigpipe = 1; SSL *ssl; if (!fake_handshake(ssl)) return 0;
        string in; char b[20000]; bool ku = K->op(4) == 3;
        for (;;) {
            size_t nl; while ((nl = in.find('\n')) == string::npos) { int n = SSL_read(ssl, b, sizeof b); if (n <= 0) return 0; in.append(b, n); }
            Exch x; string line = in.substr(0, nl); in.erase(0, nl + 1); size_t sp = line.find(' '); x.cmd = line.substr(0, sp); long v = sp == string::npos ? 0 : atol(line.c_str() + sp);
            if (x.cmd == "VERSION") { x.num = v; CHECK(line == "VERSION " + std::to_string(v), "request", "the tool sent the line '%s'", line.substr(0, 60).c_str()); }
            else { CHECK(line == x.cmd + " " + std::to_string(v), "request", "the tool sent the line '%s'", line.substr(0, 60).c_str()); while (in.size() < (size_t)v) { int n = SSL_read(ssl, b, sizeof b); if (n <= 0) return 0; in.append(b, n); } x.arg = in.substr(0, v); in.erase(0, v); }
            CHECK(in.empty(), "request", "%zu bytes more than one request: '%s'", in.size(), in.substr(0, 40).c_str());
            string rp; uint32_t k = K->op(4);
            auto fail = [&]() { static const long ids[] = {8, 1, 2, 3, 4, 5, 6, 7, 9, 0, 77, -3}; x.rname = "ERROR"; x.rnum = ids[K->op(12)]; x.rdata = any_text(3000, true); };
            if (k == 3) fail();
            else if (x.cmd == "VERSION") { x.rname = "VERSION"; x.rnum = x.num - 2 + K->op(4); }
            else if (x.cmd == "FILE") { x.rname = "FILECONT"; x.rdata = K->op(3) == 2 ? any_text(70000, true) : gen_content("fake" + std::to_string(log->size()), true); }
            else if (x.cmd == "LIB" || x.cmd == "RETURNFEATURE" || x.cmd == "RETURNLICENSE") x.rname = "YES";
            else if (x.cmd == "FEATURE" || x.cmd == "LICENSE") { if (k == 2) { x.rname = "NO"; x.rdata = any_text(3000, true); } else x.rname = "YES"; }
            else CHECK(false, "request", "the tool sent the command '%s'", x.cmd.substr(0, 40).c_str());
            if (x.cmd == "LICENSE" && K->op(4) == 3) { x.rname = "NOTSIMPLE"; x.rdata.clear(); }
            rp = x.rname == "VERSION" ? "VERSION " + std::to_string(x.rnum) + "\n" : x.rname == "YES" || x.rname == "NOTSIMPLE" ? x.rname + "\n" : x.rname == "ERROR" ? "ERROR " + std::to_string(x.rnum) + " " + std::to_string(x.rdata.size()) + "\n" + x.rdata : msg(x.rname, x.rdata);
            log->push_back(x);
            size_t at = 0, first = rp.find('\n') + 1; uint32_t style = K->op(4);
            while (at < rp.size()) {
                size_t n = rp.size() - at; if (n > 16000) n = 16000;
                if (style == 1 && at == 0) n = first; else if (style == 2) n = at == 0 ? first + K->op(std::min<size_t>(rp.size() - first, 12000) + 1) : 1 + K->op(std::min<size_t>(n, 9000)); else if (style == 3 && at) n = std::min<size_t>(n, 1 + K->op(1500));
                if (ku) key_update(ssl);
                if (SSL_write(ssl, rp.data() + at, n) <= 0) return 0; at += n;
            }
        }
    };
    K->put("/opt/lve", "#!SIM fn:conf\n", 0755); (void)hold;
    bool faulty = K->op(3) == 2; if (faulty) pick_faults({F_ALLOC, F_STALL}, {"tool"}, 2, 60); else if (K->op(3) == 2) K->addfault(F_STALL, K->op(2) ? "tool" : "lve", K->op(200), 500000, 0);
    Proc *t = K->spawn_fn("tool", [log]() {
        Session s; K->faults_on = false; Outcome o = s.start("/opt/lve"); K->faults_on = true; CHECK(o.ok, "start", "%s", o.err.c_str());
        int n = 1 + many(12); bool disturbed = false;
        for (int i = 0; i < n; i++) {
            static const char *cm[] = {"VERSION", "LIB", "FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE", "FILE", "FILE", "FILE", "FEATURE", "LICENSE"};
            string c = cm[K->op(11)], a = c == "VERSION" ? "" : any_text(K->op(8) == 7 ? 40000 : 2000, false); a += c == "VERSION" ? "" : "#" + std::to_string(i); int hi = 3 + 4 * i, lo = hi - 1 + K->op(2); uint64_t f0 = K->fired[F_ALLOC];
            if (c == "VERSION") o = s.version(lo, hi); else if (c == "LIB") o = s.lib(a); else if (c == "FEATURE") o = s.feature(a); else if (c == "RETURNFEATURE") o = s.retfeature(a); else if (c == "LICENSE") o = s.license(a); else if (c == "RETURNLICENSE") o = s.retlicense(a); else o = s.file(a);
            if (K->fired[F_ALLOC] != f0) disturbed = true;
            const Exch *x = nullptr; string tag = "#" + std::to_string(i); size_t same = 0;      // the exchange of this very call
            for (auto &e : *log) if (c == "VERSION" ? e.cmd == c && e.num == hi : e.arg.size() >= tag.size() && !e.arg.compare(e.arg.size() - tag.size(), tag.size(), tag) && (e.arg == a || e.cmd == c)) { x = &e; same++; }
            CHECK(same <= 1, "requests", "%s: %zu requests for one call", c.c_str(), same);
            if (x) CHECK(x->cmd == c && x->arg == a, "request", "%s: the request is %s with %s", c.c_str(), x->cmd.c_str(), hexdiff(a, x->arg).c_str());
            if (!disturbed) CHECK(x && log->size() == (size_t)i + 1, "requests", "%s: %zu requests instead of %d, this one %s", c.c_str(), log->size(), i + 1, x ? "among them" : "missing");
            bool want = x && (x->rname == "YES" || x->rname == "FILECONT" || (x->rname == "VERSION" && x->rnum >= lo && x->rnum <= hi));
            if (o.ok) {
                CHECK(x, "unasked", "%s succeeds without a request", c.c_str());
                CHECK(want, "false-success", "%s succeeds although the LVE answered %s %s", c.c_str(), x->rname.c_str(), x->rdata.substr(0, 60).c_str());
                if (c == "FILE") CHECK(o.data == x->rdata, "content", "%s", hexdiff(x->rdata, o.data).c_str());
                K->probe("ok-" + c); if (disturbed) K->probe("ok-after-fault");
            } else {
                CHECK(o.haserr || disturbed, "no-error", "%s fails without an error", c.c_str());
                if (x && (o.code == 3 || o.code == 4)) CHECK(x->rname == (o.code == 3 ? "NO" : "NOTSIMPLE"), "wrong-kind", "%s fails with code %d although the LVE answered %s", c.c_str(), o.code, x->rname.c_str());
                if (disturbed) { K->probe("failed-by-fault"); continue; }
                CHECK(x, "unasked", "%s fails without a request: %s", c.c_str(), o.err.c_str());
                CHECK(!want, "false-failure", "%s fails although the LVE answered %s: %s", c.c_str(), x->rname.c_str(), o.err.c_str());
                string t = x->rdata.c_str(); t = t.substr(0, 1900);
                if (x->rname == "NO") CHECK(o.code == 3 && o.err.find(t) != string::npos, "reason", "%s: the LVE's reason '%s' became code %d, '%s'", c.c_str(), t.substr(0, 60).c_str(), o.code, o.err.substr(0, 60).c_str());
                else if (x->rname == "NOTSIMPLE") CHECK(o.code == 4 && o.err.size(), "reason", "%s: NOTSIMPLE became code %d, '%s'", c.c_str(), o.code, o.err.substr(0, 60).c_str());
                else if (x->rname == "ERROR") CHECK(o.code != 3 && o.code != 4 && o.err.find(t) != string::npos, "reason", "%s: the LVE's error '%s' became code %d, '%s'", c.c_str(), t.substr(0, 60).c_str(), o.code, o.err.substr(0, 60).c_str());
                K->probe("told-" + x->rname);
            }
        }
        s.free(); return 0;
    }, "toolA");
    need_end(t, "tool-end");
}

void c12(); void c13(); void c14(); void c15(); void c16(); void c19(); void c21(); void c24();
Scenario find_scenario(const string &p) {
    static map<string, Scenario> m = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, 
        {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C24", c24}};
    auto it = m.find(p); return it == m.end() ? nullptr : it->second;
}
