// Library generator, sessions, raw TLS peers, oracles.
#pragma once
#include "sim.h"
#include <openssl/ssl.h>
struct ArEntry { string name, data; unsigned mode; };
bool parse_archive(const string &a, vector<ArEntry> &out);
struct LFile { string rel, req, data; bool enc; };
struct Lib { string root, src; vector<LFile> f; vector<string> missing; const LFile *find(const string &req) const { for (auto &x : f) if (x.req == req) return &x; return nullptr; } };

struct GenOpt { int maxfiles = 8; int maxdepth = 3; bool big = true; bool plain = true; bool nopkgdirs = true; int minfiles = 1; bool toppkg = true; int longmax = 1600; };
extern bool gen_huge;                             // scenarios that can carry files of megabytes
void coarse();
int many(uint32_t base, uint32_t rare = 300);     // length of a history: mostly up to base, rarely hundreds
string gen_content(const string &tag, bool big);
Lib gen_lib(const string &root, const GenOpt &o = GenOpt());
void spell_dir(const string &dir, string &spelled, string &cwd);   // dir as seen from cwd, in one of several spellings
void write_sources(const Lib &l);                 // source tree at l.src, destination directories at l.root
vector<const LFile *> enc_order(const Lib &l);
void encrypt_lib(const Lib &l);                   // with the real encrypt_file, fault free
int run_prog(const string &role, const string &img, vector<string> argv, Proc **out = nullptr, const string &cwd = "/");   // from main: spawn, run to quiescence
string request_path(const Lib &l);                // random request: mostly existing files
void install_lve(const string &path = "/opt/lve", const string &base = "lve", mode_t mode = 0755);
string hexdiff(const string &want, const string &got);
string quiescent_report();                        // who is blocked

// ---- tool sessions, inside a tool process
struct Outcome { bool ok; string data; string err; int code; bool haserr; };
struct Session {
    mlle_connections *c = nullptr; 
    Outcome start(const string &exe);
    Outcome version(int lo, int hi); Outcome lib(const string &p); Outcome feature(const string &f); Outcome retfeature(const string &f);
    Outcome license(const string &p); Outcome retlicense(const string &p); Outcome file(const string &p);
    void free();
};
Outcome open_session(Session &s, const Lib &l, const string &exe = "/opt/lve");   // start+version+lib

// ---- raw TLS peer
extern string g_keydir;
struct Reply { bool eof = true; string name; long num = 0; size_t len = 0; string data; string line; };
struct Raw {
    SSL *ssl = nullptr; int w = -1, r = -1; Proc *lve = nullptr; int rc = 0; string in; bool ku = false;   // ku: change the traffic keys now and then
    bool connect(const string &key, bool tls12 = false);                               // key "" = no certificate
    Proc *spawn_lve(const string &base, const string &role = "lve");
    bool send(const string &m, const vector<size_t> &splits = {});
    bool fill();
    Reply reply();
    void close();
};
void key_update(SSL *s);                          // now and then, as any TLS 1.3 peer may
bool well_formed(const Reply &r);
EVP_PKEY *load_key(const string &name);
X509 *self_cert(EVP_PKEY *k);
SSL_CTX *server_ctx(); SSL_CTX *client_ctx(const string &key);
void pick_faults(const vector<FaultKind> &kinds, const vector<string> &roles, int maxn, uint32_t maxord);
void check_leftover();
#define CHECK(c, cls, ...) do { if (!(c)) { char b_[1600]; snprintf(b_, sizeof b_, __VA_ARGS__); K->violate(cls, b_); } } while (0)
