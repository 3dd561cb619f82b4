#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Every program of the repository (tool library, LVE, encrypt_file, decrypt_file,
packagetool) is compiled unmodified, linked with `ld -r` into one relocatable
"image", its libc calls are redirected to the simulator with
`objcopy --redefine-syms`, and copies of the images are linked together with
the simulator into one executable.
"""
import glob, hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
KEYS = os.path.join(VERIF, "keys")

CC, CXX = "gcc", "g++"
CFLAGS = ["-O1", "-g1", "-fno-pic", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2", "-fsanitize=bounds", "-fsanitize-trap=bounds",
          "-DNDEBUG", "-w", "-fno-common", "-fstack-protector-all", "-fno-pie",
          "-DOPENSSL_SUPPRESS_DEPRECATED", "-std=gnu11"] + os.environ.get("SIM_CFLAGS", "").split()

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

# libc functions the simulator provides instead of the real ones
REDIRECT = """
fork vfork pipe pipe2 execl execv execve execvp execlp dup dup2 dup3 close open open64 creat read write lseek lseek64 fsync fdatasync
access faccessat _exit _Exit exit abort atexit waitpid wait kill raise
fopen fopen64 fdopen freopen fclose fcloseall fflush fileno tmpfile setvbuf setbuf
printf vprintf puts putchar getchar perror
stat stat64 lstat lstat64 fstat fstat64 __xstat __lxstat __fxstat
opendir readdir readdir64 closedir rewinddir dirfd scandir
mkdir mkdtemp mkstemp rmdir remove unlink unlinkat rename chmod fchmod umask symlink link truncate ftruncate
getcwd chdir realpath readlink getpid getppid getenv setenv unsetenv secure_getenv
malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf getline posix_memalign aligned_alloc
time ctime localtime gmtime localtime_r ctime_r gettimeofday clock_gettime sleep usleep nanosleep
signal __sysv_signal bsd_signal sigaction sigprocmask pthread_sigmask fcntl fcntl64 ioctl select poll system popen pclose
openat openat64 fstatat fstatat64 mkdirat renameat faccessat2 fchmodat readlinkat fdopendir readdir_r pread pread64 pwrite pwrite64 readv writev
dprintf vdprintf ppoll getdelim mkostemp mkstemps mkostemps ftw nftw ftw64 nftw64 open_memstream putenv clearenv get_current_dir_name alphasort
posix_spawn posix_spawnp rand srand random srandom getuid geteuid isatty sysconf
SSL_read SSL_write strtok pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy pthread_once mmap
SSL_CTX_new SSL_new SSL_CTX_use_RSAPrivateKey SSL_CTX_set_cipher_list SSL_use_certificate
X509_new X509_sign X509_set_pubkey X509_get_pubkey EVP_PKEY_new EVP_PKEY_set1_RSA EVP_PKEY_get1_RSA
PEM_read_bio_RSAPrivateKey PEM_write_bio_RSA_PUBKEY BIO_new BIO_new_mem_buf BIO_new_fp BIO_new_fd
EVP_CIPHER_CTX_new EVP_EncryptInit_ex EVP_EncryptUpdate EVP_EncryptFinal_ex EVP_DecryptInit_ex EVP_DecryptUpdate EVP_DecryptFinal_ex
sendfile sendfile64 copy_file_range posix_fadvise posix_fallocate fallocate flock lockf utimensat futimens utime utimes chown lchown fchown sync
getrandom getentropy arc4random arc4random_buf arc4random_uniform openlog closelog syslog vsyslog warn warnx err errx error psignal BIO_new_file
__printf_chk __vprintf_chk __asprintf_chk __vasprintf_chk __dprintf_chk __vdprintf_chk __syslog_chk __vsyslog_chk __read_chk __pread_chk __pread64_chk
__realpath_chk __getcwd_chk __readlink_chk __readlinkat_chk __poll_chk __ppoll_chk __open_2 __open64_2 __openat_2 __openat64_2
HMAC_CTX_new HMAC_Init_ex HMAC_Update HMAC_Final
""".split()

def gcc_obj(src, out, inc, defs=(), extra=()):
    # a call at every basic block of the code that may run in threads: a point at which a thread can be preempted
    if os.path.basename(os.path.dirname(src)) in ("tool", "common"): extra = (*extra, "-fsanitize-coverage=trace-pc")
    cmd = [CC, *CFLAGS, *extra, *["-I" + i for i in inc], *["-D" + d for d in defs], "-c", src, "-o", out]
    run(cmd)
    return out

def srcs(d):
    return sorted(f for f in glob.glob(os.path.join(SRC, d, "*.c")) if "windows" not in os.path.basename(f))

def helpers(d):    # the sources of a directory of programs that are no program themselves
    return [f for f in srcs(d) if not re.search(r"^\s*(int|void)?\s*main\s*\(", open(f, errors="replace").read(), re.M)]

def build(bdir):
    os.makedirs(bdir, exist_ok=True)
    G = os.path.join(bdir, "gen"); O = os.path.join(bdir, "obj"); I = os.path.join(bdir, "img")
    for d in (G, O, I):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    incs = [os.path.join(SRC, d) for d in (
        "encrypt_decrypt", "decryptors/include", "decryptors/default/src", "license_managers/include",
        "obfuscators/include", "embedfile", "common", "lve", "tool", "packagetool")] + [os.path.join(REPO, "ThirdParty/uthash"), os.path.join(REPO, "ThirdParty/uthash/src")]
    for dp, dn, fn in os.walk(os.path.join(REPO, "ThirdParty")):
        if "uthash.h" in fn: incs.append(dp)
    pool = ThreadPoolExecutor(os.cpu_count() or 4)

    # --- generated headers, with the repository's own generators
    obf = os.path.join(G, "obfuscate"); rnd = os.path.join(G, "randomize_key")
    detrand = os.path.join(G, "detrand.c")
    open(detrand, "w").write("""
static unsigned long s=88172645463325252UL;
int RAND_bytes(unsigned char*b,int n){for(int i=0;i<n;i++){s^=s<<13;s^=s>>7;s^=s<<17;b[i]=(unsigned char)(s>>24);}return 1;}
""")
    # Note: headers must be regenerated with the repo's generators, as the build does.
    base = [CC, "-O1", "-w", "-DOPENSSL_SUPPRESS_DEPRECATED", *os.environ.get("SIM_GENFLAGS", "").split(), *["-I" + i for i in incs]]
    obf_common = helpers("embedfile") + srcs("obfuscators/dummy/src")
    f1 = pool.submit(run, base + [os.path.join(SRC, "embedfile/obfuscate.c")] + obf_common + ["-o", obf, "-lcrypto"])
    f2 = pool.submit(run, base + [os.path.join(SRC, "embedfile/randomize_key.c"), detrand] + obf_common + ["-o", rnd, "-lcrypto"])
    f1.result(); f2.result()
    def genkeys(d, lvekey, toolkey, pubs):
        os.makedirs(d, exist_ok=True)
        run([obf, os.path.join(d, "private_key_tool.h"), os.path.join(KEYS, toolkey + ".pem"), "PRIVATE_KEY_TOOL", "TOOL_PRIVATE"])
        run([obf, os.path.join(d, "private_key_lve.h"), os.path.join(KEYS, lvekey + ".pem"), "PRIVATE_KEY_LVE", "LVE_PRIVATE"])
        for i, k in enumerate(pubs):
            run([obf, os.path.join(d, "public_key_tool%d.h" % i), os.path.join(KEYS, k + ".pub.pem"), "PUBLIC_KEY_TOOL%d" % i, "TOOL_PUBLIC"])
        run(["cmake", "-D", "PUBLIC_KEY_TOOL_NUM=%d" % len(pubs), "-D", "PUBLIC_KEY_TOOL_H=" + os.path.join(d, "public_key_tool.h"),
             "-P", os.path.join(SRC, "GenPublicKeyToolH.cmake")], cwd=d)
        return d
    run([rnd, os.path.join(G, "random_key_file.h"), "MLLE_CR_KEY"])
    kA = genkeys(os.path.join(G, "kA"), "lve", "tool0", ["tool0", "tool1", "tool2"])
    kB = genkeys(os.path.join(G, "kB"), "lve", "tool2", ["tool2"])
    kC = genkeys(os.path.join(G, "kC"), "lve", "untrusted", ["tool1", "big", "tool0", "tool3", "tool4", "tool5"])

    # --- objects
    lvedefs = ["CMAKE_PROJECT_NAME=SEMLA", "CMAKE_PROJECT_VERSION=0.0.0", "LVETARGET=lve_linux64"]
    jobs = {}
    def obj(tag, src, inc, defs=()):
        out = os.path.join(O, "%s__%s.o" % (tag, os.path.splitext(os.path.basename(src))[0]))
        if out not in jobs: jobs[out] = pool.submit(gcc_obj, src, out, inc, defs)
        return out
    stubinc = [os.path.join(HERE, "stub")]
    inc0 = incs + [G, kA] + stubinc
    lic = os.path.join(HERE, "lic_stub.c")
    common = [obj("common", s, inc0) for s in srcs("common")]
    crypt = [obj("crypt", s, inc0) for s in srcs("decryptors/default/src")]
    def need_keys(s):
        return re.search(r"(private|public)_key_(tool|lve)\.h", open(s, errors="replace").read()) is not None
    def tool(tag, k):
        return [obj(tag if need_keys(s) else "tool", s, incs + [G, k] + stubinc) for s in srcs("tool")] + common
    def lve(tag, k, extra=(), licm=None):
        return [obj(tag, s, incs + [G, k] + stubinc, lvedefs + list(extra)) for s in srcs("lve")] + \
               (licm or [obj("lic", lic, inc0)]) + common + crypt
    objs = {
        "toolA": tool("toolA", kA), "toolB": tool("toolB", kB), "toolC": tool("toolC", kC),
        "lve": lve("lve", kA), "lveq": lve("lveq", kB), "lver": lve("lver", kC),
        "lveg": lve("lveg", kA, ["MLLE_GLOBAL_LICENSE_FEATURE=global_feature"]),
        # the LVE as it is shipped, with the project's own licence manager
        "lved": lve("lve", kA, (), [obj("licdummy", s, inc0) for s in srcs("license_managers/testingdummy/src")]),
        "enc": [obj("enc", os.path.join(SRC, "encrypt_decrypt/encrypt_file.c"), inc0)] + [obj("ed", s, inc0) for s in helpers("encrypt_decrypt")] + common + crypt,
        "dec": [obj("dec", os.path.join(SRC, "encrypt_decrypt/decrypt_file.c"), inc0)] + [obj("ed", s, inc0) for s in helpers("encrypt_decrypt")] + common + crypt,
        "pkg": [obj("pkg", s, inc0) for s in srcs("packagetool")] + common + crypt,
        "obf": [obj("gen", s, inc0) for s in [os.path.join(SRC, "embedfile/obfuscate.c")] + obf_common],
        "rnd": [obj("gen", s, inc0) for s in [os.path.join(SRC, "embedfile/randomize_key.c")] + obf_common],
    }
    api = ["mlle_start_executable", "mlle_connections_free", "mlle_tool_version", "mlle_tool_libpath",
           "mlle_tool_feature", "mlle_tool_returnfeature", "mlle_tool_license", "mlle_tool_returnlicense",
           "mlle_tool_file", "mlle_file_contents_free", "mlle_tool_get_file_size", "mlle_tool_read_bytes",
           "mlle_error_get_message", "mlle_error_get_code", "mlle_error_free"]
    images = []   # (name, kind, base)
    for b, n in (("toolA", 2), ("toolB", 1), ("toolC", 1)):
        for c in range(n): images.append(("%s%d" % (b, c), "tool", b))
    for b, n in (("lve", 7), ("lveq", 2), ("lver", 2), ("lveg", 4), ("lved", 2), ("enc", 3), ("dec", 2), ("pkg", 2), ("obf", 2), ("rnd", 2)):
        for c in range(n): images.append(("%s%d" % (b, c), "prog", b))

    # --- simulator objects are compiled meanwhile
    simo = []
    for s in sorted(glob.glob(os.path.join(HERE, "*.cpp"))):
        out = os.path.join(O, "sim__" + os.path.basename(s) + ".o")
        inc = incs + [G, os.path.join(HERE, "stub")]
        jobs[out] = pool.submit(run, [CXX, "-std=c++17", "-O1", "-g1", "-fno-pic", "-fno-pie", "-w", "-Wno-format",
                                      "-DOPENSSL_SUPPRESS_DEPRECATED", *["-I" + i for i in inc], "-c", s, "-o", out])
        simo.append(out)
    for j in list(jobs.values()): j.result()

    partial = {}
    def mkpartial(b):
        out = os.path.join(I, b + ".o")
        uniq = list(dict.fromkeys(objs[b]))
        run(["ld", "-r", "-o", out, *uniq])
        return out
    fs = {b: pool.submit(mkpartial, b) for b in objs}
    for b, f in fs.items(): partial[b] = f.result()

    def mkimg(name, kind, b):
        out = os.path.join(I, name + ".img.o")
        keep = (["main"] if kind == "prog" else api)
        redef = os.path.join(I, name + ".syms"); kept = os.path.join(I, name + ".keep")
        with open(redef, "w") as f:
            for s in REDIRECT: f.write("%s sim_%s\n" % (s, s))
            for s in ("stdin", "stdout", "stderr"): f.write("%s %s_%s\n" % (s, name, s))
            for s in keep: f.write("%s %s_%s\n" % (s, name, s))
        with open(kept, "w") as f:
            for s in keep: f.write("%s_%s\n" % (name, s))
        # a name that the image itself defines (asprintf.c ...) must not be redirected
        defined = set(l.split()[-1] for l in run(["nm", "--defined-only", "-g", partial[b]]).splitlines() if l.strip())
        lines = [l for l in open(redef) if not (l.split()[0] in defined and l.split()[0] not in keep)]
        open(redef, "w").writelines(lines)
        run(["objcopy", "--redefine-syms=" + redef, "--keep-global-symbols=" + kept,
             "--rename-section", ".data=%s_data" % name, "--rename-section", ".bss=%s_bss" % name,
             partial[b], out])
        return out
    imgs = [pool.submit(mkimg, *im) for im in images]
    imgs = [f.result() for f in imgs]

    inc = os.path.join(G, "images.c")
    with open(inc, "w") as f:
        f.write("#include \"image.h\"\n")
        for name, kind, b in images:
            f.write("FILE *%s_stdin,*%s_stdout,*%s_stderr;\n" % (name, name, name))
            f.write("extern char __start_%s_data[] __attribute__((weak)),__stop_%s_data[] __attribute__((weak)),__start_%s_bss[] __attribute__((weak)),__stop_%s_bss[] __attribute__((weak));\n" % ((name,) * 4))
            if kind == "prog": f.write("int %s_main(int,char**);\n" % name)
            else:
                for s in api: f.write("extern void %s_%s(void) __attribute__((weak));\n" % (name, s))
                f.write("static void *%s_api[]={%s};\n" % (name, ",".join("(void*)%s_%s" % (name, s) for s in api)))
        f.write("struct image g_images[]={\n")
        for name, kind, b in images:
            f.write('{"%s","%s",%s,%s,&%s_stdin,&%s_stdout,&%s_stderr,__start_%s_data,__stop_%s_data,__start_%s_bss,__stop_%s_bss},\n' % (
                name, b, ("%s_main" % name) if kind == "prog" else "0", ("%s_api" % name) if kind == "tool" else "0", *([name] * 7)))
        f.write("};\nint g_nimages=%d;\n" % len(images))
    imgc = os.path.join(O, "images.o")
    run([CC, "-O1", "-w", "-fno-pic", "-I" + HERE, "-c", inc, "-o", imgc])
    exe = os.path.join(bdir, "sim")
    ossl = ["-l:libssl.a", "-l:libcrypto.a"]
    wraps = ["read", "write", "close", "time", "gettimeofday", "clock_gettime"]
    run([CXX, "-no-pie", "-o", exe, *simo, imgc, *os.environ.get("SIM_LDADD", "").split(), *imgs, *["-Wl,--wrap=" + w for w in wraps], "-Wl,-z,noexecstack", "-Wl,--no-warn-rwx-segments", *ossl, "-lpthread", "-ldl"])
    pool.shutdown()
    return exe

if __name__ == "__main__":
    bd = sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "build")
    try:
        print(build(bd))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(3)
