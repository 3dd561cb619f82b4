"""What each check decides, for the evidence files."""
REAL = [
    "tool library (src/tool, src/common): unmodified sources, every image linked from the working tree",
    "LVE (src/lve, src/common, src/decryptors/default), with one, two and three listed tool keys, with and without a global licence feature",
    "encrypt_file, decrypt_file (src/encrypt_decrypt) and packagetool (src/packagetool)",
    "key generators and obfuscator (src/embedfile, src/obfuscators/dummy, src/GenPublicKeyToolH.cmake)",
    "OpenSSL (static libssl, libcrypto): TLS, AES and HMAC are computed for real on both sides",
]
STUB = [
    "operating system: processes, scheduler, fork/exec, pipes, descriptors, file system, clock, signals, allocator (simulated; glibc stdio buffering is real on top of it)",
    "entropy: seeded generator behind OpenSSL's RAND method",
    "licence manager: seeded policy that grants, refuses or fails, recording every call",
    "archive library (kuba--/zip, not available offline): stand-in on the simulated disk, packagetool only",
    "RSA and EC keys: fixed test keys of /verif/keys",
]
ASSUME = [
    "processes interleave at simulated system calls; SEMLA's programs are single threaded, so no finer interleaving exists",
    "OpenSSL and glibc string and number routines behave as documented",
    "Linux variants of the sources; the Windows and Darwin branches are not compiled",
    "compiled with NDEBUG as in the shipped RelWithDebInfo build",
]
def I(oracle, must, assume=()): return {"oracle": oracle, "must": list(must), "assume": list(assume)}
INFO = {
 "C01": I("byte comparison of every delivered file with the generated source it was encrypted from; missing files must give an error; every request of the session is judged", ["delivered", "missing", "mixed", "deep", "big", "empty"]),
 "C02": I("under faults each request is either exact or an error; with the faults off the whole library is fetched again in the same session and compared", ["failed-by-fault", "recovered", "lve-ended"]),
 "C03": I("damage model on encrypted files; delivered content must equal the original; files with undamaged package chain must still be delivered", ["damaged", "refused", "intact"]),
 "C04": I("raw TLS peers and tool libraries with listed, unlisted, no and non-RSA keys; no reply to an unlisted key may be FILECONT or contain file content; listed keys are served", ["listed", "unlisted"]),
 "C05": I("executable reference model of the protocol state machine, compared reply by reply; recorded licence manager calls", ["obeyed0", "obeyed1", "obeyed2", "obeyed3", "refused0", "refused1", "refused2", "refused3", "file"]),
 "C06": I("raw TLS peer counts and parses replies against the protocol model; no stray bytes, no missing reply, no blocked process at quiescence", ["replied", "multi-record", "error-by-fault"]),
 "C07": I("at quiescence after the tool's end no LVE runs and every licence manager instance has been closed exactly once", ["free", "killed", "exit", "one-of-two", "had-licence"]),
 "C08": I("every call of the tool library returns (no blocked tool process at quiescence, no signal); success only if the full good reply was sent; failures carry a message", ["failed-start", "failed-version", "failed-file", "failed-feature", "ok-file", "lve-dead"]),
 "C09": I("recorded decisions of the licence manager stand-in against replies, error codes and exit status", ["granted", "refused", "init-failed", "cli-granted", "cli-refused", "own-manager", "own-manager-cli", "nul-in-name", "empty-name", "odd-name"]),
 "C10": I("recorded decision on the global feature against every later FILE and LIB reply", ["served", "refused"]),
 "C11": I("guard pages, canaries, stack protector and signal handlers around the real code under hostile messages; LVE answers or ends, tool calls return", ["bad-answered", "tool-side", "pre-handshake"]),
 "C12": I("files left by encrypt_file are decrypted by the real decrypt_file on a healthy disk and compared; exit status against the file system afterwards", ["encrypted", "failed-by-fault", "parallel", "nobase"]),
 "C13": I("output of decrypt_file against the generated source; exit status against the file system afterwards", ["exact", "failed-by-fault", "refused-damage"]),
 "C14": I("archive entries against the library, LVE and extra files and against the manifest of a fault-free reference run; encrypted entries are extracted and decrypted by the real decrypt_file", ["complete", "failed-by-fault", "encrypted", "plain"]),
 "C15": I("search of every archive left behind for any 24-byte window of any Modelica source and for .mo entries", ["encrypted", "failed-by-fault", "killed"]),
 "C16": I("snapshot of the whole simulated file system before and after, except archive and staging", ["complete", "failed-by-fault", "killed"]),
 "C17": I("descriptor table of tool and LVE compared between sessions and while the LVE is idle; descriptors inherited through exec", ["balanced", "start-failed", "idle-checked"]),
 "C18": I("every call of every concurrent session against what the session would get alone", ["threads", "thread-file", "concurrent", "feature", "file", "reopened", "lve-killed", "tool-killed"]),
 "C19": I("search of all bytes written to pipes, standard streams, log and files for plaintext windows, base key and key masks", ["session", "logged", "error-path"]),
 "C21": I("the generated header is read back (declared size, announced length, every assigned byte) and compared with the input key; exit status against the file system afterwards", ["key", "random", "failed-by-fault", "carriage-return"]),
 "C22": I("memory blocks held by the process (its own and OpenSSL's, counted by allocator seams) after each repetition of the same round; growth in every one of the last six repetitions is a leak", ["lve-rounds", "tool-rounds", "odd-rounds", "sessions", "failed-starts"], ["stdio buffers and the C library's own memory are not counted"]),
 "C23": I("requests recorded by a conforming stand-in LVE against the calls made, and each call's result, content, error text and error code against that request's own reply", ["ok-FILE", "ok-LIB", "ok-FEATURE", "ok-RETURNFEATURE", "ok-LICENSE", "ok-RETURNLICENSE", "ok-VERSION", "told-ERROR", "told-NO", "told-NOTSIMPLE", "told-VERSION", "failed-by-fault"], ["the LVE is a stand-in: only the tool library runs real code"]),
 "C24": I("exit status and message of a command line that cannot be obeyed, snapshot of the whole simulated file system before and after, recorded licence manager calls; a right command line running beside it is judged like C14", ["refused", "help", "beside", "no-lve", "refused-despite-fault"]),
 "C20": I("reference rule over both version ranges; real LVE with raw peers, tool library with LVEs that answer any version", ["agreed", "refused", "too-low", "early-refused", "retried"]),
}
# runs of the quick tier: about 40 s on 8 cores
RUNS = {"C01": 8000, "C02": 9000, "C03": 9000, "C04": 14000, "C05": 14000, "C06": 13000, "C07": 8000, "C08": 18000, "C09": 15000, "C10": 13000,
        "C11": 20000, "C12": 16000, "C13": 22000, "C14": 20000, "C15": 24000, "C16": 40000, "C17": 7000, "C18": 4500, "C19": 8000, "C20": 17000, "C21": 60000, "C22": 5000, "C23": 16000, "C24": 30000}
