#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A trusted tool receives exactly the library's plaintext, for any history",
  "For every library that was encrypted by this project's encryptor, a tool whose key is listed receives for each requested file exactly the bytes of the original source file (or of the unencrypted file stored in the library), with the exact length, whatever the order, repetition and mix of requests, the sizes of the files, the nesting of the directories and the LVE's log being on, off or unwritable. A request for a file that is not there is answered with an error and does not disturb any later request. A file (other than a package) that is replaced, removed or added between two requests is from then on delivered as it is now.",
  ["schedules", "histories", "inputs", "configurations"],
  "every library tree (sizes 0..several hundred kB, directories with and without a package file), every sequence of requests in one session, every interleaving of tool and LVE and every fragmentation and buffering of the pipes between them",
  "Tests fetch two small fixed files in one fixed order through pipes the kernel schedules; per-directory masks are cached, so the answer depends on the request history, and reassembly depends on how the stream is fragmented.",
  ["src/lve/mlle_lve_file.c", "src/decryptors/default/src/mlle_cr_decrypt.c", "src/common/mlle_utils.c", "src/common/mlle_ssl.c", "src/tool/mlle_licensing.c"],
  [("mask chain and cache", "src/decryptors/default/src/mlle_cr_decrypt.c:mlle_demask_key"), ("message reassembly", "src/common/mlle_utils.c:mlle_read_command"), ("file reply", "src/lve/mlle_lve_file.c:mlle_lve_file")],
  ["return value, size and bytes of mlle_tool_file / mlle_tool_read_bytes"],
  state=[("keymask_map", "per-directory key masks already learned in this session", "src/decryptors/default/src/mlle_cr_context.h")])

p("C02", "File delivery is all-or-nothing under I/O and allocation faults",
  "When reading a library meets I/O errors, failed opens or failed allocations in the LVE, each file request still ends in exactly one of two ways: the complete and exact content, or an error. Never a short, long or altered content; and once the faults have stopped, every file is delivered exactly again in the same session, unless the LVE has ended it.",
  ["fault_sequences", "histories", "schedules"],
  "every placement of open/stat/read/allocation failures inside any sequence of file requests",
  "Tests never make a read or an allocation fail; a fault that lands while a directory mask is being learned poisons later requests only.",
  ["src/common/mlle_io.c", "src/lve/mlle_lve_file.c", "src/decryptors/default/src/mlle_cr_decrypt.c"],
  [("whole-file read", "src/common/mlle_io.c:mlle_io_read_file"), ("mask learning on demand", "src/decryptors/default/src/mlle_cr_decrypt.c:mlle_demask_key")],
  ["outcome of every mlle_tool_file call, in order"])

p("C03", "Damaged encrypted files are refused, never delivered altered",
  "If an encrypted file of a library has been modified, truncated, extended or torn after encryption, a request for it is answered with an error or with the exact original plaintext, never with anything else (replacing a whole file by another one of the same library is not damage: names are not authenticated). The session survives: intact files whose directory packages are intact are still delivered exactly afterwards.",
  ["fault_sequences", "inputs", "histories"],
  "every bit flip, truncation (including below the size of the header), extension and torn write, before or in the middle of a session, and every request order",
  "Tests use intact files only; integrity is a claim about all damaged images and about what the session does after one.",
  ["src/decryptors/default/src/mlle_cr_decrypt.c", "src/lve/mlle_lve_file.c"],
  [("HMAC verification", "src/decryptors/default/src/mlle_cr_decrypt.c:mlle_cr_decrypt")],
  ["outcome of mlle_tool_file", "survival of the LVE process"])

p("C04", "Only tools whose key the LVE lists ever receive library content",
  "A peer whose TLS key is not in the LVE's list of tool keys (or that presents no certificate) never receives the content of any file, whatever commands it sends and in whatever order; its file requests are answered with an error, the tool-not-allowed error when the library path it named is a directory. The certificates it sends along with its own change nothing. Every listed key is accepted, each with any other keys listed before or after it.",
  ["histories", "configurations", "schedules", "fault_sequences"],
  "every peer key, every command history, every interleaving of concurrent sessions with trusted and untrusted peers, with and without faults in the LVE",
  "Tests connect with one trusted key, and one untrusted one that asks a single question; here the peer and the whole history are universally quantified.",
  ["src/lve/mlle_lve_pubkey.c", "src/lve/mlle_ssl_lve.c", "src/lve/mlle_lve_file.c"],
  [("certificate capture", "src/lve/mlle_ssl_lve.c:cert_verify_callback"), ("key list match", "src/lve/mlle_lve_pubkey.c:validate"), ("gate", "src/lve/mlle_lve_file.c:mlle_lve_file")],
  ["replies seen by a raw TLS peer"])

p("C05", "Commands are obeyed only in protocol order; others get ERROR and no effect",
  "Over every sequence of messages from a tool, the LVE obeys VERSION, then optionally TOOLS, then LIB, then FEATURE, RETURNFEATURE, LICENSE, RETURNLICENSE and FILE, and answers every other, unknown or malformed command with an ERROR reply that states a reason and changes nothing: the replies to the remaining commands are the same as if it had not been sent. Before a library path is set no file is delivered and no licence is touched.",
  ["histories", "inputs", "schedules"],
  "every interleaving of valid, out-of-order, reply-only, unknown and malformed commands in one session",
  "Tests send a few wrong commands one by one; the claim is about every history against the protocol's state machine.",
  ["src/lve/mlle_protocol_lve_state.c", "src/lve/mlle_lve.c", "src/common/mlle_parse_command.c"],
  [("transition table", "src/lve/mlle_protocol_lve_state.c:mlle_next_state"), ("dispatch", "src/lve/mlle_lve.c:mlle_lve_handle_command")],
  ["sequence of replies on the TLS stream", "calls to the licence manager"])

p("C06", "Every request gets exactly one complete reply, in order, in bounded time",
  "For every session between a conforming peer and the LVE, each message is answered by exactly one well-formed reply whose announced length equals the data that follows, replies come in request order, and no request is left unanswered, however the transport fragments, buffers and delays the bytes and however the data of a message is divided into TLS records (its command line comes in one record). A failed allocation or file operation in the LVE may turn the reply into an ERROR but never removes, doubles or truncates it unless the LVE ends the session.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "every interleaving of the two processes, every fragmentation, pipe capacity and buffer size, every TLS record division of a message, allocation and I/O faults in the LVE",
  "Real pipes deliver whole messages in tests, so partial reads, small pipe capacity, multi-record messages and lost replies never happen there.",
  ["src/common/mlle_ssl.c", "src/common/mlle_io.c", "src/lve/mlle_lve.c", "src/lve/mlle_lve_libpath.c"],
  [("message read", "src/common/mlle_ssl.c:ssl_read_message"), ("message write and flush", "src/common/mlle_ssl.c:ssl_write_message"), ("receive loop", "src/lve/mlle_lve.c:mlle_lve_receive")],
  ["reply stream of a raw TLS peer", "return of the tool API calls", "quiescence of the simulated system"])

p("C07", "The LVE ends and frees its licences when the tool goes away, at any instant",
  "If the tool closes the connection, exits or is killed at any point of the session (before, during or after the handshake, between or inside messages, with or without another LVE running), the LVE process terminates within a bounded number of its own steps without crashing and has closed its licence manager exactly once if it had opened it. No licence stays checked out by a dead session.",
  ["crash_points", "schedules", "histories"],
  "every instant at which the tool can close, exit or die, at every step of every session history, with one or several LVEs started by the same tool",
  "Tests only end sessions in the orderly way, at one point.",
  ["src/lve/mlle_lve.c", "src/lve/lve.c", "src/tool/mlle_spawn_posix.c", "src/tool/mlle_licensing.c"],
  [("receive loop exit", "src/lve/mlle_lve.c:mlle_lve_receive"), ("shutdown", "src/lve/mlle_lve.c:mlle_lve_shutdown"), ("pipe ends", "src/tool/mlle_spawn_posix.c:mlle_spawn")],
  ["exit of the LVE process", "licence manager open/close calls"])

p("C08", "The tool never hangs, dies or reports success when the LVE fails",
  "If the LVE cannot be started, dies at any instant, or answers with garbage, an unexpected or an over-long reply, every pending and later call of the tool API returns in bounded time, and reports failure together with an error message unless its reply had arrived in full. The process that uses the tool library is neither killed nor left blocked.",
  ["crash_points", "fault_sequences", "schedules"],
  "every instant of LVE death, every failing system call while starting it, every malformed reply, for each API call",
  "Tests never lose the LVE; a hang or a signal shows up only when the death lands inside a specific read or write.",
  ["src/tool/mlle_spawn_posix.c", "src/tool/mlle_licensing.c", "src/tool/mlle_ssl_tool.c", "src/common/mlle_utils.c"],
  [("spawn", "src/tool/mlle_spawn_posix.c:mlle_spawn"), ("reply read", "src/common/mlle_utils.c:mlle_read_command"), ("handshake", "src/tool/mlle_ssl_tool.c:tool_perform_handshake")],
  ["return values and error objects of the tool API", "survival of the tool process"])

p("C09", "Licence replies mirror the licence manager's decision exactly",
  "A FEATURE request is answered YES exactly when the licence manager granted that exact feature for the library of the session, and otherwise NO with the manager's reason; RETURNFEATURE releases exactly the named feature and reports the manager's failure; a licence manager that cannot be set up gives an ERROR, and is tried again by the next licence request. The command line checkout exits 0 exactly when the feature was granted. The licence manager that comes with the project grants exactly its one test feature.",
  ["histories", "fault_sequences", "inputs"],
  "every history of feature requests and returns against a licence manager that grants, refuses, fails or fails to start at any call",
  "The licence manager of the tests grants one fixed name and never fails.",
  ["src/lve/mlle_lve_feature.c", "src/lve/lve.c", "src/tool/mlle_licensing.c"],
  [("checkout", "src/lve/mlle_lve_feature.c:mlle_lve_feature"), ("command line checkout", "src/lve/lve.c:_checkout_feature")],
  ["tool API results and error codes", "recorded licence manager calls", "exit status of the LVE"])

p("C10", "With a global licence, no file leaves the LVE without that licence",
  "When the LVE is built with a global licence feature, a library session delivers file content only if that feature was granted when the library path was set; if it was refused or the licence manager failed, the LIB request and all later file requests get the licence error with the manager's reason, for the rest of the session. With the licence granted the session behaves as without a global licence.",
  ["histories", "fault_sequences", "configurations"],
  "every outcome of the licence manager at every call and every command history, for trusted and untrusted tools",
  "The tests never build this configuration.",
  ["src/lve/mlle_lve_libpath.c", "src/lve/mlle_lve_file.c"],
  [("global licence gate", "src/lve/mlle_lve_libpath.c:mlle_lve_libpath")],
  ["replies to LIB and FILE", "recorded licence manager calls"])

p("C11", "Neither side's memory can be corrupted by its peer's messages",
  "No message stream from a TLS peer, well-formed or not, and no raw bytes before the handshake, makes the LVE or the tool library read or write outside its buffers, use freed memory, or crash; the LVE answers or ends the session, and tool calls return.",
  ["inputs", "histories", "schedules"],
  "every message sequence (wrong, negative, huge and too small lengths, missing newline, missing data, embedded zero bytes, surplus data, empty messages, non-TLS bytes) in every state, in both directions, with every TLS record division",
  "Tests use conforming peers; the length handling is exercised with consistent lengths only.",
  ["src/common/mlle_utils.c", "src/common/mlle_ssl.c", "src/common/mlle_parse_command.c", "src/lve/mlle_lve.c", "src/tool/mlle_licensing.c"],
  [("data extraction", "src/common/mlle_utils.c:extract_data"), ("reply read", "src/common/mlle_utils.c:mlle_read_command")],
  ["faults trapped by guarded allocations and stack protector", "process crash"])

p("C12", "encrypt_file: success means a complete, decryptable output",
  "Whatever read, write, close, disk-full, allocation or entropy failure occurs, if encrypt_file exits with status 0 the named output file decrypts in its library to exactly the input, starts with a fresh random IV and can serve as parent of later files; otherwise it exits non-zero and leaves no output of its own, except after a kill, out of memory or when the removal itself fails. Without a fault it succeeds, and it never modifies its input or any other file.",
  ["fault_sequences", "crash_points", "inputs"],
  "every placement of an I/O, disk-full, allocation or entropy fault in the encryption of every file of a library, with and without base directory",
  "Tests encrypt and decrypt on a healthy disk; buffered data is lost only when the final flush fails.",
  ["src/encrypt_decrypt/encrypt_file.c", "src/decryptors/default/src/mlle_cr_encrypt.c"],
  [("encryption stream", "src/decryptors/default/src/mlle_cr_encrypt.c:mlle_cr_encrypt"), ("close and exit status", "src/encrypt_decrypt/encrypt_file.c:main")],
  ["exit status", "files after exit, as decrypted by the LVE or decrypt_file on a healthy disk"])

p("C13", "decrypt_file: success means the exact plaintext, failure leaves nothing",
  "Whatever read, write, close, disk-full or allocation failure or damage to the encrypted files occurs, if decrypt_file exits with status 0 its output is exactly the original plaintext; otherwise it exits non-zero and leaves no output of its own, except after a kill, out of memory or when the removal itself fails. Intact files decrypt when there is no fault, and other files are never modified.",
  ["fault_sequences", "inputs"],
  "every placement of I/O, disk-full and allocation faults and every damage to the encrypted file or to the package files above it",
  "Tests decrypt intact files on a healthy disk.",
  ["src/encrypt_decrypt/decrypt_file.c", "src/decryptors/default/src/mlle_cr_decrypt.c"],
  [("exit status and removal", "src/encrypt_decrypt/decrypt_file.c:main")],
  ["exit status", "output file after exit"])

p("C14", "packagetool: exit 0 means a complete and exact library archive",
  "If packagetool exits 0, the archive holds exactly the library: every file (each Modelica file replaced by its encrypted form when encryption was asked for, decryptable to exactly the source), the extra files and the requested LVEs, each with its exact content and (encrypted files aside) its permissions, and a well-formed manifest whose icon and executables are entries of the archive and whose values are those given. Any failure to read, copy, encrypt, write or archive any of them gives a non-zero exit; a valid call on a healthy system succeeds.",
  ["fault_sequences", "inputs", "configurations"],
  "every library tree and every placement of read, write, close, mkdir, opendir, disk-full, allocation and archive-writer failures in a packaging run",
  "packagetool has no test on a failing disk; most of its I/O results decide silently whether an archive is whole.",
  ["src/packagetool/utils.c", "src/packagetool/packagetool.c", "src/packagetool/manifest.c"],
  [("staging copy", "src/packagetool/utils.c:copyDirectoryLinux, copyFile"), ("encryption", "src/packagetool/utils.c:encryptFile"), ("manifest", "src/packagetool/manifest.c:createManifestFile"), ("archive", "src/packagetool/utils.c:zipDirectoryLinux, addFileToZipArchive")],
  ["exit status", "entries handed to the archive writer and the resulting archive"])

p("C15", "An encrypted container never carries plaintext Modelica source",
  "When packagetool was asked to encrypt, no archive that it leaves behind contains any plaintext Modelica source file, or any recognisable part of one, whether the run succeeded, failed or was killed at any point. No entry is a Modelica source, in any spelling of its extension.",
  ["fault_sequences", "crash_points", "inputs"],
  "every tree (names in any letter case, hidden files, nested directories), every fault and every kill point of a packaging run",
  "Only a fault between copy, encryption, removal of the plaintext and archiving can leak it; tests run none.",
  ["src/packagetool/utils.c"],
  [("encrypt then remove", "src/packagetool/utils.c:encryptDirectoryLinux"), ("archive filter", "src/packagetool/utils.c:zipDirectoryLinux")],
  ["content of every archive entry written"])

p("C16", "packagetool never alters its source library and cleans up its staging area",
  "Whatever happens during a packaging run (any failure, or a kill at any point), the source library, the LVE directory and every file other than the archive and the run's own staging directory keep their exact content, names and permissions. After a run that reports success without complaint, no staging directory, and so no plaintext copy of the library, is left.",
  ["fault_sequences", "crash_points", "inputs"],
  "every tree and every fault or kill point",
  "Deleting and encrypting in place are done by recursive walks on computed paths; tests do not compare the rest of the file system.",
  ["src/packagetool/utils.c"],
  [("recursive removal", "src/packagetool/utils.c:removeFolderLinux"), ("in-place encryption", "src/packagetool/utils.c:encryptDirectoryLinux")],
  ["whole simulated file system before and after"])

p("C17", "Sessions and failed starts leak no descriptors or open files",
  "After any number of sessions, successful or failed at any point of their start or life, the tool process has the same open descriptors as before once each connection is freed, and the LVE holds no library file open between two requests. A started LVE inherits only its standard streams and the two pipes of its own session, and none of another session.",
  ["histories", "fault_sequences", "schedules"],
  "every history of starts, requests, failures and closes, with failing pipe, fork, allocation, exec, open, stat and read calls",
  "Leaks show only over long histories or after failures, which tests do not have.",
  ["src/tool/mlle_spawn_posix.c", "src/tool/mlle_licensing.c", "src/common/mlle_io.c"],
  [("pipe set-up and error paths", "src/tool/mlle_spawn_posix.c:mlle_spawn"), ("connection free", "src/tool/mlle_licensing.c:mlle_connections_free"), ("file read", "src/common/mlle_io.c:mlle_io_read_file")],
  ["descriptor table of each simulated process"])

p("C18", "Concurrent sessions do not influence each other",
  "When one or several tools hold several sessions at once, on the same or on different libraries and licences, and interleave their calls in any way (a tool may give each started session to a thread of its own), every session gets exactly the results it would get alone. The end, failure or death of one session does not end, block or change another.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of the calls and of the processes of up to four sessions, with any of them ending or dying at any instant",
  "Tests hold one session at a time.",
  ["src/tool/mlle_spawn_posix.c", "src/tool/mlle_licensing.c", "src/tool/mlle_ssl_tool.c", "src/lve/mlle_lve.c"],
  [("per-session state", "src/tool/mlle_types.h:struct mlle_connections"), ("spawn", "src/tool/mlle_spawn_posix.c:mlle_spawn")],
  ["results of every session against a single-session reference"])

p("C19", "Decrypted source and keys leave the LVE only inside TLS to an allowed tool",
  "No byte stream that the LVE produces outside its TLS connection contains decrypted source text, a library key or a key mask: not the raw pipe between the processes, not standard error, not the log file, not any file of the file system. This holds with logging switched on, on every error path and with any fault.",
  ["fault_sequences", "histories", "configurations"],
  "every session history, with logging on or off, under every injected fault",
  "Tests do not look at the raw pipe, the log or standard error at all.",
  ["src/common/mlle_ssl.c", "src/common/mlle_io.c", "src/decryptors/default/src/mlle_cr_decrypt.c", "src/lve/mlle_ssl_lve.c"],
  [("log", "src/common/mlle_io.c:mlle_log_open"), ("key log", "src/decryptors/default/src/mlle_cr_decrypt.c:mlle_debug_log_key"), ("transport", "src/lve/mlle_ssl_lve.c:ssl_setup_lve")],
  ["all bytes written to pipes, standard streams, log and files by the simulated LVE"])

p("C20", "Version negotiation succeeds exactly when both sides' ranges admit it",
  "A tool's version request succeeds exactly when the tool's highest version is at least the LVE's lowest and the version the LVE answers lies in the tool's range, and otherwise fails with an error; after a refused version the session stays in the version step, so the tool may offer a higher version, and no other command is obeyed. This holds for peers of any other version, and for every fragmentation and interleaving.",
  ["configurations", "histories", "schedules"],
  "every pair of version ranges, including peers built with other ranges and repeated offers, over every history",
  "Tests use matching versions, and one too low one.",
  ["src/lve/mlle_lve.c", "src/tool/mlle_licensing.c", "src/lve/mlle_lve_config.h"],
  [("LVE side", "src/lve/mlle_lve.c:mlle_lve_handle_command"), ("tool side", "src/tool/mlle_licensing.c:mlle_tool_version")],
  ["result of mlle_tool_version against LVEs of any version", "replies to a raw peer offering any version"])

p("C21", "Key header generators: exit 0 means a complete and exact key header",
  "If obfuscate exits 0, the header it wrote declares, initialises and clears exactly the key of its input file (carriage returns removed), with the right length, terminated; if randomize_key exits 0, its header holds a key of 32 fresh random bytes. Any failure to read, allocate, draw random bytes or write gives a non-zero exit with a message; without a fault both succeed, and no other file is changed.",
  ["fault_sequences", "inputs", "crash_points"],
  "every key file (any bytes, with and without carriage returns), every random key, and every placement of open, read, write, close, stat, disk-full, allocation and entropy failures",
  "The build runs the generators on a few fixed keys on a healthy disk; a random key containing one particular byte, or a header cut off by a full disk, shows up only as undecryptable libraries later.",
  ["src/embedfile/obfuscate.c", "src/embedfile/obfuscate_utils.c", "src/embedfile/randomize_key.c", "src/obfuscators/dummy/src/obfuscator.c"],
  [("header writer", "src/embedfile/obfuscate_utils.c:create_header_file"), ("key bytes", "src/obfuscators/dummy/src/obfuscator.c:write_initialize_key_macro_body"), ("random key", "src/embedfile/randomize_key.c:generate_random_bytes")],
  ["exit status", "the generated header, read back"])

p("C22", "Memory does not grow with the number of requests and sessions",
  "However many requests a session carries, of whatever kind and with whatever outcome (served, refused, malformed, damaged file, missing licence, unexpected reply), the memory that the LVE and the tool library hold for it stays bounded: repeating a request does not make either of them hold more. Once its results, errors and connections have been freed, the tool library holds no more memory after many sessions or failed starts than after a few.",
  ["histories", "inputs", "schedules"],
  "every round of requests repeated any number of times in a session, and every kind of session, complete, failed at its start or killed, repeated any number of times by one tool",
  "Tests make a handful of requests in one session and do not look at the memory held; a leak on an error path shows only as a tool that grows over days.",
  ["src/tool/mlle_licensing.c", "src/tool/mlle_ssl_tool.c", "src/common/mlle_ssl.c", "src/common/mlle_utils.c", "src/lve/mlle_lve.c", "src/lve/mlle_lve_file.c", "src/decryptors/default/src/mlle_cr_decrypt.c"],
  [("reply handling", "src/tool/mlle_licensing.c:mlle_expect_command"), ("request loop", "src/lve/mlle_lve.c:mlle_lve_receive"), ("connection set-up", "src/tool/mlle_ssl_tool.c:ssl_setup_tool"), ("decryption", "src/decryptors/default/src/mlle_cr_decrypt.c:mlle_cr_decrypt")],
  ["memory blocks held by LVE and tool process between two rounds of requests, their own and OpenSSL's"])

p("C23", "With any conforming LVE, a tool call is one exact request and reports exactly its reply",
  "For every LVE that follows the protocol, each call of the tool library sends exactly one request, with its argument unaltered whatever bytes and length it has, and returns what that request's own reply says: success for YES, the exact bytes of the file content, and otherwise a failure that carries the LVE's reason and tells a refused licence, a missing simplified licensing and an error apart. This holds however the data of a reply is divided into TLS records and delayed, and after any failed call, a failed allocation in the tool included: no call ever reports the reply to another one.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "every sequence of tool calls with any arguments against every conforming sequence of replies, every division into records, every delay and every placement of failed allocations in the tool",
  "Tests call the library with a few short arguments against the one LVE of this repository; long or odd arguments, other vendors' replies and a session that continues after a failure do not occur in them.",
  ["src/tool/mlle_licensing.c", "src/common/mlle_utils.c", "src/common/mlle_io.c", "src/common/mlle_ssl.c", "src/common/mlle_parse_command.c", "src/common/mlle_error.c"],
  [("calls", "src/tool/mlle_licensing.c:mlle_expect_commands"), ("reading a reply", "src/common/mlle_utils.c:mlle_read_command"), ("sending a request", "src/common/mlle_io.c:mlle_send_length_form")],
  ["requests received by a conforming stand-in LVE", "results, contents and errors of the tool library's calls"])

p("C24", "A command line that cannot be obeyed is refused and changes nothing",
  "A program that is given a command line it cannot obey ends by itself with a non-zero exit status and a message, checks out no licence and changes no file: packagetool with an unknown or repeated argument, an argument without a value, a missing mandatory argument, a library path that is no directory, a tools, dependencies or icon file that does not exist, or encryption without any LVE; the LVE with an unknown option, a repeated one, one without its value, a checkout without a library or with a library path that is no directory, or a version or help request with anything else; encrypt_file, obfuscate and randomize_key with a wrong number of arguments, decrypt_file with too few, obfuscate with an unknown kind of key, encrypt_file and obfuscate with an input that does not exist, encrypt_file with an empty output name, or encrypt_file or decrypt_file with a file name longer than they support. The refusal stays one under failing system calls, and a run beside it is not disturbed. A help or version request alone succeeds, prints something and changes nothing.",
  ["inputs", "fault_sequences", "schedules"],
  "every command line of these kinds, in any order of its parts and on any state of the disk, every placement of read, stat, allocation and disk failures, and every interleaving with a run that is in order",
  "No test starts a program with a wrong command line; a wrong option taken for a right one overwrites an archive or takes a licence only in the field.",
  ["src/packagetool/arguments.c", "src/packagetool/packagetool.c", "src/lve/lve.c", "src/encrypt_decrypt/encrypt_file.c", "src/encrypt_decrypt/decrypt_file.c", "src/embedfile/obfuscate.c", "src/embedfile/randomize_key.c"],
  [("packagetool's arguments", "src/packagetool/arguments.c:validateArguments"), ("mandatory ones", "src/packagetool/arguments.c:validateMandatoryArguments"), ("the LVE's options", "src/lve/lve.c:main"), ("encrypt_file", "src/encrypt_decrypt/encrypt_file.c:main")],
  ["exit status and output", "every file before and after", "calls of the licence manager"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
