#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json. Usage: tools/props.py
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append((id, {"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, note))

NOTEST = "No existing test touches this package."
prop("C01", "A spin lock has at most one holder, however long it is held",
 "Between the return of Lock and the matching Unlock of a SpinLock no other Lock call returns, for any number of goroutines and however long the holder is preempted or stalled inside the critical section; a waiter that gives up panics and never enters. Every holder sees all memory effects of all earlier holders.",
 ["schedules", "histories"], "every interleaving of Lock and Unlock calls, with any goroutine stalled at any point for any time",
 NOTEST + " Exclusion is a statement about all schedules; a test samples those the Go scheduler happens to produce.",
 ["sync/spinlock.go"], [("compare-and-swap on the lock word", "sync/spinlock.go Lock/Unlock")],
 "seeded schedules with stalls of holders and waiters; oracle: intervals of recorded holders never overlap and a counter kept in plain memory is exact; race-detector build for visibility", observe=["Lock and Unlock returns", "a plain counter in the critical section"])
prop("C02", "A reader-writer spin lock keeps writers alone and lets readers share",
 "A write holder of an RWSpinLock excludes every other reader and writer, and readers exclude only writers: two readers can hold the lock at the same time. Whoever holds the lock sees all memory effects of all earlier write holders.",
 ["schedules", "histories"], "every interleaving of Lock, Unlock, RLock and RUnlock calls, with stalls at any point",
 NOTEST + " Overlap of a reader with a writer needs particular interleavings of several atomic operations.",
 ["sync/spinrwlock.go"], [("writer flag and reader count in one atomically updated word", "sync/spinrwlock.go")],
 "seeded schedules with stalls; oracle: no write interval overlaps any other, plain-memory counters exact, two readers rendezvous inside the lock; race-detector build for visibility")
prop("C03", "Spin lock waiters get in once holders leave, or give up loudly",
 "On either spin lock, once the current holders release, some waiting call returns, and a free lock is acquired at once after any history of use. A call that waits on a lock that is never released ends in a panic instead of spinning silently for ever, it does not give up on a lock that is only briefly held, and after such a panic the lock still works for everyone else.",
 ["schedules", "histories", "fault_sequences"], "every interleaving, with holders that are stalled or stop for good at any point",
 NOTEST + " Progress is a statement about all continuations; a stuck waiter makes a test hang, a lost wake-up or leaked hold shows only after particular histories.",
 ["sync/spinlock.go", "sync/spinrwlock.go"], [("bounded spinning with a yield, then panic", "sync/spinlock.go Lock, sync/spinrwlock.go Lock and RLock")],
 "fair seeded schedules once faults stop; every waiter must acquire within a bounded number of steps; holders crashed for good make waiters panic; the lock is probed after every history")
prop("C04", "Releasing a spin lock that is not held is refused and harmless",
 "Unlock or RUnlock of a lock that is not held in that mode panics, and when several releases race for one hold exactly one of them succeeds. A refused release leaves the lock exactly as it was, so that current holders keep it and later calls behave as if the refused release had not happened.",
 ["schedules", "histories"], "every sequence and interleaving of correct and incorrect releases",
 NOTEST + " The number of misuse histories is unbounded and the racing case needs an interleaving inside the release.",
 ["sync/spinlock.go", "sync/spinrwlock.go"], [("release checks the state it replaces", "sync/spinlock.go Unlock, sync/spinrwlock.go Unlock and RUnlock")],
 "random sequential histories against a reference lock, and racing releases under seeded schedules counted against the holds")
prop("C05", "A shared generator behaves as if its calls came one after the other",
 "The values returned by concurrent calls on one 32-bit or 64-bit generator, own or package-level, are those of some sequential order of the calls that respects real time. No draw is handed out twice, skipped or torn, whatever mix of Rand, RandMax, RandRange, Seed and Srand runs concurrently.",
 ["schedules", "histories"], "every interleaving of calls on a shared generator",
 "math/rand does not build at this commit and its test file runs nothing.",
 ["math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go"], [("compare-and-swap of the generator state", "math/rand Rand32T.Rand, Rand64T.Rand")],
 "recorded histories checked for linearizability against a sequential generator of the same code; race-detector build")
prop("C06", "Generators seed themselves differently and stay in range",
 "Generators created without a seed get different seeds from each other, even when they are created concurrently or at the same instant or the clock stands still or steps back. A draw from a range lies between the two bounds inclusive, given in either order and up to the full range of the type, and a draw below n lies below n for every n of at least 1; no draw panics.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving of creations, every clock behaviour, every pair of bounds",
 "math/rand does not build at this commit and its test file runs nothing; equal time stamps and extreme bounds do not occur in a normal run.",
 ["math/rand/rand.go", "math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go"], [("seed mixes the clock with a counter", "math/rand/rand.go RandSeed"), ("width of the range", "math/rand RandRange")],
 "seeded schedules with frozen and jumping clocks for the seeds; seeded bounds including both ends of the type for the draws")
prop("C07", "Random strings have the asked length, the alphabet, and no shared draws",
 "strings.Rand returns exactly the number of characters asked for, each an upper-case letter, and every letter can occur. Strings made concurrently never contain the same stretch of draws, and a returned string never changes afterwards.",
 ["schedules", "inputs"], "every interleaving of callers and every length",
 "strings does not build at this commit; its test prints from one goroutine.",
 ["strings/rand.go"], [("a fresh buffer per call filled from the shared generator", "strings/rand.go Rand")],
 "seeded schedules of concurrent callers; oracle: length, alphabet, coverage of the alphabet in long strings, no window of 11 characters occurs twice, copies taken at return equal the strings at the end")
prop("C08", "Copying to several destinations gives each the exact stream",
 "When Copys or CopysBuffer reports success, every destination has received exactly the bytes of the source, in order and without gaps or repeats; at every moment what a destination has received is a prefix of the source. This holds for every way the source splits or ends its data, for every buffer size, and whatever optional interfaces source and destinations implement, and nothing outside the given buffer is written.",
 ["inputs", "schedules", "configurations"], "every segmentation of the reads, every buffer, every set of destinations, with concurrent copies",
 "io has no test; equality on one happy-path copy says nothing about other segmentations or optional interfaces.",
 ["io/io.go"], [("one read, then one write per destination, in rounds", "io/io.go copyBuffer")],
 "scripted readers and writers with seeded segmentation, optional interfaces and concurrency; byte-exact oracle with canaries around the buffer")
prop("C09", "A failing multi-copy reports the failure and an honest count",
 "A failed read, a failed write or a write that takes fewer bytes than offered ends the copy with that error and nothing is written after it; data read before a source error is still delivered. The returned count equals the stream length on success and, on error, the bytes of the completed rounds: never more than every destination received.",
 ["fault_sequences", "inputs"], "every position and kind of read and write failure",
 "io has no test; failures at a particular byte of a particular destination do not occur without injection.",
 ["io/io.go"], [("error and short-write checks after every call", "io/io.go copyBuffer")],
 "read errors, write errors and short writes injected at seeded points; oracle computed from the recorded calls")
prop("C10", "The meaning of an INI file depends only on its bytes",
 "Loading an INI file gives the same sections, keys and values however the bytes arrive, with lines of any length, either line ending and with or without a final newline. Lines that start with a semicolon, keys before the first section and empty keys are ignored, space around keys and values does not count, a key without an equals sign is empty, the first equals sign splits, the last value of a key wins, repeated sections merge, and lookups of missing entries give the default; concurrent readers of a loaded file agree.",
 ["inputs", "schedules"], "every file content and every segmentation of reads",
 NOTEST + " A test of one small file read in one piece says nothing about other contents or segmentations.",
 ["encoding/ini/ini.go"], [("line reader joins continued prefixes", "encoding/ini/ini.go"), ("section map", "encoding/ini/ini.go")],
 "seeded file contents and read segmentations over the simulated file system against an independent reference parser; concurrent readers")
prop("C11", "INI read failures are reported and leave no half lines",
 "When the file cannot be opened or a read fails, New reports it, and what was loaded is exactly the complete lines before the failure. The file is closed on every path.",
 ["fault_sequences", "inputs"], "every open, read and close failure at every byte position",
 NOTEST + " Reads do not fail without injection.",
 ["encoding/ini/ini.go"], [("error returned from the line loop", "encoding/ini/ini.go")],
 "open, read and close errors and short reads injected at seeded positions of the simulated file system; reference parser over the delivered prefix; open-handle accounting")
prop("C12", "Every hash method obeys the streaming contract",
 "For MD5, SHA1, SHA256, SHA512, CRC32, CRC64 and the fingerprint, the digest depends only on the bytes written since the last reset and not on how they were split; Sum appends to what it is given without changing the state or the caller's bytes, Size is the length of the digest, and Write takes all bytes. The fingerprint joins the length and parts of the three digests of the same data, and string hashes agree with the streaming ones.",
 ["inputs", "histories", "schedules"], "every sequence of writes, sums and resets on any number of hashes at once",
 NOTEST + " The contract speaks about every sequence of calls.",
 ["hash/hash.go", "hash/finger_print.go"], [("embedded standard hashes", "hash/hash.go New"), ("fan-out to three hashes", "hash/finger_print.go")],
 "seeded operation sequences on concurrently used hashes against the standard library applied to the concatenated bytes")
prop("C13", "The none hash gives every hash its own stable id",
 "Every hash created with the none method has an id different from all others in the process, also when they are created concurrently. Writing, resetting and summing never change the id, and Sum appends it to what it is given.",
 ["schedules", "histories"], "every interleaving of creations and uses",
 NOTEST + " Duplicates need two creations to interleave.",
 ["hash/none_hash.go"], [("atomic counter", "hash/none_hash.go")],
 "seeded schedules of concurrent creation and use; uniqueness over the whole run; race-detector build")
prop("C14", "AES sessions deliver every message intact, and only with the key",
 "Messages encrypted in one AES session and decrypted in the same order in another session with the same key come out byte for byte, whatever their lengths and mix of byte and string calls, while other sessions run concurrently and callers overwrite keys, inputs and earlier results as soon as a call returns. A session with a different key does not recover them, keys of other than 16, 24 or 32 bytes are refused with an error, and padding and unpadding are inverse for every length and block size.",
 ["inputs", "schedules", "histories"], "every message sequence, key and interleaving of sessions",
 NOTEST + " Chaining across messages and buffer reuse matter only in sequences.",
 ["crypto/aes/aes.go", "crypto/padding.go"], [("CBC chaining kept in the session", "crypto/aes/aes.go"), ("PKCS7 padding into a fresh buffer", "crypto/aes/aes.go")],
 "senders and receivers as tasks with seeded messages and schedules; callers reuse every buffer; a party with a neighbouring key")
prop("C15", "Damaged ciphertext never crashes or derails a session",
 "Whatever bytes are given to Decrypt or to an unpadding function, it returns no more bytes than it was given and does not panic. Input that is not a whole number of blocks is refused with an empty result and leaves the session as it was; after lost, repeated, reordered or damaged messages an intact message loses at most its first block, and an intact message that follows its predecessor's last block comes out whole.",
 ["inputs", "fault_sequences", "histories"], "every sequence of damaged, lost, repeated, reordered and truncated messages",
 NOTEST + " No test feeds damaged input.",
 ["crypto/aes/aes.go", "crypto/padding.go"], [("length checks before decryption and unpadding", "crypto/aes/aes.go, crypto/padding.go")],
 "message loss, duplication, reordering, truncation and corruption on a simulated link; oracle tracks the chaining block of the delivered history")
prop("C16", "The crypto packages never write the caller's memory",
 "No function of crypto, crypto/aes, crypto/ecb and crypto/rsa changes the data, keys or spare capacity of the slices it is given, and what it encodes or encrypts shares no memory with them. Slices that lie next to each other in one buffer can be used concurrently.",
 ["inputs", "schedules"], "every length and capacity of the arguments and every interleaving of callers",
 NOTEST + " A write into spare capacity is invisible unless another user of the memory looks.",
 ["crypto/padding.go", "crypto/aes/aes.go", "crypto/ecb/ecb.go", "crypto/rsa/code.go"], [("results in fresh buffers", "crypto/padding.go, crypto/aes/aes.go, crypto/ecb/ecb.go")],
 "concurrent callers work on neighbouring slices of one arena, results are overwritten, the arena is compared at the end; race-detector build")
prop("C17", "The RSA channel and its codecs round-trip and detect tampering",
 "What a client encrypts only the server with the matching private key recovers, exactly; a signature is accepted for exactly the data, key and hash it was made with, and malformed or non-RSA key material is refused with an error. Encode and Decode (and their string forms and the triple-DES functions below them) restore every input that does not end in a zero byte and never panic on damaged input; the keyed hash depends on every byte. Any of this may run concurrently, and a failing random source gives an error rather than a bad result.",
 ["inputs", "schedules", "fault_sequences"], "every message, corruption, key material and interleaving, with the random source failing",
 "The rsa tests do not build at this commit and sample one message with one goroutine.",
 ["crypto/rsa/rsa.go", "crypto/rsa/code.go", "crypto/ecb/ecb.go"], [("PKCS#1 v1.5 from the standard library", "crypto/rsa/rsa.go"), ("three DES passes and zero padding", "crypto/ecb/ecb.go")],
 "clients and servers as tasks, damaged messages, signatures and key material, injected failure of the random source")
prop("C18", "Error ids are unique, stable and keep their names",
 "Every successful registration gives an id no other registration has, and that id keeps the name it was registered with for ever, also when many goroutines register and look up at once; the predefined ids for unknown and standard errors stay distinct from all others. When the ids are used up registration reports an error and changes nothing, ids never given out are reported as invalid, and the listing shows every registered name under its id. An error built from an id and text shows that text unchanged.",
 ["schedules", "histories", "inputs"], "every interleaving of registrations, lookups and listings, up to and beyond exhaustion",
 "The package does not build at this commit, so nothing tests it.",
 ["errors/errors.go", "errors/with_id.go", "errors/with_id_string.go"], [("registry under one lock", "errors/errors.go Reg/Get")],
 "seeded concurrent registrations and lookups against a reference registry, runs near and past exhaustion in fresh processes; race-detector build")
prop("C19", "Registered variables are found by their ids and never by others",
 "Every id given out by a registrar leads to the value and name it was registered with, and its registrar and number; the object form, the id taken from an object and the string form agree with it. Concurrent sets and gets of a variable behave as an atomic register per variable. Ids never given out are invalid and are reported so without a panic, a full registrar refuses further registrations without changing earlier ones, and nothing can be registered after registration is finished.",
 ["histories", "schedules", "inputs"], "every sequence of registrations, every id value, every interleaving of gets and sets",
 "The package does not build at this commit, so nothing tests it.",
 ["regable/reg.go", "regable/regable.go"], [("two-part id into registrar and record lists", "regable/reg.go get"), ("lock per record", "regable/reg.go")],
 "seeded registration histories against a reference registry, then concurrent gets and sets checked for linearizability per variable")
prop("C20", "A directory fingerprint is complete or an error, and order does not matter",
 "Fingerprint and Hash of a path either fail with an error or describe every file and directory below it: trees with equal content give equal results whatever their names and whatever order the system lists entries in, and a changed byte, or an added or removed byte, file or directory, changes the result. A read, open or listing failure anywhere below the path is reported, and every opened file is closed on every path.",
 ["inputs", "fault_sequences", "schedules"], "every tree, listing order and position of an I/O failure",
 "The package does not build at this commit; its tests print.",
 ["fs/file_path.go"], [("recursive hash over sorted children", "fs/file_path.go Fingerprint/Hash")],
 "random trees on a simulated file system with shuffled listing order, short reads and injected failures; reference digests and differential changes; handle accounting")
prop("C21", "Directory listings and statistics are complete or say what failed",
 "GetSubs, GetSubFiles, GetSubDirs, GetLeafDirs and GetDeepFiles return exactly the entries their names promise, in any order, or an error; a listing failure anywhere in the part they visit is reported. Statistic counts every file, directory and byte below the path and names what it could not read.",
 ["inputs", "fault_sequences"], "every tree, listing order and position of an I/O failure",
 "The package does not build at this commit; its tests print.",
 ["fs/fs.go", "fs/file_path.go"], [("recursive collection", "fs/fs.go CollectSubs"), ("walk", "fs/file_path.go Statistic")],
 "random trees on a simulated file system with shuffled order and injected failures against a reference listing; handle accounting")
prop("C22", "Path operations do exactly the system operation on exactly that path",
 "Rename, Move, Link, Symlink, Remove, Mkdir, Truncate, Create, Open and the other operations of a path object have the effect of the corresponding system call on that path and return its error; a relative destination is taken relative to the directory of the object's own path and an absolute destination as given. A failed operation leaves the tree as it was, and the path returned on success names the new place.",
 ["inputs", "fault_sequences", "histories"], "every sequence of operations, every path and injected failure",
 "The package does not build at this commit; its tests print.",
 ["fs/file_path.go"], [("destination resolution", "fs/file_path.go relateThisPath"), ("delegation to os", "fs/file_path.go")],
 "seeded operation sequences with injected failures on one simulated file system, the direct system calls on a twin, trees compared after every step")
prop("C23", "A file lock has at most one holder among all processes",
 "Between the success of Lock and the matching Unlock no other Lock on the same file succeeds, in the same process through the same or another object or in any other process. A failed Lock holds nothing, Unlock of an object that is not held does not free what another object holds, and an object keeps the file it was first given.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of any number of processes and goroutines with failing system calls",
 "The package builds only on Windows and has no tests.",
 ["sync/filelock/mutex.go"], [("exclusive open of the lock file", "sync/filelock/mutex.go")],
 "several simulated processes over a simulated Windows file table, seeded schedules and failing calls; holder intervals checked against the file table")
prop("C24", "A file lock is passed on after release or death of its holder",
 "Once the holder unlocks or its process dies, some waiting Lock on the file succeeds within a bounded time, and any number of lock and unlock rounds leak no handle. A Lock that fails for another reason than a current holder, as for a missing file, reports that error instead of waiting.",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving, with processes killed at any step",
 "The package builds only on Windows and has no tests.",
 ["sync/filelock/mutex.go"], [("polling with a timer", "sync/filelock/mutex.go")],
 "seeded schedules with simulated clock, process crashes at any step, handle accounting; bounded simulated time to acquisition")
prop("C25", "The lock-free queue loses, repeats and invents nothing",
 "Concurrent PushFront, PopFront, Clear and Empty calls on a lock-free queue return results that some one-after-the-other order of the calls explains, last in first out: every pushed value is popped at most once and a pop reports nothing only if the queue could have been empty. A goroutine that stops inside a call does not keep the others from finishing theirs. When no call is running, draining gives exactly what was pushed and not popped or cleared, and the size equals it.",
 ["schedules", "histories", "crash_points"], "every interleaving of any number of pushing, popping and clearing goroutines",
 "The template is never instantiated by a test.",
 ["stl/gp/lfqueue.gp.go", "stl/gp/lfqueue.gp"], [("linked list with compare-and-swap at its head", "stl/gp/lfqueue.gp.go")],
 "instances of both template forms under seeded schedules with stalls and crashes; linearizability against a stack model including the final drain, size at quiescence; race-detector build")
prop("C26", "The lock-free ring buffer loses, repeats and reorders nothing",
 "Successful pushes and pops on a lock-free ring buffer, blocking or not, are those of some sequential first-in first-out buffer of its capacity; a non-blocking push fails only when at some moment of the call as many values as the capacity were inside or being pushed, a non-blocking pop only when none was inside or all were being popped, and a failed call has no effect. The capacity is the asked size, at least 8, rounded up to a power of two; the size lies between zero and the capacity at all times and is exact when no call is running. Blocking calls return once there is room or data.",
 ["schedules", "histories", "configurations"], "every interleaving of any number of producers and consumers, every capacity",
 "The template is never instantiated by a test.",
 ["stl/gp/ringbuffer.gp.go"], [("reservation and publication counters", "stl/gp/ringbuffer.gp.go")],
 "an instance of the template under seeded schedules with stalls; linearizability of the successful calls against a bounded FIFO, counting bounds for refused calls and sizes, progress of blocking calls; race-detector build")
prop("C27", "The lock-free deque loses, repeats and reorders nothing",
 "The results of pushes and pops at both ends of a lock-free deque are those of some sequential double-ended queue with room for one value less than its buffer size; a push returns only when there is room and a pop fails only when the deque could be empty. Size and Empty are exact at some moment of the call, and draining at the end gives exactly what was pushed and not popped.",
 ["schedules", "histories", "configurations"], "every sequential history and every interleaving of a pushing with a popping goroutine and any number of observers, every buffer size from 2; overlapping pushes or overlapping pops are the known finding C27-multi",
 "The template is never instantiated by a test.",
 ["stl/gp/lfdeque.gp.go", "stl/gp/lfdeque.gp"], [("head and tail packed in one word, changed by compare-and-swap", "stl/gp/lfdeque.gp.go")],
 "instances of both template forms under seeded schedules and sequential histories; linearizability against a bounded deque model; the known loss with overlapping pushes is replayed and listed; race-detector build")
prop("C28", "A backtrace describes the calling goroutine and nothing else",
 "The caller and backtrace functions of debug describe the stack of the goroutine that calls them: the named function, file and line are those of the frame at the asked depth, frames come innermost first, the asked depth is honoured and lists give up to 50 frames, while any number of goroutines trace at once. Depths beyond the stack give an empty result and no panic; a failed Assert panics with the backtrace and a true one returns.",
 ["schedules", "inputs"], "every call depth, every interleaving of tracing goroutines",
 "The debug tests print one trace from one goroutine.",
 ["debug/backtrace.go"], [("runtime.Caller with a depth", "debug/backtrace.go")],
 "tasks recurse through known functions to seeded depths and trace at seeded points; compared with the known call path")
prop("C29", "Operations on distinct objects do not affect each other",
 "What a goroutine gets from objects of its own (hashes, INI files, AES and RSA sessions, generators with a given seed, bounded integers, lists, trees, heaps and other containers, copies, files in its own directory) equals what it would get alone, whatever other goroutines do with objects of theirs, and needs no synchronisation between them. Goroutines that only read a common object which nobody changes (a container, a parsed INI file, an RSA key, a directory) need none either and get what each would get alone.",
 ["schedules", "inputs"], "every interleaving of goroutines that use distinct objects or only read common ones",
 "Every existing test runs one goroutine, so hidden shared state is invisible.",
 ["hash", "encoding/ini", "crypto/aes", "math/rand", "stl", "io"], [("no package-level mutable state behind the types", "whole repository")],
 "every task's results compared with a solo run of the same operations; race-detector build on the same schedules")
prop("C30", "Views between strings and bytes stay valid and equal",
 "A byte or string view made by unsafe shows exactly the bytes of what it views, with the same length, for as long as the view is used, even when the original variable is gone and memory is collected and reused. Making a view copies and changes nothing.",
 ["schedules", "inputs"], "every content, lifetime and moment of garbage collection",
 "The unsafe tests do not collect garbage between making and using a view.",
 ["unsafe/string.go"], [("headers sharing the data pointer", "unsafe/string.go")],
 "views of short-lived strings with garbage collections and memory pressure at scheduled points")
prop("C36", "The library and the process agree on the working directory",
 "Once fs.Chdir succeeds WorkPath is the directory the process works in and RelateWorkPath is relative to it; a Chdir the system refuses reports that and changes nothing. Concurrent calls of Chdir, WorkPath and RelateWorkPath behave as if they came one after the other, and none of them panics, also when the new directory cannot be determined.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of Chdir, WorkPath and RelateWorkPath calls, every path and injected failure",
 "No test calls Chdir; a stale or torn path needs two calls whose steps interleave, or a system call that fails.",
 ["fs/file_line.go", "fs/file_path.go"], [("remembered working directory", "fs/file_line.go gWorkPath, Chdir, WorkPath"), ("relative paths", "fs/file_path.go RelateWorkPath")],
 "seeded schedules of changing and asking tasks with failing chdir and getwd calls; recorded histories checked for linearizability and against the simulated system's directory at rest; race-detector build")
NA = [
 ("C31", "Sequential containers and sorting behave as their models", "The sequential stl containers, heaps, trees and sorting helpers behave as their mathematical models for every input.",
  ["stl"], "pure sequential functions of their input: no concurrency, time, I/O, randomness or multi-party behaviour for a simulator to control; their isolation from each other is C29"),
 ("C32", "Numeric ranges, primes and number formatting are correct", "Bounded integers never leave their range, prime tables hold exactly the primes, and sizes and durations are formatted correctly.",
  ["math", "fs/file_size.go", "time"], "pure functions of their input; nothing for schedules or faults to act on"),
 ("C33", "Lexical path functions normalise consistently", "Splitting, joining, cleaning and relating of paths are consistent with each other for every string.",
  ["fs/file_path.go", "fs/fs.go"], "pure string functions without I/O; the operations that use the paths are C20 to C22"),
 ("C34", "Reflection and conversion helpers agree with the language", "Conversion, zero and comparison helpers give what the language defines for every value.",
  ["reflect", "convert"], "pure functions of their input; nothing for schedules or faults to act on"),
 ("C35", "Unfinished packages keep their declared interfaces", "event, tasks, log, pool, proto and math/seq declare interfaces whose implementations are not written yet.",
  ["event", "tasks", "log", "pool", "proto", "math/seq"], "stubs without behaviour (several do not compile); there is no execution to simulate"),
]

built = set(os.environ.get('BUILT', open('tools/built').read()).split())
with open('properties.jsonl', 'w') as f:
    for id, d, note in P:
        if id in built: f.write(json.dumps(d, ensure_ascii=False) + '\n')
    for id, t, s, files, why in NA:
        f.write(json.dumps({"id": id, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": "every input"},
          "why_tests_cant": "Tests sample a few inputs.", "anchors": {"files": files, "mechanism": []}}, ensure_ascii=False) + '\n')
checks = []
for id, d, note in P:
    assert len(d["title"]) <= 80, (id, len(d["title"]))
    assert d["statement"].count('. ') <= 2, id
    if id not in built: continue
    checks.append({"property": id, "quick_cmd": f"bash check.sh {id} quick", "thorough_cmd": f"bash check.sh {id} thorough",
      "technique": "deterministic simulation with fault injection: " + note.split(';')[0],
      "level": "exploration",
      "level_note": note + ". Evidence for the sampled seeds, not a proof; trusts the instrumenter, the simulated primitives and the Go toolchain."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none: no hook is committed in /repo; the checks instrument a scratch copy of the working tree", "enable": "check.sh rewrites a scratch copy of /repo's packages (yield points, sync, atomic, time, os, crypto/rand redirected to gxsim) before building", "source_commits": []},
  "checks": checks,
  "not_applicable": [{"property": id, "reason": why} for id, t, s, files, why in NA],
  "notes": "known_findings.json lists defects found: fixed ones with their commit, known ones with a committed replay."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks')
