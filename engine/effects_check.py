"""Effects: everything that the bodies of the library crates name, judged by what it can reach.

Every body of the library crates (generic, as compiled) is scanned: callees, trait methods, statics, thread locals,
casts of addresses.  What is not known to be free of effects is reported as undecided, what is known to be one as a
violation.
"""
import re

# crates whose functions compute with their arguments only
PURE = {"core", "alloc", "bitflags", "unicode_id", "serde", "serde_core", "itoa", "ryu"}
# modules of std (what is not core or alloc) by their effect
DENY = [
    (r"std::env::", "reads the environment"),
    (r"std::fs::", "uses the file system"),
    (r"std::net::", "uses the network"),
    (r"std::os::", "uses the operating system"),
    (r"std::process::", "controls processes"),
    (r"std::thread::(local|LocalKey)", "keeps state between calls in a thread local"),
    (r"std::thread::", "uses threads"),
    (r"std::time::(Instant|SystemTime)", "reads the clock"),
    (r"std::io::(stdin|stdout|stderr|_print|_eprint|attempt_print|Stdin|Stdout|Stderr)", "uses a standard stream"),
    (r"std::(random|hash::random)", "uses randomness"),
    (r"std::backtrace::", "reads the stack"),
    (r"std::panic::(set_hook|take_hook)", "changes the panic handler"),
    (r"std::alloc::", "uses the allocator"),
]
CORE_DENY = [
    (r"fmt::Pointer|new_pointer", "prints an address"),
    (r"::expose_provenance", "uses an address as a number"),
    (r"std::ptr::(const_ptr|mut_ptr).*::addr\b", "uses an address as a number"),
    (r"std::any::type_name", None),
    (r"Atomic", None),
]
HASHED = re.compile(r"(HashMap|HashSet|hash_map::|hash_set::|hash::map::|hash::set::)")
ORDER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|into_iter|extract_if|difference|intersection|union|symmetric_difference)(::<.*)?$")
DEBUGS = re.compile(r"new_debug::<.*(HashMap|HashSet)|<.*(HashMap|HashSet).* as std::fmt::Debug>")
FREE = re.compile(r"::(any|all|count|len|sum|product|min|max|contains|for_each|sort\w*)(::<.*)?$")
# statics that are written once, with a value that does not depend on the caller
ONCE = re.compile(r"^std::sync::(LazyLock|lazy_lock)|^std::sync::poison")


def run(dump):
    bad, und, n = {}, {}, 0
    fns = dump.raw_effects
    for f in fns:
        name = f["fn"]
        calls = [w for k, w, l in f["e"] if k == "call"]
        free = any(FREE.search(w) for w in calls)
        for k, w, l in f["e"]:
            n += 1
            loc = (name, "%s:%d" % (f["file"], l))

            def viol(what):
                bad.setdefault((name, what), dict(key="effect:%s:%s" % (name, what), what="%s %s (%s)" % (name, what, w[:120] or "cast"), loc=loc))
            if k == "mutable":
                t = w.split(": ", 1)[1] if ": " in w else ""
                if "LazyLock<" in t and not re.search("Mutex|Cell|RwLock|Atomic", t):
                    continue
                if "OnceLock<" in t and not re.search("Mutex|Cell|RwLock|Atomic", t):
                    und[name] = "static that is set once (%s)" % w
                    continue
                viol("uses a static that can change")
            elif k == "address":
                und[name] = "address used as a number"
            elif k == "call":
                crate, p = w.split(" ", 1)
                m = re.sub(r"::<.*", "", p) if not p.startswith("<") else p
                if HASHED.search(p):
                    if ORDER.search(p) and not p.startswith("<serde"):
                        if free:
                            und[name] = "order of a hash table (%s)" % p[:100]
                        else:
                            viol("depends on the order of a hash table")
                        continue
                    if DEBUGS.search(p):
                        viol("prints a hash table in its order")
                        continue
                done = False
                for pat, what in CORE_DENY:
                    if re.search(pat, m):
                        done = True
                        if what:
                            viol(what)
                if done or crate.startswith("fajt_") or crate in PURE:
                    continue
                if crate == "std":
                    for pat, what in DENY:
                        if re.search(pat, p):
                            viol(what)
                            break
                    else:
                        if not re.search(r"std::(collections|hash|error|io::(Write|Seek|SeekFrom|Error|Read|BufRead|Cursor|Result|ErrorKind|BufWriter|LineWriter)|sync::(LazyLock|OnceLock)|path::|ffi::|ascii|f64|f32|string|rt::|panicking)", p) and not re.search(r" as std::io::(Write|Seek|Read|BufRead)>", p):
                            und[name] = "unknown function %s" % p[:120]
                else:
                    und[name] = "unknown crate: %s %s" % (crate, p[:120])
    return dict(functions=len(fns), names=n, violations=list(bad.values()), undecided=und)


if __name__ == "__main__":
    import sys, dump as dm
    r = run(dm.Dump(sys.argv[1]) if len(sys.argv) > 1 else dm.Dump())
    print(r["functions"], r["names"], r["undecided"])
    for v in r["violations"]:
        print(v["key"], v["loc"])
