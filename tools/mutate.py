#!/usr/bin/env python3
"""Mutation run: systematic small edits of /repo/src in scratch copies; reports which
property monitors (dev build, a few seconds each, no sanitizers) notice them, and for the others whether the tests do.
usage: mutate.py WORKERS OUT.jsonl [FILTER [SAMPLE]]   (scratch: /tmp/mut)"""
import json, os, random, re, shutil, subprocess, sys, threading, time
W, OUT = int(sys.argv[1]), sys.argv[2]
FILT = sys.argv[3] if len(sys.argv) > 3 else ""
SAMPLE = int(sys.argv[4]) if len(sys.argv) > 4 else 0
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [(" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" % ", " / "), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "),
         (" ^ ", " | "), ("&&", "||"), ("||", "&&"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" < ", " > "),
         ("+=", "-="), ("-=", "+="), ("|=", "&="), ("&=", "|="), ("^=", "|="), ("true", "false"), ("false", "true"),
         ("Digit::ZERO", "Digit::ONE"), ("Digit::ONE", "Digit::ZERO"), ("Digit::ONES", "Digit::ZERO"), ("Digit::ZERO", "Digit::ONES"),
         (".lo()", ".hi()"), (".hi()", ".lo()"), ("msb", "lsb"), ("lsb", "msb"), ("sign_", "zero_"), ("zero_", "sign_"), ("0..", "1.."), ("..=", ".."),
         ("Less", "Greater"), ("Greater", "Less"), ("Bit::Set", "Bit::Unset"), ("Bit::Unset", "Bit::Set"), ("!", ""), (".rev()", ""), ("udiv", "urem"), ("urem", "udiv"),
         ("sdiv", "srem"), ("srem", "sdiv"), ("_ult", "_ule"), ("_ule", "_ult"), ("_slt", "_ult"), ("_ult", "_slt"), ("lshr", "ashr"), ("ashr", "lshr"),
         ("wrapping_add", "wrapping_sub"), ("wrapping_sub", "wrapping_add"), ("carrying_add", "carrying_add_"), ("is_negative", "is_positive"), ("is_positive", "is_negative"),
         ("truncate", "sign_extend"), ("lhs", "rhs"), ("rhs", "lhs"), ("DivOp::Udiv", "DivOp::Urem"), ("Some(", "None.or(Some("), ("leading_zeros", "trailing_zeros"), ("trailing_zeros", "leading_zeros"),
         ("count_ones", "count_zeros"), ("Inl", "Ext"), ("Ext", "Inl"), ("u64", "i64"), ("i64", "u64"), ("repr_u64", "repr_i64"), ("width()", "width().to_usize()"), ("unset_", "set_"), ("set_", "unset_"), ("flip_", "set_"), ("bitand", "bitor"), ("bitor", "bitxor"), ("bitxor", "bitand"), ("first", "last"), ("last", "first")]
def mutants():
    res = []
    for base, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(base, f)
            rel = os.path.relpath(p, "/repo")
            if FILT and not re.search(FILT, rel):
                continue
            lines = open(p).read().split("\n")
            end = len(lines)
            for i, l in enumerate(lines):
                if l == "#[cfg(test)]":
                    end = i
                    break
            for i in range(end):
                l = lines[i]
                s = l.strip()
                if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")):
                    continue
                code = l.split("//")[0]
                seen = set()
                def add(new, what):
                    if new != l and new not in seen:
                        seen.add(new)
                        res.append((rel, i, l, new, what))
                for a, b in SWAPS:
                    k = code.find(a)
                    while k >= 0:
                        add(code[:k] + b + code[k + len(a):], a + "->" + b)
                        k = code.find(a, k + 1)
                for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                    n = int(m.group(1))
                    for x in {n + 1, max(n - 1, 0)}:
                        add(code[:m.start()] + str(x) + code[m.end():], "%d->%d" % (n, x))
                m = re.search(r"\bif (?!let)(.*) \{$", code)
                if m:
                    add(code[:m.start()] + "if !(" + m.group(1) + ") {", "negate")
                    add(code[:m.start()] + "if false && (" + m.group(1) + ") {", "if false")
                    add(code[:m.start()] + "if true || (" + m.group(1) + ") {", "if true")
                if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "const ", "}", ")", "fn ", "static ")) :
                    add(code[:len(code) - len(code.lstrip())] + "", "delete")
                if s.endswith("?;") or s.endswith("?"):
                    pass
    return res
ms = mutants()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l)
        done.add((r["file"], r["line"], r["new"]))
todo = [m for m in ms if (m[0], m[1] + 1, m[3]) not in done]
random.Random(7).shuffle(todo)
if SAMPLE:
    todo = todo[:SAMPLE]
print(len(ms), "mutants,", len(todo), "to do", flush=True)
lock = threading.Lock()
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_BUILD_JOBS="2", CARGO_PROFILE_DEV_INCREMENTAL="true")
def sh(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, ""
PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C17", "C16", "C10", "C13", "C14", "C15", "C20", "C12"]
def order(f):
    pref = {"arithmetic": ["C01", "C02"], "shift": ["C03"], "bitwise": ["C04"], "utils": ["C04"], "casting": ["C05"], "constructors": ["C06"], "to_primitive": ["C06"], "relational": ["C07"],
            "serialization": ["C08"], "serde_impl": ["C09"], "rand_impl": ["C15"], "int.rs": ["C17"], "std_ops": ["C16"], "radix": ["C20"], "bitpos": ["C20"], "bitwidth": ["C20"], "errors": ["C11"]}
    first = next((v for k, v in pref.items() if k in f), [])
    return first + [p for p in PROPS if p not in first]
def worker(n):
    d = "/tmp/mut/w%d" % n
    if not os.path.exists(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.rmtree(d + "/h", ignore_errors=True)
    os.makedirs(d + "/h")
    subprocess.run(["cp", "-a", V + "/harness/src", V + "/harness/Cargo.toml", V + "/harness/Cargo.lock", d + "/h/"], check=True)
    t = open(d + "/h/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d)
    open(d + "/h/Cargo.toml", "w").write(t)
    while True:
        with lock:
            if not todo:
                return
            rel, i, old, new, what = todo.pop()
        p = os.path.join(d, "repo", rel)
        src = open("/repo/" + rel).read()
        L = src.split("\n")
        assert L[i] == old
        L[i] = new
        open(p, "w").write("\n".join(L))
        r = dict(file=rel, line=i + 1, old=old, new=new, what=what)
        try:
            rc, o = sh(["cargo", "build", "--offline", "--target-dir", d + "/ht"], d + "/h", 300)
            if rc != 0:
                r["res"] = "nocompile"
            else:
                r["res"] = "SURVIVED"
                for pr in order(rel):
                    rc, o = sh(["bash", "-c", "ulimit -v 8000000; exec %s/ht/debug/harness --prop %s --seed 5 --secs 4 --hang 20 --out %s/o.json" % (d, pr, d)], d, 120)
                    if rc != 0:
                        r["res"] = "caught"
                        r["by"] = pr
                        r["rc"] = rc
                        break
                if r["res"] == "SURVIVED":
                    rc, o = sh(["cargo", "test", "--offline", "--all-features", "--lib", "--", "--test-threads", "2"], d + "/repo", 300)
                    if rc != 0:
                        r["res"] = "tests-only"
        finally:
            open(p, "w").write(src)
        with lock:
            with open(OUT, "a") as f:
                f.write(json.dumps(r) + "\n")
ths = [threading.Thread(target=worker, args=(n,)) for n in range(W)]
[t.start() for t in ths]
[t.join() for t in ths]
