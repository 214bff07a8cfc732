#!/usr/bin/env python3
"""Mutation run: which small changes of /repo no check notices (development aid, not a check).

  mutate.py list [file substring]             number of mutants per file
  mutate.py run OUT.jsonl WORKERS STRIDE OFFSET [file substring]
Works on private copies bind mounted over /repo and /verif in own mount namespaces."""
import json, os, re, subprocess, sys, hashlib, multiprocessing
FILES = subprocess.run("cd /repo && git ls-files '*.rs' | grep -v -e /tests/ -e build.rs -e test.rs -e verif.rs -e internal-macros", shell=True, capture_output=True, text=True).stdout.split()
LIB = ["C24", "C19", "C09", "C04", "C15", "C23", "C03", "C05", "C06", "C07", "C01", "C02", "C25", "C16"]
CHK = ["C23", "C26", "C09", "C08", "C07", "C24", "C05", "C11", "C10"]
ORDER = {
    "varisat/": LIB, "varisat-checker/": CHK, "varisat-dimacs/": ["C14", "C12", "C13", "C22"],
    "varisat-lrat/": ["C07", "C10"], "varisat-formula/": ["C19", "C14", "C24"],
    "varisat-internal-proof/": ["C18", "C24", "C05", "C11"], "varisat-cli/": ["C21", "C20", "C22"],
}
SPECIAL = {"varisat/src/proof": ["C24", "C23", "C22", "C10", "C09", "C06", "C05", "C07"], "varisat/src/config": ["C17", "C24"],
           "varisat/src/solver.rs": ["C24", "C23", "C22", "C10", "C19", "C15", "C17", "C03"],
           "varisat/src/variables": ["C24", "C19", "C15", "C23", "C09", "C05", "C02"],
           "varisat/src/schedule": ["C24", "C25", "C17", "C16"], "varisat/src/clause": ["C24", "C25", "C04", "C15", "C05", "C03", "C16", "C01"]}
def order(f):
    for k, v in SPECIAL.items():
        if f.startswith(k): return v
    for k, v in ORDER.items():
        if f.startswith(k): return v
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\bwhile !", "while "), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r" << ", " >> "), (r" >> ", " << "), (r" \| ", " & "), (r" & ", " | "),
       (r"\.positive\(\)", ".negative()"), (r"\.negative\(\)", ".positive()"), (r"\bNone\b", "Some(Default::default())"),
       (r"\bcontinue;", ""), (r"\bbreak;", ""), (r"!lit\b", "lit"), (r"\.is_positive\(\)", ".is_negative()"), (r"\bSome\(false\)", "Some(true)"),
       (r"\.rev\(\)", ""), (r"\.iter\(\)", ".iter().skip(1)"), (r"\?;", ".ok();")]
def mutants(f):
    src = open("/repo/" + f).read()
    lines = src.split("\n")
    end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    out = []
    for i in range(end):
        l = lines[i]
        t = l.strip()
        if not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "log::", "debug_assert", "assert", "pub fn", "fn ", "impl", "pub struct", "struct", "///", "pub type")) or "varisat_verif" in l: continue
        code = l.split("//")[0]
        for k, (a, b) in enumerate(OPS):
            for n, m in enumerate(re.finditer(a, code)):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if '"' in code[:m.start()]: continue
                if new != code: out.append((f, i, i, new, f"{a}->{b}"))
        # statement deletion
        ind = len(l) - len(l.lstrip())
        if re.match(r"[a-z_\*\(]", t) and not re.match(r"(let|return|pub|if|while|for|loop|match|else|mut |use|const|static|type|fn|unsafe|where)\b", t):
            if t.endswith(";") and t.count("(") == t.count(")"):
                out.append((f, i, i, "", "delete"))
            elif t.endswith("(") :
                for j in range(i + 1, min(end, i + 20)):
                    if len(lines[j]) - len(lines[j].lstrip()) == ind and lines[j].strip().startswith(")"):
                        if lines[j].strip() in (");", ")?;"): out.append((f, i, j, "", "delete statement"))
                        break
        if re.match(r"if (?!let)", t) and t.endswith("{"):
            out.append((f, i, i, " " * ind + "if true {", "if true"))
            out.append((f, i, i, " " * ind + "if false {", "if false"))
    return out
def work(args):
    worker, jobs, outfile = args
    tmp = f"/tmp/mut/w{worker}"
    os.makedirs(tmp, exist_ok=True)
    subprocess.run(f"[ -d {tmp}/repo ] || cp -a /repo {tmp}/repo; git -C {tmp}/repo checkout -q . ; [ -d {tmp}/verif ] || mkdir {tmp}/verif; cp -a /verif/harness /verif/build.sh /verif/check.sh /verif/target {tmp}/verif/", shell=True)
    for f, i, j, new, what in jobs:
        src = open(f"/repo/{f}").read().split("\n")
        src[i:j + 1] = [new]
        with open(f"{tmp}/repo/{f}", "w") as h: h.write("\n".join(src))
        script = f"""mount --bind {tmp}/repo /repo && mount --bind {tmp}/verif /verif || exit 3
cd /verif; export VMC_THREADS=2 VMC_CASE_LIMIT=25 CARGO_BUILD_JOBS=2 here=/verif
. ./build.sh {'C20' if f.startswith('varisat-cli') else 'x'} >/tmp/mut/b{worker}.log 2>&1 || {{ echo RESULT nobuild; exit; }}
for c in {' '.join(order(f))}; do
 timeout 900 $VMC check $c quick > {tmp}/c.log 2>&1; rc=$?
 [ $rc = 0 ] || {{ echo "RESULT $c rc=$rc $(grep -B1 '^VIOLATION' {tmp}/c.log | head -1 | cut -c1-200)"; exit; }}
done
echo RESULT survived"""
        r = subprocess.run(["unshare", "-Urm", "nice", "-n", "15", "bash", "-c", script], capture_output=True, text=True, errors="replace")
        res = [l[7:] for l in r.stdout.split("\n") if l.startswith("RESULT")]
        with open(outfile, "a") as h:
            h.write(json.dumps({"file": f, "line": i + 1, "to": j + 1, "op": what, "new": new.strip(), "old": open(f"/repo/{f}").read().split("\n")[i].strip(), "result": res[0] if res else "error " + r.stderr[-200:]}) + "\n")
        subprocess.run(["git", "-C", f"{tmp}/repo", "checkout", "-q", "."])
def main():
    sub = sys.argv[2] if sys.argv[1] == "list" and len(sys.argv) > 2 else sys.argv[6] if len(sys.argv) > 6 else ""
    allm = []
    for f in FILES:
        if sub in f:
            m = mutants(f)
            if sys.argv[1] == "list": print(len(m), f)
            allm += m
    print(len(allm))
    if sys.argv[1] == "list": return
    out, workers, stride, offset = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["op"], r["new"]))
    allm.sort(key=lambda m: hashlib.md5(repr(m).encode()).digest())
    jobs = [m for m in allm[offset::stride] if (m[0], m[1] + 1, m[4], m[3].strip()) not in done]
    print(len(jobs), "jobs", flush=True)
    q = [(w, jobs[w::workers], out) for w in range(workers)]
    ps = [multiprocessing.Process(target=work, args=(x,)) for x in q]
    for p in ps: p.start()
    for p in ps: p.join()
main()
