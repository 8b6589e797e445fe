#!/usr/bin/env python3
"""Development tool: plants random small source changes in a copy of /repo, keeps those the
crate's own tests miss, and runs the checks against them. Never touches /repo itself.
  mutate.py OUT.jsonl WORKERS SECONDS SEED [FILE-REGEX]"""
import sys, os, re, random, subprocess, shutil, json, time, threading
OUT, W, SECS, SEED = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4])
FILTER = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
rnd = random.Random(SEED)
T0 = time.time()
SRC = [f"src/{p}" for p in subprocess.run("cd /repo/src && find . -name '*.rs' | sed 's|^./||'", shell=True, capture_output=True, text=True).stdout.split()]
SRC = [f for f in SRC if "test" not in f and "eigen" not in f and FILTER.search(f)]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
       (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+ I::one\(\)", ""), (r"I::zero\(\)", "I::one()"), (r"I::one\(\)", "I::zero()"), (r"T::zero\(\)", "T::one()"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+= ", "-= "), (r"\+= ", "= "), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
       (r"\.rows\(\)", ".cols()"), (r"\.cols\(\)", ".rows()"), (r"\bself\.rows\b", "self.cols"), (r"\bself\.cols\b", "self.rows"),
       (r"\bn_row\b", "n_col"), (r"\bn_col\b", "n_row"), (r"\b0\.\.", "1.."), (r"\.\.=", ".."), (r"\browidx\b", "colidx"), (r"\bcolidx\b", "rowidx"),
       (r"\ba_([xjp])\b", r"b_\1"), (r"\bb_([xjp])\b", r"a_\1"), (r"!(?=[a-z(])", ""), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bSome\(", "None.or(Some("),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"min\(", "max("), (r"max\(", "min("), (r"\.re\b", ".im"), (r"\.im\b", ".re"),
       (r"DELETE", ""), (r"DELETE", ""), (r"SWAP", ""), (r"IFFALSE", ""), (r"IFTRUE", "")]
MAP = [  # text near the change -> features likely concerned
 (r"select", "c10 c24"), (r"binop|_csr_csr|ne_csr|eq_csr", "c05 c04"), (r"matmat|mat_mat", "c06 c20"), (r"matvec|mat_vec", "c07 c20"),
 (r"diagonal", "c12 c27"), (r"stack|compose", "c13"), (r"dok", "c14 c01"), (r"submatrix|row_index|row_slice|column_index", "c11"),
 (r"scale", "c08"), (r"sum_dup|sort_ind|canonical|sorted", "c03"), (r"depth_first", "c18"), (r"component|graph", "c16 c17 c19"),
 (r"eliminate", "c26"), (r"from_dense", "c26"), (r"upper", "c23"), (r"get\b", "c22"), (r"table|pretty|to_string", "c21"), (r"ccsr|ccoo|ccsc|conj|imag|real", "c15"),
 (r"neg|mul", "c08 c06 c07"), (r"\badd|\bsub", "c04 c20"), (r"transpose|\bt\b", "c09"), (r"todense|tocsc|tocsr|tocoo|to_", "c01"), (r"new|with_", "c20 c12")]
ALL = [f"c{i:02d}" for i in range(1, 28)]

def code_lines(path):
    text = open("/repo/" + path).read().split("\n")
    out, depth, fn = [], 0, ""
    for i, l in enumerate(text):
        s = l.strip()
        if "/*" in s: depth += 1
        if "*/" in s: depth -= 1; continue
        if depth or s.startswith("//") or s.startswith("use ") or s.startswith("#[") or "///" in s: continue
        m = re.search(r"fn (\w+)", l)
        if m: fn = m.group(1); continue
        if s and fn: out.append((i, fn))
    return text, out

def mutants():
    pool = []
    for f in SRC:
        text, lines = code_lines(f)
        for i, fn in lines:
            l = text[i]
            for k, (a, b) in enumerate(OPS):
                if a == "DELETE":
                    if l.strip().endswith(";") and not l.strip().startswith(("let", "return", "}")): pool.append((f, fn, i, "// deleted"))
                elif a == "SWAP":
                    if i + 1 < len(text) and l.strip().endswith(";") and text[i+1].strip().endswith(";"): pool.append((f, fn, i, "SWAP"))
                elif a in ("IFFALSE", "IFTRUE"):
                    m = re.match(r"^(\s*)(\}? ?(?:else )?)if (?!let)(.*) \{$", l)
                    if m: pool.append((f, fn, i, f"{m.group(1)}{m.group(2)}if {'false && ' if a=='IFFALSE' else 'true || '}({m.group(3)}) {{"))
                else:
                    for m in re.finditer(a, l):
                        n = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                        if b.startswith("None.or"): continue
                        if n != l: pool.append((f, fn, i, n))
    pool = sorted(set(pool)); rnd.shuffle(pool)
    return pool

def sh(cmd, cwd, t):
    try:
        r = subprocess.run(["bash", "-c", f"ulimit -v 12000000; {cmd}"], cwd=cwd, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -9 -f {cwd}/", shell=True)
        return 124, "timeout"

POOL = mutants(); LOCK = threading.Lock()
print(len(POOL), "candidates", flush=True)

def worker(w):
    root = f"/tmp/mut{w}"; shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    subprocess.run(f"cp -a /repo {root}/repo && mkdir {root}/verif && cp -a /verif/harness /verif/regress {root}/verif/ && sed -i 's|/repo|{root}/repo|' {root}/verif/harness/Cargo.toml", shell=True)
    while time.time() - T0 < SECS:
        with LOCK:
            if not POOL: return
            f, fn, i, new = POOL.pop()
        p = f"{root}/repo/{f}"; orig = open("/repo/" + f).read(); L = orig.split("\n")
        old = L[i]
        if new == "SWAP": L[i], L[i+1] = L[i+1], L[i]; new = "SWAP with next"
        else: L[i] = new
        open(p, "w").write("\n".join(L))
        rec = {"file": f, "fn": fn, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, o = sh("timeout 120 cargo test --offline -q", f"{root}/repo", 150)
        if rc != 0:
            rec["result"] = "tests" if "error: could not compile" not in o and "error[" not in o else "nobuild"
        else:
            text = f"{f} {fn}"
            first = []
            for pat, fs in MAP:
                if re.search(pat, text): first += fs.split()
            first = list(dict.fromkeys(first))[:4] or ["c01", "c24"]
            res = None; checked = []
            for group in (first, ["c02", "c24", "c25", "c27"], [c for c in ALL if c not in first and c not in ("c02","c24","c25","c27")]):
                group = [g for g in group if g not in checked]
                if not group: continue
                rc, o = sh(f"cargo build --release --offline --features {','.join(group)}", f"{root}/verif/harness", 400)
                if rc != 0: res = "harness does not build"; break
                for c in group:
                    checked.append(c)
                    frac = {"c06": 3000, "c25": 2500, "c02": 3000}.get(c, 12000)
                    rc, o = sh(f"VERIF_DIR={root}/verif ./target/release/pbt run {c.upper()} quick 1 {frac}", f"{root}/verif/harness", 400)
                    if rc == 1: res = c; rec["msg"] = o[:200]; break
                    if rc != 0: rec.setdefault("odd", []).append([c, rc, o[-200:]])
                if res: break
            rec["result"] = res or "SURVIVED"
        open(p, "w").write(orig)
        with LOCK:
            open(OUT, "a").write(json.dumps(rec) + "\n")
    shutil.rmtree(root, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
