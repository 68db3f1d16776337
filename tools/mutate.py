#!/usr/bin/env python3
"""Mutation sweep: makes random small changes to the sources, keeps those that build and pass the tests, and looks which check catches them.
Usage: mutate.py [-n N] [-seed S] [-j J] [-files f,g]      Prints one line per surviving mutant; MISSED ones are to be looked at."""
import argparse, concurrent.futures, os, random, re, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-n", type=int, default=100); ap.add_argument("-seed", type=int, default=1); ap.add_argument("-j", type=int, default=2)
ap.add_argument("-files", default="machine.go,urn.go,urn8141.go,scim.go,options.go,scim/schema/type.go,tools/removecomments/removecomments.go,tools/snake2camel/snake2camel.go"); a = ap.parse_args()
os.environ.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
rnd = random.Random(a.seed)
def mutants(line):
    out = []
    s = line.strip()
    if not s or s.startswith("//") or s.startswith("import") or s.startswith("package"): return out
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", line):
        n = int(m.group(1))
        for k in (n - 1, n + 1, n + 32, n - 32, 0):
            if k >= 0 and k != n: out.append(line[:m.start()] + str(k) + line[m.end():])
    for x, y in (("<=", "<"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<", "<="), (">=", ">"), (">", ">="), ("+", "-"), ("true", "false"), ("false", "true"), ("m.p", "m.pb"), ("m.pb", "m.p"), ("rComponent", "qComponent"), ("qComponent", "fComponent"), ("fComponent", "rComponent"), ("output.ID", "output.SS"), ("output.SS", "output.ID"), (".Name", ".Other"), (".Other", ".Name"), ("RFC2141", "RFC8141"), ("RFC8141", "RFC7643"), ("RFC7643", "RFC2141"), ("\"\"", "\"x\""), ("nil", "err"), ("ID", "SS"), ("nx", "nu"), ("return nil", "return err"), ("strings.ToLower", "strings.ToUpper"), ("\\s*", "\\s+"), (".*", ".+"), ("[a-z]+", "[a-zA-Z]+"), ("[0-9]*", "[0-9]+"), ("[0-9]*", ""), ("\\r?", ""), ("\\n?", "\\n"), ("(?m)", "")):
        i = line.find(x)
        while i >= 0:
            out.append(line[:i] + y + line[i+len(x):]); i = line.find(x, i + 1)
    if re.match(r"^\s*(m\.|output\.|u\.|s\.|res|ret|norm|f\.|rComponent|\*)[^{}]*$", line) or re.match(r"^\s*goto \w+$", line): out.append("")
    m = re.match(r"^(\s*goto )(tr|st|f)(\d+)$", line)
    if m:
        for k in (-2, -1, 1, 2): out.append(f"{m.group(1)}{m.group(2)}{max(0, int(m.group(3))+k)}")
        out.append(m.group(1) + "st0")
    return out
todo = []
files = a.files.split(",")
src = {f: open("/repo/" + f).read().split("\n") for f in files}
small = [f for f in files if f != "machine.go"]
seen = set()
while len(todo) < a.n and len(seen) < 40 * a.n:
    f = rnd.choice(small) if small and ("machine.go" not in files or rnd.random() < 0.35) else "machine.go"
    i = rnd.randrange(len(src[f])); ms = mutants(src[f][i])
    if not ms: seen.add((f, i, rnd.random())); continue
    m = rnd.choice(ms)
    if (f, i, m) in seen: continue
    seen.add((f, i, m)); todo.append((f, i, m))
LIB = "C06 C04 C05 C01 C02 C03 C07 C08 C16 C18 C24 C23 C12 C13 C14 C15 C17 C09 C10 C25 C22 C11 C26".split()
def run(job):
    f, i, m = job
    top = tempfile.mkdtemp(prefix="mutant."); w = os.path.join(top, "repo"); v = os.path.join(top, "verif")
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        lines = list(src[f]); lines[i] = m
        open(os.path.join(w, f), "w").write("\n".join(lines))
        d = os.path.join(w, "tools/" + f.split("/")[1]) if f.startswith("tools/") else w
        try: r = subprocess.run(["bash", "-c", "go build ./... && timeout 60 go test ./..."], cwd=d, capture_output=True, text=True, errors="replace", timeout=90)
        except subprocess.TimeoutExpired: return None
        if r.returncode: return None
        os.mkdir(v)
        for x in ("harness", "check.sh", "known-findings.txt"): subprocess.run(["cp", "-a", os.path.join(HERE, x), v], check=True)
        desc = f"{f}:{i+1}: {src[f][i].strip()}  ->  {m.strip()}"
        for c in (["C19", "C21", "C20"] if "removec" in f else ["C20", "C21"] if "snake" in f else LIB):
            r = subprocess.run([os.path.join(v, "check.sh"), c, "quick"], cwd=v, capture_output=True, text=True, errors="replace", env=dict(os.environ, URN_REPO=w, VERIF_SEED="1"))
            if r.returncode == 1 and "VIOLATION" in r.stdout: return f"caught by {c}  {desc}"
            if r.returncode not in (0, 1): return f"ERROR {c} rc={r.returncode}  {desc}  {r.stderr[-300:]}"
        return "MISSED  " + desc
    finally: shutil.rmtree(top)
n = k = 0
with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    for l in ex.map(run, todo):
        n += 1
        if l: k += 1; print(l, flush=True)
print(f"{n} mutants, {k} pass the tests")
