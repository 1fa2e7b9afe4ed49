#!/usr/bin/env python3
"""mutate.py FILE [N [SEED]]: developer tool. Makes small changes to FILE, one at a time, and reports those
which no check of a property that analyses FILE notices (run it from a copy of /verif)."""
import os, re, sys, random, shutil, subprocess, hashlib, json, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine"); sys.path.insert(0, V)
import checks
F = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 40
random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
J = int(os.environ.get("J", "3"))
ONLY = os.environ.get("FUNC")
REPO = "/repo"


def rel():
    out = []
    for p, P in checks.PROPS.items():
        for u in P.get("units", ()):
            hit = F in u.get("srcs", ())
            if not hit and F.endswith(".h"):
                for s in list(u.get("srcs", ())) + list(u["drivers"]):
                    q = (REPO if s in u.get("srcs", ()) else V) + "/" + s
                    if os.path.exists(q) and os.path.basename(F) in open(q).read():
                        hit = True
            if hit:
                out.append(p)
                break
    def t(p):
        try:
            return json.load(open("%s/evidence/%s.json" % (V, p)))["wall_s"]
        except Exception:
            return 5
    return sorted(out, key=t)


def mutants(lines):
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if not s or s[0] in "#*/" or "assert(" in s or not l[0] in "\t ":
            continue
        code = l
        def rep(a, b, what):
            return (i, l[:a] + b + l[a + len(what):], "%s -> %s" % (what, b))
        for m in re.finditer(r"(?<![<>=!\-+*/&|^])(<=|>=|==|!=|<|>)(?![<>=])", code):
            o = m.group(1)
            for n in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]:
                yield rep(m.start(1), n, o)
        for m in re.finditer(r"&&|\|\|", code):
            yield rep(m.start(), "||" if m.group() == "&&" else "&&", m.group())
        for m in re.finditer(r"(?<=[\w\)\] ])([+\-])(?=[ \w\(])(?![+\-=>])", code):
            if code[m.start() - 1] in "+-" or code[m.start() + 1] in "+->":
                continue
            yield rep(m.start(1), "-" if m.group(1) == "+" else "+", m.group(1))
        for m in re.finditer(r"\+=|-=", code):
            yield rep(m.start(), "-=" if m.group() == "+=" else "+=", m.group())
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            yield rep(m.start(), str(v + 1), m.group(1))
            if v > 0:
                yield rep(m.start(), str(v - 1), m.group(1))
        for m in re.finditer(r"\b(true|false)\b", code):
            yield rep(m.start(), "false" if m.group() == "true" else "true", m.group())
        for m in re.finditer(r"\b(dnstable_res_success|dnstable_res_failure|mtbl_res_success|mtbl_res_failure)\b", code):
            o = m.group()
            yield rep(m.start(), o.replace("success", "X").replace("failure", "success").replace("X", "failure"), o)
        m = re.match(r"(\s*)((?:else )?if \()(.*)(\)\s*\{?\s*)$", code.rstrip("\n"))
        if m and code.count("(") == code.count(")"):
            yield (i, m.group(1) + m.group(2) + "!(" + m.group(3) + ")" + m.group(4) + "\n", "negate")
            yield (i, m.group(1) + m.group(2) + "0 && (" + m.group(3) + ")" + m.group(4) + "\n", "never")
        if re.match(r"\s+[\w\->.\[\]*()]+\s*(=|\+=|-=|\|=|&=)[^=].*;\s*$", code) or re.match(r"\s+\w+\(.*\);\s*$", code) or re.match(r"\s+(break|continue|goto \w+);\s*$", code):
            if not re.match(r"\s+(const |struct |size_t |int |uint|char |bool |unsigned |ubuf )", code):
                yield (i, re.match(r"\s*", code).group() + ";\n", "delete")


def ll(path, w):
    r = subprocess.run(["clang-18", "-std=gnu11", "-D_GNU_SOURCE", "-w", "-O1", "-fno-discard-value-names", "-emit-llvm", "-S", "-o", "-", "-I" + w, "-I" + V + "/stubs",
                        "-I" + w + "/dnstable", "-include", V + "/stubs/config.h", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        return None
    return hashlib.md5(r.stdout).hexdigest()


def main():
    ch = os.environ.get("CHECKS", "").split() or rel()
    print("#", F, "checks:", *ch, flush=True)
    src = open(REPO + "/" + F).read().split("\n")
    src = [x + "\n" for x in src]
    ms = list(mutants(src))
    if os.environ.get("LINES"):
        a, b = map(int, os.environ["LINES"].split("-"))
        ms = [m for m in ms if a <= m[0] + 1 <= b]
    random.shuffle(ms)
    base = None
    seen = set()
    todo = []
    hdr = F.endswith(".h")
    if not hdr:
        base = ll2(REPO + "/" + F, os.path.dirname(REPO + "/" + F))
        seen.add(base)
    d = tempfile.mkdtemp(prefix="mutll")
    for i, n, what in ms:
        if len(todo) >= N:
            break
        if not hdr:
            q = d + "/" + os.path.basename(F)
            t = list(src); t[i] = n
            open(q, "w").write("".join(t))
            w = os.path.dirname(REPO + "/" + F)
            r = subprocess.run(["true"])
            h = ll2(q, w)
            if h is None or h in seen:
                continue
            seen.add(h)
        todo.append((i, n, what))
    shutil.rmtree(d)
    print("# %d of %d changes" % (len(todo), len(ms)), flush=True)

    def one(m):
        i, n, what = m
        w = tempfile.mkdtemp(prefix="mut")
        try:
            subprocess.run("cp -a /repo/. %s/ && rm -rf %s/.git" % (w, w), shell=True)
            t = list(src); t[i] = n
            open(w + "/" + F, "w").write("".join(t))
            t0 = time.time()
            odd = []
            for c in ch:
                r = subprocess.run(["python3", V + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w))
                if r.returncode == 1:
                    return (m, "killed", c, time.time() - t0)
                if r.returncode != 0:
                    if "does not compile" in r.stdout:
                        return (m, "nocompile", c, 0)
                    odd.append(c)
                elif ", 0 incomplete" not in r.stdout:
                    odd.append(c + "~")
            return (m, "SURVIVED", " ".join(odd), time.time() - t0)
        finally:
            shutil.rmtree(w)
    k = 0
    with ThreadPoolExecutor(J) as ex:
        for (i, n, what), st, c, dt in ex.map(one, todo):
            k += st == "killed"
            print("%s:%d %-9s %s [%.0fs] %s | %s" % (F, i + 1, st, c, dt, what, n.strip() if st != "killed" else ""), flush=True)
    print("# killed %d of %d" % (k, len(todo)), flush=True)


def ll2(q, w):
    # the file is compiled as if it stood in its directory
    r = subprocess.run(["clang-18", "-std=gnu11", "-D_GNU_SOURCE", "-w", "-O1", "-emit-llvm", "-S", "-o", "-", "-I" + w, "-I" + REPO, "-I" + V + "/stubs",
                        "-I" + REPO + "/dnstable", "-include", V + "/stubs/config.h", q], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        return None
    t = re.sub(rb"(source_filename|; ModuleID).*", b"", r.stdout)
    return hashlib.md5(t).hexdigest()


main()
