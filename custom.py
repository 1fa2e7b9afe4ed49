"""Checks which are not drivers: rules over the declarations and definitions of the compiled source."""
import json
import os
import re
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import run  # noqa

LIB = ["entry", "iter", "merge", "query", "query_mtbl", "reader", "triplet", "util"]


def result(entry, viol, n, reach, funcs=()):
    return {"entry": entry, "violations": viol, "status": "complete", "stats": {"checks": n, "checks_proved": n - len(viol)},
            "functions": sorted(funcs), "reached": {r: 1 for r in reach}, "check_sites": {}, "unmodelled": [], "wall": 0.0}


def exports():
    """what the public header declares is what the library defines and exports, and nothing else"""
    hdr = os.path.join(run.REPO, "dnstable", "dnstable.h")
    r = subprocess.run([run.CLANG, "-fsyntax-only", "-w", "-I" + os.path.join(run.VERIF, "stubs"), "-I" + run.REPO, "-x", "c",
                        "-Xclang", "-ast-dump=json", hdr], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise run.BuildError(r.stderr[-2000:])
    ast = json.loads(r.stdout)
    declared = {d["name"] for d in ast["inner"] if d.get("kind") == "FunctionDecl" and d["name"].startswith("dnstable_")}
    mod = run.build(["dnstable/%s.c" % s for s in LIB], [])
    defined = {n for n, f in mod.funcs.items() if n.startswith("dnstable_")}
    sym = set()
    with open(os.path.join(run.REPO, "dnstable", "libdnstable.sym")) as f:
        text = re.sub(r"/\*.*?\*/|#[^\n]*", "", f.read(), flags=re.S)
    for blk in re.findall(r"global:(.*?)(?:local:|\})", text, flags=re.S):
        sym |= set(re.findall(r"(\w+)\s*;", blk))
    if not declared or not sym or not defined:
        raise run.BuildError("no public functions found")
    v = []

    def bad(msg, loc):
        v.append({"kind": "exports", "msg": msg, "loc": loc, "trace": [], "stack": []})
    for n in sorted(declared - defined):
        bad("%s is declared in the public header and defined nowhere" % n, "dnstable/dnstable.h")
    for n in sorted(declared - sym):
        bad("%s is declared in the public header and not exported" % n, "dnstable/libdnstable.sym")
    for n in sorted(sym - defined):
        bad("%s is exported and defined nowhere" % n, "dnstable/libdnstable.sym")
    for n in sorted(sym - declared):
        bad("%s is exported and declared in no public header" % n, "dnstable/libdnstable.sym")
    return result("exports", v, len(declared | sym | defined), ["exports"], declared)


def shell_commands(text):
    """simple commands of a POSIX shell script: lists of words, each a list of (char, quoted) and the line it is on"""
    cmds, cmd, word, q, line, i = [], [], None, None, 1, 0

    def endw():
        nonlocal word
        if word is not None:
            cmd.append((word, line))
            word = None

    def endc():
        nonlocal cmd
        endw()
        if cmd:
            cmds.append(cmd)
        cmd = []
    while i < len(text):
        c = text[i]
        if q == "'":
            if c == "'":
                q = None
            else:
                word.append((c, "'"))
        elif c == "\\" and i + 1 < len(text):
            i += 1
            if text[i] != "\n":
                word = word if word is not None else []
                if q == '"' and text[i] not in '$`"\\':
                    word.append(("\\", q))
                word.append((text[i], "'"))
        elif c == '"':
            word = word if word is not None else []
            q = None if q else '"'
        elif q == '"':
            word.append((c, q))
        elif c == "'":
            word = word if word is not None else []
            q = "'"
        elif c == "#" and word is None:
            while i < len(text) and text[i] != "\n":
                i += 1
            continue
        elif c in " \t":
            endw()
        elif c in "\n;&|(){}" and not (c in "{}" and word is not None):
            endc()
        else:
            word = word if word is not None else []
            word.append((c, None))
        if c == "\n":
            line += 1
        i += 1
    endc()
    return cmds


def merge_script():
    """dnstable_merge: arguments reach mtbl_merge one by one, and the merge function is one the library exports"""
    path = "src/dnstable_merge.sh.in"
    with open(os.path.join(run.REPO, path)) as f:
        text = f.read()
    v, n = [], 0

    def bad(msg, line):
        v.append({"kind": "script", "msg": msg, "loc": "%s:%d" % (path, line), "trace": [], "stack": []})
    env, merges = {}, 0
    for cmd in shell_commands(text):
        words = [("".join(c for c, _ in w), w, ln) for w, ln in cmd]
        k = 0
        while k < len(words) and words[k][0] in ("if", "then", "else", "elif", "while", "do", "!", "exec", "export", "command", "exit", "fi", "done"):
            k += 1
        for s, w, ln in words:
            m = re.match(r"(\w+)=", s)
            for j, (c, q) in enumerate(w):
                if c == "$" and q is None and j + 1 < len(w) and (w[j + 1][0] in "@*{" or w[j + 1][0].isalnum()) and not m:
                    n += 1
                    bad("an argument is taken apart at blanks: %s" % s, ln)
                elif c == "$" and q == '"':
                    n += 1
            if m:
                env[m.group(1)] = s[m.end():]
        if k < len(words) and os.path.basename(words[k][0]) == "mtbl_merge":
            merges += 1
            args = words[k + 1:]
            n += 1
            if len(args) != 1 or args[0][0] not in ("$@", "${1+$@}"):
                bad("mtbl_merge is not given exactly the arguments of the command", words[k][2])
    if merges == 0:
        raise run.BuildError("no call of mtbl_merge found in " + path)
    with open(os.path.join(run.REPO, "dnstable", "libdnstable.sym")) as f:
        exported = set(re.findall(r"(\w+)\s*;", f.read()))
    n += 2
    if env.get("MTBL_MERGE_FUNC_PREFIX", "") + "_func" not in exported:
        bad("the merge function named by MTBL_MERGE_FUNC_PREFIX is not exported by the library", 1)
    if "@LIBDNSTABLE_DLNAME@" not in env.get("MTBL_MERGE_DSO", ""):
        bad("MTBL_MERGE_DSO is not the library", 1)
    return result("merge_script", v, max(n, len(v)), ["script"])
