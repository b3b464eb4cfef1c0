#!/usr/bin/env python3
"""Sensitivity self-test: mutates the code under test in scratch copies and lists the mutants no scenario objects to.

usage: mutate.py WORKDIR OUT.jsonl [FILE...]   (env: JOBS, RUNS, SAMPLE, SEED, ONLY, DEEP)
Not used by any check. Works on copies of /repo and /verif under WORKDIR (made here, removed at the end)."""
import os, re, sys, json, random, shutil, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, OUT = sys.argv[1], sys.argv[2]
JOBS, RUNS = int(os.environ.get("JOBS", "8")), int(os.environ.get("RUNS", "3000"))
SCEN = {"iothr.c": "iothr getq multi e2e stdio", "writer.c": "writer iothr pair filecrash replay multi e2e stdio", "reader.c": "reader pair filecrash dump replay multi e2e stdio",
 "rdwr.c": "writer reader pair iothr replay multi e2e", "file.c": "filecrash writer reader dump stdio e2e", "unix_writer.c": "writer iothr replay startup", "tcp_writer.c": "writer iothr replay startup",
 "control.c": "writer reader pair capture dump", "time.c": "iothr", "my_queue_mb.c": "queue iothr", "my_queue_mutex.c": "queue iothr",
 "fstrm_capture.c": "capture startup e2e", "fstrm_replay.c": "replay startup e2e", "fstrm_dump.c": "dump startup e2e", "print_string.h": "dump capture", "read_bytes.h": "writer replay",
 "ubuf.h": "reader dump", "vector.h": "writer reader capture", "fstrm-private.h": "writer reader capture", "my_alloc.h": "writer"}
FILES = sys.argv[3:] or ["fstrm/" + f for f in "iothr.c writer.c reader.c rdwr.c file.c unix_writer.c tcp_writer.c control.c time.c".split()] + \
 ["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c", "libmy/print_string.h", "libmy/read_bytes.h", "libmy/ubuf.h", "src/fstrm_capture.c", "src/fstrm_replay.c", "src/fstrm_dump.c"]

def mutants(path):
    src = open("/repo/" + path).read().split("\n")
    incomment, depth = False, 0
    for i, l in enumerate(src):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if not l.startswith(("\t", " ")) or s.startswith(("#", "//", "assert", "fprintf", "conn_log", "fputs", "{ '")): continue
        def out(new, what):
            if new != l: return (path, i, l, new, what)
        r = []
        if re.match(r"^[\w\(\*].*;$", s) and not re.match(r"^(return|break|continue|goto|const|struct|size_t|uint|int|bool|unsigned|time_t|fstrm_|ssize_t|FILE|fs_buf|char|void|static|ubuf \*|mode_t|socklen)", s) or re.match(r"^(\(void\) ?)?fstrm_\w+\(.*\);$", s):
            if "(" in s or "=" in s or "++" in s or "--" in s: r.append(out(re.sub(r"\S.*", ";", l, count=1), "delete statement"))
        if s in ("break;", "continue;"): r.append(out(l.replace(s, ";"), "delete " + s))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)\s*\{?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            r.append(out(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate")); r.append(out(m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), "never")); r.append(out(m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3), "always"))
        for a, bs in (("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"]), (" < ", [" <= "]), (" > ", [" >= "]), (" + ", [" - "]), (" - ", [" + "]), ("++", ["--"]), ("--", ["++"]), ("+=", ["="]), ("-=", ["="])):
            for m in re.finditer(re.escape(a), l):
                for b in bs: r.append(out(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a.strip(), b.strip())))
        for a, b in (("true", "false"), ("false", "true"), ("fstrm_res_success;", "fstrm_res_failure;"), ("fstrm_res_failure;", "fstrm_res_success;"), ("return res;", "return fstrm_res_success;"), ("EXIT_FAILURE", "EXIT_SUCCESS"), ("EXIT_SUCCESS", "EXIT_FAILURE"), ("sizeof(uint32_t)", "8")):
            for m in re.finditer(r"\b" + re.escape(a), l): r.append(out(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b)))
        for m in re.finditer(r"(?<![\w.\[%])(\d+)(?![\w.])", l): r.append(out(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "const + 1"))
        for x in r:
            if x: yield x

def run(cmd, cwd, t, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env); return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e: return -99, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def main():
    os.makedirs(W, exist_ok=True)
    todo = [m for f in FILES for m in mutants(f)]
    if os.environ.get("SAMPLE"): random.seed(int(os.environ.get("SEED", "1"))); random.shuffle(todo); todo = todo[:int(os.environ["SAMPLE"])]
    if os.environ.get("ONLY"): # survivors of an earlier run
        keep = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(os.environ["ONLY"])) if d["res"] == "survived"}
        todo = [m for m in todo if (m[0], m[1] + 1, m[3].strip()) in keep]
    print(len(todo), "mutants")
    free = Queue()
    for k in range(JOBS):
        d = "%s/w%d" % (W, k)
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d + "/repo"); os.makedirs(d + "/verif")
        subprocess.run(["cp", "-a", V + "/sim", V + "/tools", d + "/verif/"], check=True)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s/repo" % d, shell=True, check=True)
        free.put(d)
    # besides the default mode, the modes of properties that change what a scenario does
    modes = {"iothr": ["C05", "C06", "C07", "C13", "C25", "C29"], "capture": ["C18", "C19", "C20", "C21", "C25", "C27"], "replay": ["C22", "C27"], "dump": ["C23", "C27"], "writer": ["C10", "C12", "C13"], "reader": ["C11", "C25"], "getq": ["C14"]} if os.environ.get("DEEP") else {}
    out = open(OUT, "w"); st = {"killed": 0, "survived": 0, "nocompile": 0}
    def one(m):
        path, i, old, new, what = m
        d = free.get()
        try:
            p = d + "/repo/" + path; orig = open(p).read(); L = orig.split("\n"); assert L[i] == old; L[i] = new
            open(p, "w").write("\n".join(L))
            env = dict(os.environ, FSTRM_REPO=d + "/repo"); res = "survived"; detail = ""; classes = []
            rc, o = run(["python3", "tools/build.py"], d + "/verif", 120, env)
            if rc != 0: res = "nocompile"
            else:
                for s, pr in [(s, pr) for s in SCEN[os.path.basename(path)].split() for pr in [None] + modes.get(s, [])]:
                    rc, o = run([".build/simfstrm", "--sweep", s, "--runs", str(RUNS), "--seed", "7", "--jobs", "1"] + (["--prop", pr] if pr else []), d + "/verif", 120)
                    classes += re.findall(r"VIOL (\S+)", o)
                    mm = re.search(r": (\d+) runs .* ok (\d+)", o)
                    if rc == -99 or not mm or int(mm.group(1)) != int(mm.group(2)) + sum(map(int, re.findall(r"^ *(\d+)  discard", o, re.M))): res = "killed"; detail = s + (" (timeout)" if rc == -99 else ": " + o.strip().split("\n")[0][:150]); break
            open(p, "w").write(orig)
            st[res] += 1
            out.write(json.dumps({"file": path, "line": i + 1, "what": what, "old": old.strip(), "new": new.strip(), "res": res, "detail": detail, "classes": classes}) + "\n"); out.flush()
        finally: free.put(d)
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, todo))
    print(st)
    for k in range(JOBS): shutil.rmtree("%s/w%d" % (W, k))
if __name__ == "__main__": main()
