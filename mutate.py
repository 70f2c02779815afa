#!/usr/bin/env python3
"""Development tool, no check uses it: mutates one source file of a scratch copy of the repository and reports the mutants no check notices.
usage: mutate.py SRC_TREE FILE LOG WORKERS CHECK [CHECK...]"""
import os, random, re, shutil, subprocess, sys, threading, queue

OPS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<=[\[(, ])0(?=[\]), ;])", "1"), (r"(?<=[\[(, ])1(?=[\]), ;])", "0"), (r"(?<=[\[(, ])2(?=[\]), ;])", "1"), (r"(?<=[\[(, ])3(?=[\]), ;])", "2"),
    (r"\b0\.5\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "1.0"), (r"\b0\.0\b", "1.0"),
    (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"\.transpose\(\)", ""), (r"\.inverse\(\)", ""), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"(?<=[(,=] )-(?=\w)", ""), (r"(?<=return )-(?=\w)", ""), (r"\(-(?=\w)", "("), (r"\bcols\b", "rows"), (r"\brows\b", "cols"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"!(?=[\w(])", ""), (r"\bif \((?!constexpr)", "if (!("), (r"\+\+(\w+)", r"\1++"),
]

def mutants(text):
    lines = text.split("\n")
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "*", "#", "template", "using", "typedef", "static_assert", "namespace", "ROS_", "throw", "std::cerr", "std::cout")):
            continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if rep == "if (!(":
                    if not code.rstrip().endswith(") {"):
                        continue
                    new = new.rstrip()[:-3] + ")) {"
                if new != code:
                    yield n, lines[:n] + [new] + lines[n + 1:], new.strip()
        if s.endswith(";") and not s.startswith(("return", "break", "continue", "const ", "}", "typename", "bool ", "int ", "double ", "auto ")) and "(" in s and code.count("(") == code.count(")"):
            yield n, lines[:n] + [";"] + lines[n + 1:], "deleted: " + s

def main():
    tree, path, log, workers, checks = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5:]
    original = open(os.path.join(tree, path)).read()
    seen, todo = set(), []
    for n, lines, what in mutants(original):
        key = (n, what)
        if key not in seen:
            seen.add(key)
            todo.append((n, "\n".join(lines), what))
    limit = int(os.environ.get("LIMIT", "0"))
    if limit and len(todo) > limit:
        todo = sorted(random.Random(1).sample(todo, limit), key=lambda t: t[0])
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    count = {"killed": 0, "stillborn": 0, "SURVIVED": 0}
    def work(i):
        d = "/tmp/mutw_%d_%d" % (os.getpid(), i)
        shutil.copytree(tree, d, ignore=shutil.ignore_patterns(".git", "build"), symlinks=True)
        env = dict(os.environ, REPO=d, VERIF_JOBS=os.environ.get("MUT_JOBS", "3"))
        while True:
            try:
                n, text, what = q.get_nowait()
            except queue.Empty:
                break
            with open(os.path.join(d, path), "w") as f:
                f.write(text)
            result, by = "SURVIVED", ""
            for c in checks:
                p = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "run.py"), c], env=env, capture_output=True, text=True)
                if p.returncode == 1 and "VIOLATION" in p.stdout:
                    result, by = "killed", c
                    break
                if p.returncode != 0:
                    result, by = "stillborn", c
                    break
            with lock:
                count[result] += 1
                with open(log, "a") as f:
                    f.write("%s %s:%d %s %s\n" % (result, path, n + 1, by, what))
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/vbuild/" + d.strip("/").replace("/", "_"), ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    with open(log, "a") as f:
        f.write("# %s %s\n" % (path, count))

main()
