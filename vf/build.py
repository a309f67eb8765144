"""Builds the harnesses from /repo's current sources (clang, ThreadSanitizer instrumentation redirected to vsched)."""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
H = os.path.join(VERIF, "harness")
BASE = ["clang++", "-std=c++17", "-g1", "-w", "-D_ENABLE_LIKELY_", "-I" + SRC, "-I" + H]
ALL = ["pipe", "pool", "msg"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cpp", ".hpp", ".inl", ".cc", ".cxx", ".c")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-3000:])


def sources():
    out = []
    for root, ds, fs in sorted(os.walk(SRC)):
        ds.sort()
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".cxx"))]
    return out


def build(progs):
    """progs: names of harnesses (harness/NAME.cpp); returns {name: path}"""
    d = os.path.join(BUILD, tree_hash(SRC, H))
    if os.path.isdir(BUILD):           # other trees' leftovers
        for x in os.listdir(BUILD):
            if os.path.join(BUILD, x) != d and os.path.isdir(os.path.join(BUILD, x)) and not x.startswith("run"):
                try:
                    if os.path.getmtime(os.path.join(BUILD, x)) < __import__("time").time() - 3600:
                        shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
                except OSError:
                    pass
    os.makedirs(d, exist_ok=True)
    out = {p: os.path.join(d, p) for p in progs}
    if all(os.path.exists(x) for x in out.values()):
        return out
    jobs = []          # (cmd, target)
    repo_objs = []
    have_repo = os.path.join(d, "repo.ok")

    def add(cmd, tgt):
        if not os.path.exists(tgt):
            jobs.append((cmd + ["-c", "-o", tgt + ".tmp"], tgt))

    for n in ("vsched", "driver"):
        add(BASE + ["-O2", os.path.join(H, n + ".cpp")], os.path.join(d, n + ".o"))
    for p in progs:
        add(BASE + TSAN + ["-O0", os.path.join(H, p + ".cpp")], os.path.join(d, p + ".o"))
    srcs = sources()
    N = 8
    if os.path.exists(have_repo):
        repo_objs = open(have_repo).read().split()
    else:
        chunks = [srcs[i::N] for i in range(N)]
        for i, c in enumerate(chunks):
            if not c:
                continue
            u = os.path.join(d, "u%d.cpp" % i)
            open(u, "w").write("".join('#include "%s"\n' % x for x in c))
            t = os.path.join(d, "u%d.o" % i)
            repo_objs.append(t)
            add(BASE + TSAN + ["-O1", u], t)

    def run(job):
        cmd, tgt = job
        try:
            sh(cmd)
            os.rename(tgt + ".tmp", tgt)
            return None
        except BuildError as e:
            return (tgt, str(e))

    with ThreadPoolExecutor(N + 2) as ex:
        errs = [x for x in ex.map(run, jobs) if x]
    if errs and all(os.path.basename(t).startswith("u") for t, _ in errs):
        # file-local names may clash when several files are compiled as one: compile them one by one
        repo_objs, jobs = [], []
        for s in srcs:
            t = os.path.join(d, os.path.relpath(s, SRC).replace("/", "_") + ".o")
            repo_objs.append(t)
            add(BASE + TSAN + ["-O1", s], t)
        with ThreadPoolExecutor(N) as ex:
            errs = [x for x in ex.map(run, jobs) if x]
    if errs:
        raise BuildError("\n".join(e for _, e in errs)[:6000])
    open(have_repo, "w").write("\n".join(repo_objs))
    for p in progs:
        sh(["clang++"] + repo_objs + [os.path.join(d, x + ".o") for x in (p, "driver", "vsched")]
           + ["-rdynamic", "-ldl", "-lpthread", "-o", out[p] + ".tmp"])
        os.rename(out[p] + ".tmp", out[p])
    return out


if __name__ == "__main__":
    print(build(sys.argv[1:] or ["pipe"]))
