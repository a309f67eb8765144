import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def classpath():
    for d in ("/opt/veriftools/tla",):
        jars = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(".jar")]
        return ":".join([JAR] + [j for j in jars if j != JAR])


def run(module, cfg=None, env=None, workers=8, args=(), timeout=800, heap="6g", tmp=None):
    """runs TLC on spec/<module>.tla; returns (exit code, output, stats)"""
    d = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", classpath(), "tlc2.TLC",
               "-metadir", d, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(args) + [module + ".tla"]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
        st = {"wall": time.time() - t0, "states": 0, "distinct": 0, "depth": 0}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if m:
            st["states"], st["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m[-1])
        return rc, out, st
    finally:
        shutil.rmtree(d, ignore_errors=True)
