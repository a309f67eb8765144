"""Pipeline managers used from several threads: scenarios for harness/pipe.cpp, histories for spec/Mgr.tla."""


class Gen:
    def __init__(self, rnd, kind):
        self.r, self.kind = rnd, kind

    def chance(self, p):
        return self.r.random() < p

    def pipe(self, block=None):
        """a small pipeline; block: (mark it sets when it runs, mark it waits for)"""
        r = self.r
        n = r.choice((1, 1, 2, 2, 3))
        els = []
        for i in range(1, n + 1):
            e = {"id": i, "k": "node", "par": 0, "run": []}
            dep = [j for j in range(1, i) if self.chance(0.5)]
            if dep:
                e["dep"] = dep
            if self.chance(0.7):
                e["run"].append({"o": "work", "n": r.randint(1, 10)} if self.chance(0.8) else {"o": "sleep", "n": r.randint(1, 5)})
            els.append(e)
        if block:
            els[0]["run"] += [{"o": "mark", "n": block[0]}, {"o": "waitmark", "n": block[1]}]
        elif self.chance(0.3):
            e = r.choice(els)
            e["res"] = [0 if self.chance(0.5) else -(100 + e["id"]) for _ in range(r.randint(1, 4))] + [0]
        d = r.choice((1, 1, 2))
        p = {"cfg": {"d": d, "max": 4, "bs": 2, "epoch": r.randint(0, 2), "range": d, "batch": 0}, "eng": r.choice((0, 0, 1, 2)), "els": els}
        return p

    def k_hammer(self):
        """several threads use the manager at once"""
        r = self.r
        n = r.choice((1, 2, 2, 3))
        pipes = [self.pipe() for _ in range(n)]
        main = [{"o": "mgr_new"}] + [{"o": "mgr_add", "p": i} for i in range(n)] + [{"o": "mgr_init"}]
        k = r.randint(2, 4)
        ths = []
        for _ in range(k):
            t = []
            for _ in range(r.randint(1, 3)):
                if self.chance(0.75):
                    t.append({"o": "mgr_run"})
                else:
                    t.append({"o": "mgr_fetch"})
                    t += [{"o": "mgr_frun", "own": 1}] * r.choice((0, 1, 1, 2))
                    t.append({"o": "mgr_release", "own": 1})
                if self.chance(0.2):
                    t.append({"o": "work", "n": r.randint(1, 6)})
            ths.append(t)
        rounds = r.choice((1, 1, 2))
        for q in range(rounds):
            # some of the threads in every round
            use = list(range(1, k + 1))
            main += [{"o": "spawn", "n": i} for i in use] + ([{"o": "mgr_run"}] if self.chance(0.3) else [])
            main += [{"o": "join", "n": i} for i in use]
            main += [{"o": "mgr_run"}] * r.choice((0, 1)) + [{"o": "mgr_size"}]
            if self.chance(0.3):
                main += [{"o": "mgr_destroy"}, {"o": "mgr_init"}]
        main.append({"o": "mgr_destroy"})
        return pipes, [main] + ths

    def k_block(self):
        """all pipelines are busy: run() and destroy() must be refused"""
        r = self.r
        n = r.choice((1, 2, 3))
        pipes = [self.pipe((1, 2)) for _ in range(n)]
        main = [{"o": "mgr_new"}] + [{"o": "mgr_add", "p": i} for i in range(n)] + [{"o": "mgr_init"}]
        busy = n if self.chance(0.7) else r.randint(1, n)
        main += [{"o": "spawn", "n": i + 1} for i in range(busy)] + [{"o": "waitmark", "n": 1, "cnt": busy}]
        ops = [{"o": "mgr_destroy"}, {"o": "mgr_size"}, {"o": "mgr_find", "p": r.randrange(n)}, {"o": "mgr_add", "p": 0},
               {"o": "mgr_remove", "p": r.randrange(n)}, {"o": "mgr_clear"}, {"o": "mgr_init"}]
        if busy == n:
            ops += [{"o": "mgr_run"}, {"o": "mgr_fetch"}]
        else:
            ops.append({"o": "mgr_release", "p": r.randrange(n)})
            ops = [o for o in ops if o["o"] != "mgr_release"]
        r.shuffle(ops)
        main += ops[:r.randint(2, len(ops))] + [{"o": "mark", "n": 2}] + [{"o": "join", "n": i + 1} for i in range(busy)]
        main += [{"o": "mgr_run"}] * r.choice((0, 1, 2)) + [{"o": "mgr_destroy"}]
        if self.chance(0.4):
            main += [{"o": "mgr_init"}, {"o": "mgr_run"}, {"o": "mgr_destroy"}]
        return pipes, [main] + [[{"o": "mgr_run"}] * r.choice((1, 1, 2)) for _ in range(busy)]

    def k_pair(self):
        """several threads give back the same fetched pipelines: each is given back once"""
        r = self.r
        n = r.choice((1, 2, 2, 3))
        pipes = [self.pipe() for _ in range(n)]
        main = [{"o": "mgr_new"}] + [{"o": "mgr_add", "p": i} for i in range(n)] + [{"o": "mgr_init"}]
        main += [{"o": "mgr_fetch"}] * (n + (1 if self.chance(0.2) else 0))
        k = r.randint(2, 3)
        ths = []
        for _ in range(k):
            ps = [i for i in range(n) if self.chance(0.8)]
            r.shuffle(ps)
            ths.append([{"o": "mgr_release", "p": i} for i in ps])
        left = [i for i in range(n) if not any(o["p"] == i for t in ths for o in t)]
        main += [{"o": "spawn", "n": i + 1} for i in range(k)]
        main += [{"o": "mgr_release", "p": i} for i in range(n) if self.chance(0.3)]
        main += [{"o": "join", "n": i + 1} for i in range(k)]
        main += [{"o": "mgr_release", "p": i} for i in left]
        # as many as there are pipelines can be taken, then none
        runs = [{"o": "mgr_run"}] * r.choice((1, 1, 2))
        q = r.randint(n, n + 1)
        ths += [list(runs) for _ in range(q)]
        main += [{"o": "spawn", "n": k + i + 1} for i in range(q)] + [{"o": "join", "n": k + i + 1} for i in range(q)]
        if self.chance(0.5):
            main += [{"o": "mgr_fetch"}] * (n + 1) + [{"o": "mgr_release", "p": i} for i in range(n)]
        main += [{"o": "mgr_size"}, {"o": "mgr_destroy"}]
        return pipes, [main] + ths

    def k_seq(self):
        """any sequence of operations by one thread"""
        r = self.r
        n = r.choice((1, 2, 3))
        pipes = [self.pipe() for _ in range(n)]
        if self.chance(0.15):
            e = r.choice(pipes[r.randrange(n)]["els"])
            e["init"] = [-(100 + e["id"])]
        main, up, mem, held = [{"o": "mgr_new"}], False, [0] * n, set()
        for _ in range(r.randint(4, 16)):
            p = r.randrange(n)
            k = r.choice(("mgr_add", "mgr_add", "mgr_add", "mgr_run", "mgr_run", "mgr_run", "mgr_init", "mgr_init", "mgr_destroy", "mgr_find", "mgr_size",
                          "mgr_remove", "mgr_clear", "fetch", "mgr_release"))
            if k == "mgr_add" and mem[p] and not self.chance(0.05):
                k = "mgr_find"
            if k == "fetch":
                main += [{"o": "mgr_fetch"}, {"o": r.choice(("mgr_frun", "mgr_run", "mgr_size")), "own": 1}]
                main += [{"o": r.choice(("mgr_destroy", "mgr_init", "mgr_run", "mgr_fetch"))}] if self.chance(0.0) else []
                main += [{"o": "mgr_release", "own": 1}]
                continue
            main.append({"o": k, "p": p})
            if k == "mgr_add" and not up:
                mem[p] += 1
            elif k == "mgr_init":
                up = True
            elif k == "mgr_destroy":
                up = False
            elif k == "mgr_clear" and not up:
                mem = [0] * n
        main.append({"o": "mgr_destroy"})
        return pipes, [main]

    def scenario(self, sid, seeds):
        pipes, threads = getattr(self, "k_" + self.kind)()
        s = {"id": sid, "seeds": seeds, "pipes": pipes, "threads": threads}
        if self.kind == "hammer" and self.chance(0.3):
            d = self.r.choice((1, 2, 3))
            s["pools"] = [{"d": d, "max": 4, "bs": 2, "range": d, "batch": 0}]
            for p in pipes:
                if self.chance(0.7):
                    p["shared"] = 0
        return s


def configs(s):
    return [{"dep": [[e.get("dep", []) for e in p["els"]] for p in s["pipes"]],
             "fail": [1 if any("init" in e for e in p["els"]) else 0 for p in s["pipes"]]}]


KEEP = {"call", "ret", "rb", "re", "ie", "de", "end", "fault"}


def projects(s, run):
    return [[{"v": x["ev"], "p": x["p"] + 1, "e": x["e"], "s": x["s"], "n": x["n"], "a": x.get("a", 0), "t": x.get("t", 0), "ms": x.get("ms", 0)}
             for x in run["ev"] if x["ev"] in KEEP]]
