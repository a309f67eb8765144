"""Random thread pool scenarios (see harness/pool.cpp) and their Pool.tla configuration."""
THROWN = -99


class Gen:
    def __init__(self, rnd, kind):
        self.r, self.kind = rnd, kind

    def chance(self, p):
        return self.r.random() < p

    def task(self, ops=None, throws=False):
        r = self.r
        if ops is None:
            ops = []
            if self.chance(0.6):
                ops.append({"o": "work", "n": r.randint(1, 6)})
            if self.chance(0.25):
                ops.append({"o": "sleep", "n": r.choice([1, 3, 10])})
        self.tasks.append({"ops": ops, "ret": THROWN if throws else r.randint(0, 90)})
        return len(self.tasks)

    def cfg(self, **kw):
        r = self.r
        d = r.choice([1, 1, 2, 2, 3, 4])
        c = {"d": d, "sec": 0, "max": d + r.choice([0, 0, 1, 2]), "range": r.choice([0, 1, 7]), "bs": r.choice([1, 2, 3]),
             "epoch": r.choice([1, 2, 5]), "batch": r.choice([0, 0, 1]), "mon": 0, "ttl": r.choice([1, 2, 5]), "deliver": r.choice([0, 1])}
        c["sec"] = r.choice([0, 0, 1, 2])
        if self.chance(0.15):
            c["mon"] = 1
        c.update(kw)
        return c

    def idx(self, d, mx):
        r = self.r
        return r.choice([-1, -1, -1, -100, r.randrange(d), r.randrange(d), d, mx, mx + 3])

    def put(self, c, depth=0):
        """one operation that hands over a new task"""
        r = self.r
        k = r.random()
        sec = c["mon"] or (c["sec"] > 0 and c["max"] > c["d"])
        if k < 0.12 and c["max"] > c["d"]:
            t = self.task(throws=self.chance(0.15))
            self.futs.append(t)
            return {"o": "prio", "t": t, "n": r.randint(-3, 5)}
        if k < 0.2 and sec and c["max"] > c["d"]:
            t = self.task(throws=self.chance(0.15))
            self.futs.append(t)
            return {"o": "commit", "t": t, "i": -101}
        if k < 0.34:
            f = self.chance(0.5)
            ts = [self.task(throws=f and self.chance(0.1)) for _ in range(r.randint(2, 4))]
            if f:
                self.futs += ts
            return {"o": "bulk", "ts": ts, "i": r.choice([r.randrange(c["d"]), r.randrange(c["d"]), c["d"]]), "f": int(f)}
        nested = None
        if depth < 2 and self.chance(0.2):
            nested = [{"o": "work", "n": r.randint(1, 3)}] + [self.put(c, depth + 1) for _ in range(r.randint(1, 2))]
        if k < 0.55:
            t = self.task(nested)
            return {"o": "exec", "t": t, "i": self.idx(c["d"], c["max"])}
        t = self.task(nested, throws=self.chance(0.12))
        if depth == 0:
            self.futs.append(t)
        return {"o": "commit", "t": t, "i": self.idx(c["d"], c["max"])}

    def build(self):
        r = self.r
        self.tasks, self.futs, self.groups = [], [], []
        users = [[]]
        c = getattr(self, "k_" + self.kind)(users)
        return {"cfg": c, "tasks": self.tasks, "users": users, "groups": self.groups}

    # ---------------------------------------------------------------- families
    def k_tasks(self, users):
        """several users hand over tasks, tasks hand over tasks; every result is fetched"""
        r = self.r
        c = self.cfg()
        nu = r.choice([0, 1, 2])
        for u in range(nu):
            self.futs = []
            l = []
            for _ in range(r.randint(1, 4)):
                l.append(self.put(c))
                if self.chance(0.2):
                    l.append({"o": "work", "n": r.randint(1, 5)})
                if self.futs and self.chance(0.3):
                    l.append({"o": "get", "t": self.futs.pop(r.randrange(len(self.futs)))})
            r.shuffle(self.futs)
            l += [{"o": "get", "t": t} for t in self.futs if self.chance(0.8)]
            users.append(l)
        self.futs = []
        m = users[0]
        m += [{"o": "spawn", "u": u + 1} for u in range(nu)]
        for _ in range(r.randint(1, 5)):
            m.append(self.put(c))
            if self.chance(0.15):
                m.append({"o": "sleep", "n": r.choice([1, 5, 20])})
            if self.futs and self.chance(0.3):
                m.append({"o": "get", "t": self.futs.pop(0)})
        r.shuffle(self.futs)
        m += [{"o": "get", "t": t} for t in self.futs if self.chance(0.8)]
        m += [{"o": "join", "u": u + 1} for u in range(nu)]
        m.append({"o": "all"})
        return c

    def k_capacity(self, users):
        """as many tasks as there are threads can run at the same time, and a task may wait for another"""
        r = self.r
        d = r.choice([2, 2, 3, 4])
        c = self.cfg(d=d, max=d + r.choice([0, 1]), sec=0, mon=0, batch=0, range=7)
        m = users[0]
        shape = r.choice(["barrier", "bound", "tree", "room"])
        if shape in ("barrier", "bound"):
            ts = [self.task([{"o": "mark", "m": 1}, {"o": "waitmark", "m": 1, "n": d}, {"o": "work", "n": 1}]) for _ in range(d)]
            if self.chance(0.4):
                ts += [self.task() for _ in range(r.randint(1, 3))]
            ix = list(range(d)) if shape == "bound" else [r.choice([-1, -1, -100, 0]) for _ in range(d)]
            r.shuffle(ix)
            l = [{"o": "commit", "t": t, "i": ix[i] if i < d else -1} for i, t in enumerate(ts)]
            if shape == "barrier":
                r.shuffle(l)
            m += l + [{"o": "get", "t": t} for t in ts]
        elif shape == "tree":
            # d - 1 tasks wait for children of their own
            for _ in range(d - 1):
                k = self.task()
                ops = [{"o": "commit", "t": k, "i": r.choice([-1, -1, 0, -100])}, {"o": "get", "t": k}]
                if self.chance(0.4):
                    k2 = self.task()
                    ops.insert(r.randint(0, 1), {"o": "commit", "t": k2, "i": -1})
                    ops.append({"o": "get", "t": k2})
                t = self.task(ops)
                m.append({"o": "commit", "t": t, "i": -1})
                self.futs.append(t)
            m += [{"o": "get", "t": t} for t in self.futs]
        else:
            # d - 1 tasks are stuck until the users go on; others still get through
            st = [self.task([{"o": "waitmark", "m": 1, "n": 1}]) for _ in range(d - 1)]
            m += [{"o": "commit", "t": t, "i": r.choice([-1, 0, r.randrange(d)])} for t in st]
            fr = [self.task() for _ in range(r.randint(1, 5))]
            m += [{"o": "commit", "t": t, "i": r.choice([-1, -1, 0, r.randrange(d), -100])} for t in fr]
            m += [{"o": "get", "t": t} for t in fr] + [{"o": "mark", "m": 1}] + [{"o": "get", "t": t} for t in st]
        m.append({"o": "all"})
        return c

    def k_groups(self, users):
        r = self.r
        c = self.cfg()
        g = 0

        def submit():
            nonlocal g
            g += 1
            n = r.choice([0, 1, 1, 2, 3, 4])
            ts = [self.task([{"o": "work", "n": r.randint(1, 4)}] * r.randint(0, 1)
                            + ([{"o": "sleep", "n": r.choice([2, 5, 10, 20, 40])}] if self.chance(0.6) else [])
                            + ([{"o": "work", "n": 1}] if self.chance(0.2) else []), throws=self.chance(0.06)) for _ in range(n)]
            one = int(n == 1 and self.chance(0.5))
            o = {"o": "submit", "g": g, "ts": ts, "fin": r.randint(0, 1), "one": one}
            if self.chance(0.5):
                o["ttl"] = r.choice([0, 1, 5, 10, 20, 50, 1000])
            if not one and self.chance(0.4):
                o["gttl"] = r.choice([0, 1, 5, 10, 20, 50, 1000])
            self.groups.append({"ts": ts, "fin": o["fin"]})
            return o
        nu = r.choice([0, 0, 1, 2])
        for u in range(nu):
            users.append([submit() for _ in range(r.randint(1, 2))])
        m = users[0]
        m += [{"o": "spawn", "u": u + 1} for u in range(nu)]
        for _ in range(r.randint(1, 3)):
            if self.chance(0.4):
                self.futs = []
                m.append(self.put(c))
            m.append(submit())
        m += [{"o": "join", "u": u + 1} for u in range(nu)] + [{"o": "all"}]
        return c

    def k_prio(self, users):
        """a gate keeps the secondary threads busy while tasks of several priorities queue up"""
        r = self.r
        d = r.choice([1, 2])
        room = r.choice([1, 1, 1, 2, 3])
        c = self.cfg(d=d, max=d + room, sec=r.choice([0, 0, 1, room]), mon=int(self.chance(0.1)))
        m = users[0]
        for rnd in range(r.choice([1, 1, 2])):
            gates = []
            if self.chance(0.85):
                n = r.randint(1, room)
                for _ in range(n):
                    t = self.task([{"o": "waitmark", "m": rnd, "n": 1}])
                    gates.append(t)
                    m.append({"o": "prio", "t": t, "n": r.randint(5, 9)})
            ts = [self.task(throws=self.chance(0.05)) for _ in range(r.randint(2, 6))]
            for t in ts:
                if self.chance(0.12) and (c["sec"] or gates):
                    m.append({"o": "commit", "t": t, "i": -101})
                else:
                    m.append({"o": "prio", "t": t, "n": r.choice([-200, -2, -1, 0, 0, 1, 2, 3, 7, 10])})
                if self.chance(0.1):
                    m.append({"o": "sleep", "n": 1})
                if self.chance(0.15):
                    m.append({"o": "commit", "t": self.task(), "i": -1})
            m.append({"o": "mark", "m": rnd})
            m += [{"o": "get", "t": t} for t in ts + gates if self.chance(0.9)]
            m.append({"o": "all"})
            if not c["mon"] and self.chance(0.4):
                m.append({"o": "release", "n": r.choice([0, 1, 1, 2, 5])})
                if r.random() < 0.5:
                    break
        return c

    def k_life(self, users):
        """destroy with tasks pending, initialise again, configure"""
        r = self.r
        c = self.cfg()
        m = users[0]
        for cyc in range(r.choice([1, 2, 3])):
            self.futs = []
            for _ in range(r.randint(1, 4)):
                t = self.task()
                k = r.random()
                if k < 0.2 and c["max"] > c["d"]:
                    m.append({"o": "prio", "t": t, "n": r.randint(-2, 3)})
                    self.futs.append(t)
                elif k < 0.6:
                    m.append({"o": "commit", "t": t, "i": self.idx(c["d"], c["max"])})
                    self.futs.append(t)
                else:
                    m.append({"o": "exec", "t": t, "i": self.idx(c["d"], c["max"])})
                if self.futs and self.chance(0.25):
                    m.append({"o": "get", "t": self.futs.pop()})
                if self.chance(0.1):
                    m.append({"o": r.choice(["init", "setcfg", "isinit"])})
            if self.chance(0.2) and not c["mon"]:
                m.append({"o": "release", "n": r.choice([0, 1, 3])})
            if self.chance(0.75):
                m.append({"o": "destroy"})
                if self.chance(0.3):
                    m.append({"o": r.choice(["destroy", "isinit", "setcfg"])})
                if self.chance(0.3):
                    m.append({"o": "sleep", "n": r.choice([1, 100, 2000])})
                m.append({"o": "init"})
                if self.chance(0.2):
                    m.append({"o": "isinit"})
        if self.chance(0.3):
            m.append({"o": "destroy"})
        return c

    def scenario(self, sid, seeds):
        s = self.build()
        s["id"], s["seeds"] = sid, seeds
        return s


def config(s):
    c = s["cfg"]
    return {"n": len(s["tasks"]), "ret": [t["ret"] for t in s["tasks"]], "d": c["d"], "max": c["max"], "sec": c["sec"], "mon": c["mon"],
            "grp": [g["ts"] for g in s["groups"]], "fin": [g["fin"] for g in s["groups"]]}


def project(run):
    return [{"v": x["ev"], "e": x.get("e", 0), "s": x.get("s", ""), "n": x.get("n", 0), "a": x.get("a", 0), "ms": x["ms"]} for x in run["ev"]]
