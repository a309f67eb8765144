"""Random message scenarios (see harness/msg.cpp)."""


class Gen:
    def __init__(self, rnd, kind):
        self.r, self.kind = rnd, kind

    def chance(self, p):
        return self.r.random() < p

    def val(self):
        self.v += 1
        return self.v

    def pause(self, l):
        k = self.r.random()
        if k < 0.2:
            l.append({"o": "work", "n": self.r.randint(1, 5)})
        elif k < 0.3:
            l.append({"o": "sleep", "n": self.r.choice([1, 2, 5])})

    def k_sr(self):
        """producers and consumers on bounded topics; main drains"""
        r = self.r
        nt = r.choice([1, 1, 2])
        m = self.users[0]
        for t in range(1, nt + 1):
            m.append({"o": "create", "t": t, "n": r.choice([2, 2, 3, 4, 6]), "a": 0})
        for u in range(r.randint(1, 3)):
            l = []
            mode = r.choice([0, 1, 2, -1])
            for _ in range(r.randint(1, 5)):
                l.append({"o": "send", "t": r.randint(1, nt), "n": self.val(), "a": mode if mode >= 0 else r.randint(0, 2)})
                self.pause(l)
            self.users.append(l)
        for u in range(r.choice([0, 0, 1, 2])):
            l = []
            for _ in range(r.randint(1, 5)):
                l.append({"o": "recv", "t": r.randint(1, nt), "to": r.choice([0, 1, 3, 10, 30])})
                self.pause(l)
            self.users.append(l)
        if self.chance(0.3):      # somebody else uses the manager meanwhile
            l = []
            for i in range(r.randint(1, 3)):
                l.append({"o": "create", "t": nt + 1 + i, "n": 3, "a": r.randint(0, 1)})
                if self.chance(0.5):
                    l.append({"o": "remove", "t": nt + 1 + i})
            self.users.append(l)
        n = len(self.users)
        pre = []
        if self.chance(0.4):
            for _ in range(r.randint(1, 4)):
                pre.append({"o": "send", "t": r.randint(1, nt), "n": self.val(), "a": r.randint(1, 2)})
        m += pre + [{"o": "spawn", "n": u} for u in range(1, n)] + [{"o": "drain", "ts": list(range(1, nt + 1)), "to": r.choice([1, 2, 5, 20])}]
        m += [{"o": "join", "n": u} for u in range(1, n)]
        if self.chance(0.3):
            m += [{"o": "send", "t": 1, "n": self.val(), "a": 2}, {"o": r.choice(["remove", "clear"]), "t": 1}, {"o": "recv", "t": 1, "to": 1},
                  {"o": "send", "t": 1, "n": self.val(), "a": 0}, {"o": "create", "t": 1, "n": 3, "a": 0}, {"o": "recv", "t": 1, "to": 1}]

    def k_race(self):
        """existing topics and connections are used while others are created: the tables grow meanwhile"""
        r = self.r
        m = self.users[0]
        m += [{"o": "create", "t": 1, "n": 8, "a": 0}, {"o": "bind", "t": 1, "c": 1, "n": 8}]
        pre = r.randint(8, 12)
        m += [{"o": "create", "t": 10 + i, "n": 2, "a": 0} for i in range(pre)]
        m += [{"o": "bind", "t": 10 + i if self.chance(0.7) else 1, "c": 10 + i, "n": 30} for i in range(pre)]
        l = []
        for i in range(r.randint(2, 5)):
            l += [{"o": "create", "t": 30 + i, "n": 2, "a": 0}] if self.chance(0.5) else [{"o": "bind", "t": 30 + i, "c": 30 + i, "n": 2}]
        self.users.append(l)
        for u in range(r.randint(1, 2)):
            l = []
            for _ in range(r.randint(2, 6)):
                k = r.random()
                if k < 0.3:
                    l.append({"o": "send", "t": 1, "n": self.val(), "a": 1})
                elif k < 0.5:
                    l.append({"o": "recv", "t": 1, "to": 0})
                elif k < 0.8:
                    l.append({"o": "pub", "t": 1, "n": self.val(), "a": 1})
                else:
                    l.append({"o": "sub", "c": 1, "to": 0})
            self.users.append(l)
        n = len(self.users)
        m += [{"o": "spawn", "n": u} for u in range(1, n)] + [{"o": "join", "n": u} for u in range(1, n)]
        m += [{"o": "recv", "t": 1, "to": 0}, {"o": "sub", "c": 1, "to": 0}]

    def k_block(self):
        """as many messages as are received, everybody waits"""
        r = self.r
        m = self.users[0]
        m.append({"o": "create", "t": 1, "n": r.choice([2, 2, 3, 5]), "a": 0})
        n = r.randint(2, 8)
        np, nc = r.randint(1, 3), r.randint(1, 3)
        ps, cs = [[] for _ in range(np)], [[] for _ in range(nc)]
        for _ in range(n):
            l = r.choice(ps)
            l.append({"o": "send", "t": 1, "n": self.val(), "a": 0})
            self.pause(l)
            l = r.choice(cs)
            l.append({"o": "recv", "t": 1, "to": -1})
            self.pause(l)
        self.users += ps + cs
        k = len(self.users)
        ids = list(range(1, k))
        r.shuffle(ids)
        m += [{"o": "spawn", "n": u} for u in ids] + [{"o": "join", "n": u} for u in ids] + [{"o": "recv", "t": 1, "to": 1}]

    def k_life(self):
        """topics created, duplicated, removed; one user"""
        r = self.r
        m = self.users[0]
        for _ in range(r.randint(4, 14)):
            t = r.randint(1, 2)
            k = r.random()
            if k < 0.3:
                m.append({"o": "create", "t": t, "n": r.choice([2, 3]), "a": r.choice([0, 0, 0, 1]) if t == 2 else 0})
            elif k < 0.42:
                m.append({"o": "remove", "t": t})
            elif k < 0.47:
                m.append({"o": "clear"})
            elif k < 0.75:
                m.append({"o": "send", "t": 1, "n": self.val(), "a": r.choice([1, 2])})
            else:
                m.append({"o": "recv", "t": 1, "to": r.choice([0, 1])})

    def k_ps(self):
        """publishers, subscribers, connections that come and go"""
        r = self.r
        m = self.users[0]
        nt = r.choice([1, 1, 2])
        nc = r.randint(1, 3)
        tc = {}
        for c in range(1, nc + 1):
            tc[c] = r.randint(1, nt)
            m.append({"o": "bind", "t": tc[c], "c": c, "n": r.choice([2, 3, 4, 6])})
        for u in range(r.randint(1, 2)):
            l = []
            mode = r.choice([0, 1, 2, -1])
            for _ in range(r.randint(1, 4)):
                l.append({"o": "pub", "t": r.randint(1, nt), "n": self.val(), "a": mode if mode >= 0 else r.randint(0, 2)})
                self.pause(l)
            self.users.append(l)
        nx = nc
        for c in range(1, nc + 1):
            if self.chance(0.4):
                l = []
                for _ in range(r.randint(1, 4)):
                    l.append({"o": "sub", "c": c, "to": r.choice([0, 1, 3, 10, 30])})
                    self.pause(l)
                self.users.append(l)
        late = []
        if self.chance(0.35):     # a subscriber that comes later; its buffer is large enough
            nx += 1
            late.append(nx)
            l = [{"o": "bind", "t": r.randint(1, nt + 1), "c": nx, "n": 40}]
            for _ in range(r.randint(0, 3)):
                l.append({"o": "sub", "c": nx, "to": r.choice([0, 2])})
            if self.chance(0.3):
                l += [{"o": "bind", "t": nt + 1, "c": nx + 1, "n": 3}, {"o": "detach", "t": nt + 1, "c": nx + 1}]
                nx += 1
            self.users.append(l)
        n = len(self.users)
        m += [{"o": "spawn", "n": u} for u in range(1, n)] + [{"o": "drain", "cs": list(range(1, nc + 1)), "to": r.choice([1, 2, 5, 20])}]
        m += [{"o": "join", "n": u} for u in range(1, n)]
        for c in late:
            m.append({"o": "sub", "c": c, "to": 1})
        live = list(range(1, nc + 1))
        for _ in range(r.randint(0, 6)):
            k = r.random()
            if k < 0.25 and live:
                c = r.choice(live)
                m.append({"o": "detach", "t": tc[c] if self.chance(0.8) else r.randint(1, nt + 1), "c": c})
                m.append({"o": "sub", "c": c, "to": 1})
            elif k < 0.6:
                m.append({"o": "pub", "t": r.randint(1, nt + 1), "n": self.val(), "a": r.randint(1, 2)})
            elif k < 0.65:
                m.append({"o": "drop", "t": r.randint(1, nt + 1)})
            elif k < 0.72:
                nx += 1
                m.append({"o": "bind", "t": r.randint(1, nt), "c": nx, "n": r.randint(2, 4)})
                live.append(nx)
                tc[nx] = m[-1]["t"]
            elif live:
                m.append({"o": "sub", "c": r.choice(live), "to": r.choice([0, 1])})

    def k_psblock(self):
        """every subscriber gets every publication, everybody waits"""
        r = self.r
        m = self.users[0]
        nc = r.randint(1, 3)
        for c in range(1, nc + 1):
            m.append({"o": "bind", "t": 1, "c": c, "n": r.choice([2, 2, 3, 5])})
        n, np = r.randint(1, 5), r.randint(1, 2)
        ps = [[] for _ in range(np)]
        for _ in range(n):
            l = r.choice(ps)
            l.append({"o": "pub", "t": 1, "n": self.val(), "a": 0})
            self.pause(l)
        cs = []
        for c in range(1, nc + 1):
            l = []
            for _ in range(n):
                l.append({"o": "sub", "c": c, "to": -1})
                self.pause(l)
            cs.append(l)
        self.users += ps + cs
        ids = list(range(1, len(self.users)))
        r.shuffle(ids)
        m += [{"o": "spawn", "n": u} for u in ids] + [{"o": "join", "n": u} for u in ids]
        m += [{"o": "sub", "c": c, "to": 0} for c in range(1, nc + 1)]

    def scenario(self, sid, seeds):
        self.v, self.users = 0, [[]]
        getattr(self, "k_" + self.kind)()
        return {"id": sid, "seeds": seeds, "users": self.users}


def size(s):
    ops = [o for u in s["users"] for o in u]
    return max([o.get("t", 1) for o in ops] + [1]), max([o.get("c", 1) for o in ops] + [1])


def objects(s):
    """the objects whose histories are checked: topics of send/recv, connections of pub/sub"""
    ops = [o for u in s["users"] for o in u]
    if s["id"].startswith("race"):
        return [("t", 1), ("c", 1)]
    return ([("t", t) for t in sorted({o["t"] for o in ops if o["o"] in ("create", "send", "recv", "remove")})]
            + [("c", c) for c in sorted({o["c"] for o in ops if o["o"] == "bind"})])


def configs(s):
    nt, nc = size(s)
    return [{"u": len(s["users"]), "nt": i if k == "t" else nt, "nc": nc, "obj": i if k == "c" else 0} for k, i in objects(s)]


def projects(s, run):
    out = []
    for k, i in objects(s):
        tr, slot = [], {}
        for x in run["ev"]:
            op, e = x["s"], x["e"]
            if x["ev"] in ("call", "ret") and op != "clear":
                if k == "t" and (op not in ("create", "remove", "send", "recv") or e != i):
                    continue
                if k == "c" and (op not in ("bind", "detach", "pub", "drop", "sub") or (op == "sub" and e != i)):
                    continue
            tr.append({"v": x["ev"], "u": x["p"], "e": e, "s": op, "n": x["n"], "a": x.get("a", 0), "ms": x["ms"]})
        out.append(tr)
    return out
