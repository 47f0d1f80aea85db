"""Shape analysis of red-black tree code over the LLVM IR.

A state is a fragment of a tree around the nodes a function touches: known nodes, subtrees nobody has looked into,
and path segments (the context above the fragment, or a stretch of nodes between two known ones).  Nodes are made
known one at a time when a link is followed (all valid cases of a red-black tree), and at loop heads everything
the loop does not hold a pointer to is folded back, if it is a valid piece of a tree; the analysis goes on until
no new folded state turns up.  Black heights are sums of natural variables.  The in-order sequence is a word of
node and subtree names; `expect` is the word the tree shall have at the end."""
from collections import deque

from .absint import AnalysisError

RED, BLACK = 0, 1


class Split(Exception):
    def __init__(self, opts):
        self.opts = opts


class Bad(Exception):
    def __init__(self, rule, msg):
        self.rule, self.msg = rule, msg


# ---- heights: (constant, sorted variables)
def hadd(a, b):
    return a[0] + b[0], tuple(sorted(a[1] + b[1]))


def hk(c):
    return c, ()


class St:
    _n = [0]

    def __init__(self):
        self.nodes = {}       # id -> [left, right, parent, colour]
        self.T = {}           # k -> dict(h, nr, nn, par, word)
        self.G = {}           # segments: k -> dict(up, H, d, cp, nn, before, after, hole)
        self.res = {}
        self.expect = []
        self.open = None
        self.mem = {}         # fields of the tree object: offset -> value
        self.frames = []
        self.marks = set()
        self.log = []
        self.notfirst = set()
        self.was = {}
        self.nst = 0

    def copy(self):
        s = St()
        s.nodes = {k: list(v) for k, v in self.nodes.items()}
        s.T = {k: dict(v) for k, v in self.T.items()}
        s.G = {k: dict(v) for k, v in self.G.items()}
        s.res = dict(self.res)
        s.expect = list(self.expect)
        s.open = self.open
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.marks = set(self.marks)
        s.log = list(self.log)
        s.notfirst = set(self.notfirst)
        s.was, s.nst = self.was, self.nst
        return s

    def seen_by(self):
        """what decides how the code goes on: its values, and how often it has written"""
        return self.nst, [sorted(f.env.items()) for f in self.frames]

    def same_values(self, old):
        new = [sorted(f.env.items()) for f in self.frames]
        return len(new) == len(old) and all([v for v, _ in a] == [v for v, _ in b] and
                                            all(self.val(x) == self.val(y) for (_, x), (_, y) in zip(a, b))
                                            for a, b in zip(new, old))

    @classmethod
    def new(cls):
        cls._n[0] += 1
        return cls._n[0]

    def var(self):
        return 0, ("h%06d" % self.new(),)

    # ---- building
    def subtree(self, h, nr, par, nn=False, word=None):
        k = self.new()
        self.T[k] = {"h": h, "nr": nr, "nn": nn, "par": par, "word": ["t%d" % k] if word is None else word}
        return k

    def node(self, left, right, par, col):
        n = self.new()
        self.nodes[n] = [left, right, par, col]
        return n

    def segment(self, **kw):
        k = self.new()
        d = {"up": None, "H": None, "d": hk(0), "cp": "any", "nn": False, "before": ["b%d" % k], "after": ["a%d" % k],
             "hole": None, "ucol": None}
        d.update(kw)
        self.G[k] = d
        return k

    # ---- values
    def val(self, v):
        while isinstance(v, tuple):
            if v[0] in ("T", "C", "S") and v[:2] in self.res:
                v = self.res[v[:2]]
            elif v[0] == "R":
                if self.open is None:
                    v = self.res[("R",)]
                else:
                    return v
            elif v[0] == "w":
                p = self.val(v[1])
                return 1 if p == 0 else ("w", p)
            elif v[0] == "o":
                p = self.val(v[1])
                if isinstance(p, tuple) and p[0] == "p":
                    return "p", p[1], p[2] + v[2]
                if p == 0:
                    return ("null", v[2]) if v[2] else 0
                return "o", p, v[2]
            else:
                return v
        return v

    def subst(self, v, t):
        """variable v := t"""
        def f(h):
            n = h[1].count(v)
            if not n:
                return h
            r = h[0], tuple(x for x in h[1] if x != v)
            for _ in range(n):
                r = hadd(r, t)
            return r
        for x in self.T.values():
            x["h"] = f(x["h"])
        for x in self.G.values():
            x["H"] = f(x["H"])
            x["d"] = f(x["d"])

    def zero(self, h):
        """make height h zero, False if it cannot be"""
        if h[0] > 0:
            return False
        for v in set(h[1]):
            self.subst(v, hk(0))
        return True

    def positive(self, h):
        """ways to make h at least one: list of (state, None)"""
        if h[0] > 0:
            return [self]
        out, cur = [], self
        for v in sorted(set(h[1])):
            s = cur.copy()
            s.subst(v, hadd(hk(1), s.var()))
            out.append(s)
            cur = cur.copy()
            cur.subst(v, hk(0))
        return out

    # ---- words
    def put(self, tok, new):
        i = self.expect.index(tok)
        self.expect[i:i + 1] = new

    def drop(self, toks):
        for t in toks:
            if isinstance(t, int):
                raise AnalysisError("shape: a node in an empty subtree")
            self.expect.remove(t)

    # ---- making nodes known
    def mat_T(self, k):
        """all cases of the root of subtree k"""
        out = []
        T = self.T[k]
        if not T["nn"]:
            s = self.copy()
            if s.zero(s.T[k]["h"]):
                s.drop(s.T[k]["word"])
                s.res["T", k] = 0
                del s.T[k]
                out.append(s)
        for col in (RED, BLACK):
            if col == RED and T["nr"]:
                continue
            if not T["word"]:
                continue
            if len(T["word"]) != 1 or T["word"][0] in self.marks or isinstance(T["word"][0], int):
                raise AnalysisError("shape: looks again into a folded piece")
            base = self.copy()
            for s in (base.positive(base.T[k]["h"]) if col == BLACK else [base]):
                t = s.T.pop(k)
                h = (t["h"][0] - col, t["h"][1])
                n = s.new()
                a = s.subtree(h, col == RED, ("p", n, 0))
                b = s.subtree(h, col == RED, ("p", n, 0))
                s.nodes[n] = [("T", a), ("T", b), t["par"], col]
                s.put(t["word"][0], s.T[a]["word"] + [n] + s.T[b]["word"])
                s.res["T", k] = ("p", n, 0)
                out.append(s)
        return out

    def empty(self, k):
        """closed segment k holds no node: None if it must"""
        s = self.copy()
        g = s.G[k]
        y, side = g["up"]
        if g["nn"] or not s.zero(g["d"]):
            return None
        if g["cp"] == "black" and g["ucol"] == RED:
            return None
        s.drop(g["before"] + g["after"])
        s.res["C", k] = ("p", y, 0)
        s.res["S", k] = ("p", g["hole"], 0)
        del s.G[k]
        return s

    def mat_up(self, k):
        """all cases of the node above the hole of segment k"""
        out = []
        g = self.G[k]
        if g["up"] is None:
            if not g["nn"] and g["cp"] != "black":
                s = self.copy()
                s.drop(g["before"] + g["after"])
                s.res["C", k] = 0
                s.open = None
                s.res["R",] = ("p", g["hole"], 0)
                del s.G[k]
                out.append(s)
        else:
            s = self.empty(k)
            if s is not None:
                out.append(s)
        for side in (0, 1):
            wd = g["after"] if side == 0 else g["before"]
            if not wd:
                continue
            if len(wd) != 1 or wd[0] in self.marks or isinstance(wd[0], int):
                raise AnalysisError("shape: looks again into a folded piece")
            for col in (RED, BLACK):
                if col == RED and g["cp"] == "black":
                    continue
                base = self.copy()
                sts = [base]
                if g["up"] is not None and col == BLACK:
                    sts = base.positive(base.G[k]["d"])
                for s in sts:
                    q = s.G.pop(k)
                    n = s.new()
                    t = s.subtree(q["H"], col == RED, ("p", n, 0))
                    x = ("p", q["hole"], 0)
                    k2 = s.new()
                    tok = "%s%d" % ("a" if side == 0 else "b", k2)
                    new = dict(q)
                    new["H"] = hadd(q["H"], hk(col))
                    if q["up"] is not None:
                        new["d"] = (q["d"][0] - col, q["d"][1])
                    new["cp"] = "black" if col == RED else "any"
                    new["nn"] = False
                    new["hole"] = n
                    if side == 0:
                        s.put(wd[0], [n] + s.T[t]["word"] + [tok])
                        new["after"] = [tok]
                        s.nodes[n] = [x, ("T", t), ("C", k2), col]
                    else:
                        s.put(wd[0], [tok] + s.T[t]["word"] + [n])
                        new["before"] = [tok]
                        s.nodes[n] = [("T", t), x, ("C", k2), col]
                    s.G[k2] = new
                    s.res["C", k] = ("p", n, 0)
                    s.res["S", k] = ("S", k2)
                    if s.open == k:
                        s.open = k2
                    out.append(s)
        return out

    def mat_down(self, k):
        """all cases of the top of the closed segment k"""
        out = []
        g = self.G[k]
        s = self.empty(k)
        if s is not None:
            out.append(s)
        y, _ = g["up"]
        for side in (0, 1):
            wd = g["after"] if side == 0 else g["before"]
            if not wd:
                continue
            if len(wd) != 1 or wd[0] in self.marks or isinstance(wd[0], int):
                raise AnalysisError("shape: looks again into a folded piece")
            for col in (RED, BLACK):
                if col == RED and g["ucol"] == RED:
                    continue
                base = self.copy()
                for s in (base.positive(base.G[k]["d"]) if col == BLACK else [base]):
                    q = s.G.pop(k)
                    n = s.new()
                    d = (q["d"][0] - col, q["d"][1])
                    t = s.subtree(hadd(q["H"], d), col == RED, ("p", n, 0))
                    k2 = s.new()
                    tok = "%s%d" % ("a" if side == 0 else "b", k2)
                    new = dict(q)
                    new.update(d=d, up=(n, side), nn=False, ucol=col)
                    if side == 0:
                        s.put(wd[0], [tok, n] + s.T[t]["word"])
                        new["after"] = [tok]
                        s.nodes[n] = [("S", k2), ("T", t), ("p", y, 0), col]
                    else:
                        s.put(wd[0], s.T[t]["word"] + [n, tok])
                        new["before"] = [tok]
                        s.nodes[n] = [("T", t), ("S", k2), ("p", y, 0), col]
                    s.G[k2] = new
                    s.res["S", k] = ("p", n, 0)
                    s.res["C", k] = ("C", k2)
                    out.append(s)
        return out

    def open_up(self, v):
        """v is an unresolved link: its cases"""
        if v[0] == "T":
            return self.mat_T(v[1])
        if v[0] == "C":
            return self.mat_up(v[1])
        if v[0] == "S":
            return self.mat_down(v[1])
        if v[0] == "R":
            raise AnalysisError("shape: follows the root of an unknown context")
        raise AnalysisError("shape: no cases of %r" % (v,))

    # ---- judging a finished tree
    def walk(self, v, par, col):
        """v hangs under par (of colour col): (height, word); raises Bad"""
        v = self.val(v)
        if v == 0:
            return hk(0), []
        if v[0] == "T":
            t = self.T[v[1]]
            maybe = not (t["h"] == hk(0) and t["nr"] and not t["nn"])
            if maybe and self.val(t["par"]) != par:
                raise Bad("links", "a subtree's upward link does not lead to the node it hangs under")
            if col == RED and not t["nr"]:
                raise Bad("colours", "a red node may be below a red one")
            return t["h"], list(t["word"])
        if v[0] == "S":
            g = self.G[v[1]]
            if ("p", g["up"][0], 0) != par:
                raise Bad("links", "a subtree's upward link does not lead to the node it hangs under")
            if col == RED and g["ucol"] != RED:
                raise Bad("colours", "a red node may be below a red one")
            x = g["hole"]
            h, w = self.walk(("p", x, 0), ("C", v[1]), None)
            if h != g["H"]:
                raise Bad("balance", "the number of black nodes differs between paths")
            if self.nodes[x][3] == RED and g["cp"] != "black":
                raise Bad("colours", "a red node may be below a red one")
            return hadd(g["H"], g["d"]), g["before"] + w + g["after"]
        if v[0] == "p" and v[2] == 0 and v[1] in self.nodes:
            n = v[1]
            l, r, p, c = self.nodes[n]
            if n in self.seen:
                raise Bad("links", "a node hangs under two others")
            self.seen.add(n)
            if self.val(p) != par:
                raise Bad("links", "a node's upward link does not lead to the node it hangs under")
            if c == RED and col == RED:
                raise Bad("colours", "a red node is below a red one")
            h1, w1 = self.walk(l, ("p", n, 0), c)
            h2, w2 = self.walk(r, ("p", n, 0), c)
            if h1 != h2:
                raise Bad("balance", "the number of black nodes differs between paths")
            return hadd(h1, hk(c)), w1 + [n] + w2
        raise Bad("links", "a link leads nowhere (%s)" % (v[0],))

    def judge(self, root_off):
        self.seen = set()
        if self.open is not None:
            g = self.G[self.open]
            if self.val(self.mem[root_off]) != ("R",):
                raise Bad("links", "the root is set although the changed part may be below it")
            x = g["hole"]
            if x is None:
                w = []
            else:
                h, w = self.walk(("p", x, 0), ("C", self.open), None)
                if h != g["H"]:
                    raise Bad("balance", "the number of black nodes differs between paths")
                if self.nodes[x][3] == RED and g["cp"] != "black":
                    raise Bad("colours", "a red node may be below a red one")
            w = g["before"] + w + g["after"]
        else:
            r = self.val(self.mem[root_off])
            h, w = self.walk(r, 0, RED)
        if w != self.expect:
            raise Bad("order", "the order of the nodes is not what it shall be")

    # ---- folding
    def merge(self, toks):
        """make tokens that stay together one; None if they are not together"""
        if not toks:
            return []
        out, run = [], []

        def flush():
            if not run:
                return True
            if len(run) == 1 and not isinstance(run[0], int):
                out.append(run[0])
                run.clear()
                return True
            n = len(run)
            for i in range(len(self.expect) - n + 1):
                if self.expect[i:i + n] == run:
                    t = "m%d" % self.new()
                    self.expect[i:i + n] = [t]
                    out.append(t)
                    run.clear()
                    return True
            return False
        for t in toks:
            if t in self.marks:
                if not flush():
                    return None
                out.append(t)
            else:
                run.append(t)
        return out if flush() else None

    def piece(self, v, n):
        """(height, not red, word) of a foldable child of node n"""
        if v == 0:
            return hk(0), True, []
        if v[0] == "T":
            t = self.T[v[1]]
            if self.val(t["par"]) == ("p", n, 0):
                return t["h"], t["nr"], t["word"]
        return None

    def slot_of(self, n):
        """the node (and side) n hangs under, by its upward link"""
        p = self.val(self.nodes[n][2])
        if isinstance(p, tuple) and p[0] == "p" and p[1] in self.nodes:
            for s in (0, 1):
                if self.val(self.nodes[p[1]][s]) == ("p", n, 0):
                    return p[1], s
        return None

    def fold(self, pinned, root_off):
        again = True
        while again:
            again = False
            ns = [n for n in sorted(self.nodes) if n not in pinned]
            again = any(self.fold_sub(n) for n in ns) or any(self.fold_seg(n, root_off) for n in ns)

    def fold_sub(self, n):
        l, r, p, c = self.nodes[n]
        a, b = self.piece(self.val(l), n), self.piece(self.val(r), n)
        if a is None or b is None or a[0] != b[0] or c == RED and not (a[1] and b[1]):
            return False
        up = self.slot_of(n)
        pv = self.val(p)
        if up is None:
            return False
        w = self.merge(a[2] + [n] + b[2])
        if w is None:
            raise Bad("order", "the order of the nodes is not what it shall be")
        for v in (self.val(l), self.val(r)):
            if v != 0:
                del self.T[v[1]]
        k = self.subtree(hadd(a[0], hk(c)), c == BLACK, pv, True, w)
        self.nodes[up[0]][up[1]] = ("T", k)
        del self.nodes[n]
        return True

    def fold_seg(self, n, root_off):
        l, r, p, c = self.nodes[n]
        ch = [self.val(l), self.val(r)]
        side = None
        for s in (0, 1):
            x = ch[s]
            o = self.piece(ch[1 - s], n)
            if o is not None and x != 0 and (x[0] == "p" and x[1] in self.nodes or x[0] == "S"):
                side, x, other = s, x, o
                break
        if side is None or c == RED and not other[1]:
            return False
        if x[0] == "p":
            if self.val(self.nodes[x[1]][2]) != ("p", n, 0) or c == RED and self.nodes[x[1]][3] == RED:
                return False
            H, d, before, after, hole = other[0], hk(0), [], [], x[1]
            cp = "black" if self.nodes[hole][3] == RED else "any"
            j = None
        else:
            j = x[1]
            g = self.G[j]
            if g["up"] != (n, side) or hadd(g["H"], g["d"]) != other[0]:
                return False
            H, d, before, after, hole, cp = g["H"], g["d"], g["before"], g["after"], g["hole"], g["cp"]
        if side == 0:
            after = after + [n] + other[2]
        else:
            before = other[2] + [n] + before
        pv = self.val(p)
        up = self.slot_of(n)
        isroot = pv == 0 and self.open is None and self.val(self.mem[root_off]) == ("p", n, 0)
        k0 = pv[1] if isinstance(pv, tuple) and pv[0] == "C" and self.G.get(pv[1], {}).get("hole") == n else None
        if up is None and not isroot and k0 is None:
            return False
        if isroot and c == RED or up is not None and c == RED and self.nodes[up[0]][3] == RED:
            return False
        top = hadd(hadd(H, d), hk(c))
        g0 = self.G[k0] if k0 is not None else None
        if g0 is not None and (g0["H"] != top or c == RED and g0["cp"] != "black"):
            return False
        d = hadd(d, hk(c))
        if g0 is not None:
            before, after = g0["before"] + before, after + g0["after"]
            d = hadd(d, g0["d"])
        wb, wa = self.merge(before), self.merge(after)
        if wb is None or wa is None:
            raise Bad("order", "the order of the nodes is not what it shall be")
        ov = ch[1 - side]
        if ov != 0:
            del self.T[ov[1]]
        k = self.segment(H=H, d=d, cp=cp, nn=True, before=wb, after=wa, hole=hole)
        g = self.G[k]
        if j is not None:
            del self.G[j]
            self.res["C", j] = ("C", k)
        else:
            self.nodes[hole][2] = ("C", k)
        if g0 is not None:
            g["up"], g["ucol"] = g0["up"], g0["ucol"]
            del self.G[k0]
            self.res["S", k0] = ("S", k)
            if self.open == k0:
                self.open = k
        elif isroot:
            self.open = k
            self.mem[root_off] = ("R",)
        else:
            g["up"], g["ucol"] = up, self.nodes[up[0]][3]
            self.nodes[up[0]][up[1]] = ("S", k)
        if g["up"] is None:
            g["d"] = hk(0)
        del self.nodes[n]
        return True

    def below(self, n):
        """the nodes, subtrees and segments under node n"""
        ns, ts, gs, todo = set(), set(), set(), [n]
        while todo:
            x = todo.pop()
            if x in ns or x not in self.nodes:
                continue
            ns.add(x)
            for v in map(self.val, self.nodes[x][:2]):
                if isinstance(v, tuple) and v[0] == "p":
                    todo.append(v[1])
                elif isinstance(v, tuple) and v[0] == "T":
                    ts.add(v[1])
                elif isinstance(v, tuple) and v[0] == "S":
                    gs.add(v[1])
                    todo.append(self.G[v[1]]["hole"])
        return ns, ts, gs

    def stretch(self, k):
        """the closed segment k may have any number of black nodes: what is not below any such segment is that
        much higher"""
        e = self.var()
        lowT, lowG, incl = set(), set(), {k}
        _, ts, gs = self.below(self.G[k]["hole"])
        lowT |= ts
        lowG |= gs
        for j in sorted(self.G):
            if self.G[j]["up"] is None or j == k or j in gs:
                continue
            _, t2, g2 = self.below(self.G[j]["hole"])
            if k in g2:
                continue              # above k
            incl.add(j)
            lowT |= t2
            lowG |= g2
        # the lower end of a segment keeps its height
        for x in self.T:
            if x not in lowT:
                self.T[x]["h"] = hadd(self.T[x]["h"], e)
        for j in self.G:
            if j in lowG:
                continue
            if j in incl:
                self.G[j]["d"] = hadd(self.G[j]["d"], e)
            else:
                self.G[j]["H"] = hadd(self.G[j]["H"], e)

    def same_vars(self):
        """variables that only occur together are one"""
        terms = [x["h"] for x in self.T.values()] + [x[f] for x in self.G.values() for f in ("H", "d")]
        by = {}
        for v in sorted({v for t in terms for v in t[1]}):
            by.setdefault(tuple(t[1].count(v) for t in terms), []).append(v)
        for vs in by.values():
            for v in vs[1:]:
                self.subst(v, hk(0))

    def general(self, root_off):
        """heights matter only relative to each other"""
        terms = [x["h"] for x in self.T.values()] + [x["H"] for x in self.G.values()]
        r = ("p", self.G[self.open]["hole"]) if self.open is not None else self.val(self.mem.get(root_off, 0))
        ns = self.below(r[1])[0] if isinstance(r, tuple) and r[0] == "p" else set(self.nodes)
        nulls = any(self.val(v) == 0 for n in ns for v in self.nodes[n][:2])
        if terms and not set.intersection(*[set(t[1]) for t in terms]) and not nulls:
            v = self.var()
            for x in self.T.values():
                x["h"] = hadd(x["h"], v)
            for x in self.G.values():
                x["H"] = hadd(x["H"], v)
        for k in sorted(self.G):
            if self.G[k]["up"] is not None and not self.G[k]["d"][1]:
                self.stretch(k)
        self.same_vars()
        vs = {v for x in self.T.values() for v in x["h"][1]} | {v for x in self.G.values() for v in
                                                                x["H"][1] + x["d"][1]}
        for v in sorted(vs):
            ts = [t for x in self.T.values() for t in [x["h"]] if v in t[1]]
            ts += [t for x in self.G.values() for t in (x["H"], x["d"]) if v in t[1]]
            m = min(t[0] // t[1].count(v) for t in ts)
            if m:
                w = self.var()
                self.subst(v, (-m, w[1]))

    def canon(self, roots):
        """a name-free description, from the given values on"""
        names, out, vs, toks = {}, [], {}, {}

        def h(t):
            return t[0], tuple(sorted(vs.setdefault(x, len(vs)) for x in t[1]))

        def wd(w):
            return tuple(("n", names.get(t, "?")) if isinstance(t, int) and t not in self.marks else
                         t if t in self.marks else toks.setdefault(t, len(toks)) for t in w)
        todo = []

        def ref(v):
            v = self.val(v)
            if not isinstance(v, tuple):
                return v
            if v[0] == "w":
                return "w", ref(v[1])
            if v[0] == "o":
                return "o", ref(v[1]), v[2]
            if v[0] == "p" and isinstance(v[1], int):
                if v[1] not in names:
                    names[v[1]] = len(names)
                    todo.append(v)
                return "p", names[v[1]], v[2]
            if v[0] in ("T", "C", "S"):
                key = ("G", v[1]) if v[0] != "T" else v
                if key not in names:
                    names[key] = len(names)
                    todo.append(v)
                return v[0], names[key]
            return v
        for r in roots:
            out.append(ref(r))
        for o in sorted(self.mem, key=repr):
            out.append((o, ref(self.mem[o])))
        if self.open is not None:
            out.append(ref(("C", self.open)))
        while todo:
            v = todo.pop(0)
            if v[0] == "p":
                x = self.nodes.get(v[1])
                if x is not None:
                    out.append((ref(x[0]), ref(x[1]), ref(x[2]), x[3]))
            elif v[0] == "T":
                t = self.T[v[1]]
                out.append((h(t["h"]), t["nr"], t["nn"], ref(t["par"]), wd(t["word"])))
            else:
                g = self.G[v[1]]
                out.append((None if g["up"] is None else (ref(("p", g["up"][0], 0)), g["up"][1]), h(g["H"]), h(g["d"]),
                            g["cp"], g["nn"], g["ucol"], None if g["hole"] is None else ref(("p", g["hole"], 0)),
                            wd(g["before"]), wd(g["after"])))
        out.append(wd(self.expect))
        out.append(tuple(sorted(names.get(x, "?") if isinstance(x, int) else repr(x) for x in self.notfirst)))
        return repr(out), set(names)


class Frame:
    def __init__(self, fn, env, ret):
        self.fn, self.env, self.ret = fn, env, ret
        self.blk, self.prev, self.idx = fn.blocks[0], None, 0

    def copy(self):
        f = Frame(self.fn, dict(self.env), self.ret)
        f.blk, f.prev, f.idx = self.blk, self.prev, self.idx
        return f


def uses(i):
    if i.op == "phi":
        return set()
    r = set()

    def go(o):
        if o[0] == "v":
            r.add(o[1])
        elif o[0] == "gepc":
            go(o[1])
    for o in i.ops or ():
        go(o)
    if i.op == "call" and i.extra[0] == "v":
        r.add(i.extra[1])
    if i.op == "gep":
        for o, _ in i.extra[1]:
            go(o)
    return r


def liveness(fn):
    """values live at the start of each block (phis of the block included)"""
    live = {b.idx: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.blocks):
            s = set()
            for t in b.succs:
                ph = {i.id for i in t.insts if i.op == "phi"}
                s |= live[t.idx] - ph
                for i in t.insts:
                    if i.op == "phi":
                        for o, bb in i.extra:
                            if bb is b and o[0] == "v":
                                s.add(o[1])
            for i in reversed(b.insts):
                if i.op == "phi":
                    continue
                s.discard(i.id)
                s |= uses(i)
            if s != live[b.idx]:
                live[b.idx] = s
                ch = True
    return live


def heads(fn):
    """targets of back edges"""
    color, hs = {}, set()

    def dfs(b):
        stack = [(b, iter(b.succs))]
        color[b.idx] = 1
        while stack:
            x, it = stack[-1]
            for t in it:
                if color.get(t.idx) == 1:
                    hs.add(t.idx)
                elif t.idx not in color:
                    color[t.idx] = 1
                    stack.append((t, iter(t.succs)))
                    break
            else:
                color[x.idx] = 2
                stack.pop()
    dfs(fn.blocks[0])
    return hs


class Interp:
    """runs functions over states"""
    LIMIT = 20000

    def __init__(self, mod, offs, size, report, stop):
        self.mod, self.size, self.stop = mod, size, stop
        self.left, self.right, self.pc, self.root = offs
        self.report = report          # (rule, msg, where, log)
        self.live, self.hd = {}, {}
        self.nstates = self.nheads = 0
        self.fns = set()
        self.over = None

    def call(self, st, fname, args, end=None):
        """all states in which fname(args) returns: [(state, value)]; end() is told of each at once"""
        fn = self.mod.functions.get(fname)
        if fn is None or fn.decl:
            raise AnalysisError("anchor vanished: %s" % fname)
        st = st.copy()
        st.frames = [Frame(fn, {a[0]: v for a, v in zip(fn.args, args)}, None)]
        self.fns.add(fname)
        done, work, seen, n = [], deque([st]), set(), 0
        while work:
            self.nstates += 1
            n += 1
            if n > self.LIMIT:
                self.over = fname
                break
            if self.stop():
                break
            s = work.popleft()
            if len(s.nodes) > 30:
                self.over = fname
                continue
            while True:
                fr = s.frames[-1]
                i = fr.blk.insts[fr.idx]
                try:
                    r = self.step(s, fr, i, seen)
                except Split as e:
                    work.extend(e.opts)
                    break
                except Bad as e:
                    self.report(e.rule, e.msg, self.where(fr, i), s.log)
                    break
                if r == "stop":
                    break
                if r is not None:
                    done.append((s, r[1]))
                    if end is not None:
                        end(s, r[1])
                    break
        return done

    def where(self, fr, i):
        return "%s:%s (%s)" % (i.file or "?", i.line, fr.fn.name.split(".")[0])

    def op(self, s, fr, o):
        if o[0] == "v":
            if o[1] not in fr.env:
                raise AnalysisError("shape: value undefined in %s" % fr.fn.name)
            return s.val(fr.env[o[1]])
        if o[0] == "c":
            return o[1] & 1 if o[2] == 1 else o[1]
        if o[0] == "undef":
            return "undef",
        raise AnalysisError("shape: operand %r in %s" % (o, fr.fn.name))

    def goto(self, s, fr, blk, seen):
        prev = fr.blk
        ph = []
        for i in blk.insts:
            if i.op == "phi":
                o = next(o for o, b in i.extra if b is prev)
                ph.append((i.id, self.op(s, fr, o)))
        fr.env.update(ph)
        fr.prev, fr.blk, fr.idx = prev, blk, len(ph)
        fn = fr.fn
        if fn.name not in self.hd:
            self.hd[fn.name] = heads(fn)
            self.live[fn.name] = liveness(fn)
        if blk.idx not in self.hd[fn.name]:
            return None
        self.nheads += 1
        roots, at = [], tuple((f.fn.name, f.blk.idx, f.idx) for f in s.frames)
        for f in s.frames:
            if f.fn.name not in self.live:
                self.live[f.fn.name] = liveness(f.fn)
            if f is fr:
                lv = self.live[fn.name][blk.idx]
            else:
                lv = set()
                for j in f.blk.insts[f.idx:]:
                    lv |= uses(j)
                for t in f.blk.succs:
                    lv |= self.live[f.fn.name][t.idx] | {o[1] for j in t.insts if j.op == "phi" for o, b in j.extra
                                                         if b is f.blk and o[0] == "v"}
            f.env = {v: x for v, x in f.env.items() if v in lv}
            roots += [f.env[v] for v in sorted(f.env)]
        o = s.was.get(at)
        if o is not None and o[0] == s.nst and s.same_values(o[1]):
            raise Bad("ends", "a loop that changes nothing any more goes on for ever")
        pinned = set()

        def pin(v):
            v = s.val(v)
            if isinstance(v, tuple):
                if v[0] == "p" and isinstance(v[1], int):
                    pinned.add(v[1])
                elif v[0] in ("w", "o", "tr"):
                    pin(v[1])
                elif v[0] == "T":
                    pin(s.T[v[1]]["par"])
                elif v[0] == "C" and v[1] in s.G:
                    pinned.add(s.G[v[1]]["hole"])
                elif v[0] == "S":
                    pinned.add(s.G[v[1]]["up"][0])
        for v in roots:
            pin(v)
        for o, v in s.mem.items():
            if o != self.root:
                pin(v)
        r = s.val(s.mem.get(self.root, 0))
        if isinstance(r, tuple) and r[0] == "p" and r[1] in s.nodes and s.val(s.nodes[r[1]][2]) != 0:
            pinned.add(r[1])
        names = s.canon(roots)[1]
        s.nodes = {n: x for n, x in s.nodes.items() if n in names}
        s.fold(pinned, self.root)
        s.general(self.root)
        key, names = s.canon(roots)
        for n in [n for n in s.nodes if n not in names]:
            del s.nodes[n]
        s.was = {k: v for k, v in s.was.items() if k[:-1] == at[:-1]}
        s.was[at] = s.seen_by()
        if (at, key) in seen:
            return "stop"
        seen.add((at, key))
        return None

    def node_of(self, s, p, what):
        """the object a pointer leads to"""
        if p == 0 or isinstance(p, tuple) and p[0] == "null":
            raise Bad("links", "%s through a link that is empty here" % what)
        if isinstance(p, tuple) and p[0] in ("T", "C", "S", "R"):
            raise Split(s.open_up(p))
        if isinstance(p, tuple) and p[0] == "o":
            raise Split(s.open_up(p[1]))
        if isinstance(p, tuple) and p[0] == "p":
            return p[1], p[2]
        raise Bad("links", "%s through a word that is no link" % what)

    def load(self, s, p):
        o, off = self.node_of(s, p, "reads")
        if o == "tree":
            if off not in s.mem:
                raise AnalysisError("shape: reads an unknown field of the tree")
            return s.val(s.mem[off])
        x = s.nodes.get(o)
        if x is None:
            raise Bad("links", "reads a node that is not part of the tree")
        if off == self.left:
            return s.val(x[0])
        if off == self.right:
            return s.val(x[1])
        if off == self.pc:
            p = s.val(x[2])
            if x[3] == RED:
                return p
            return 1 if p == 0 else ("w", p)
        raise AnalysisError("shape: reads field %s of a node" % off)

    def store(self, s, p, v):
        o, off = self.node_of(s, p, "writes")
        s.nst += 1
        if o == "tree":
            s.mem[off] = v
            return
        x = s.nodes.get(o)
        if x is None:
            raise Bad("links", "writes a node that is not part of the tree")
        if off == self.left:
            x[0] = v
        elif off == self.right:
            x[1] = v
        elif off == self.pc:
            if isinstance(v, tuple) and v[0] == "w":
                x[2], x[3] = v[1], BLACK
            elif v == 1:
                x[2], x[3] = 0, BLACK
            else:
                x[2], x[3] = v, RED
        else:
            raise AnalysisError("shape: writes field %s of a node" % off)

    def same(self, s, a, b):
        """are two words equal? splits if that depends"""
        a, b = s.val(a), s.val(b)
        if ("undef",) in (a, b):
            raise Bad("links", "decides by a value that was never set")
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        lazy = ("T", "C", "S")
        if isinstance(a, int):
            a, b = b, a
        if b == 0:
            if a[0] in lazy:
                if a[0] == "S":
                    return False
                if a[0] == "T" and s.T[a[1]]["nn"]:
                    return False
                raise Split(s.open_up(a))
            if a[0] == "R":
                return False
            if a[0] == "L":
                return self.first_is(s, a, b)
            return False
        if isinstance(b, int):
            return False
        if "w" in (a[0], b[0]):
            if a[0] == b[0]:
                return self.same(s, a[1], b[1])
            return False
        if a[0] == "o" or b[0] == "o":
            if a[0] == b[0] and a[2] == b[2]:
                return self.same(s, a[1], b[1])
            for x in (a, b):
                if x[0] == "o":
                    raise Split(s.open_up(x[1]))
        if a[0] == "L" or b[0] == "L":
            return self.first_is(s, a, b) if a[0] == "L" else self.first_is(s, b, a)
        if a[0] == "p" and b[0] == "p":
            return False
        if a[0] == "p":
            a, b = b, a
        if b[0] == "p":
            if b[2] != 0:
                return False
            if a[0] == "T":
                return False
            if a[0] == "R":
                # the root of the open context: the node below the context if there is nothing above it
                g = s.G[s.open]
                if b[1] != g["hole"]:
                    return False
                raise Split(s.mat_up(s.open))
            if a[0] == "C":
                g = s.G[a[1]]
                if g["up"] is None or b[1] != g["up"][0]:
                    return False
                raise Split(s.mat_up(a[1]))
            if a[0] == "S":
                if b[1] != s.G[a[1]]["hole"]:
                    return False
                raise Split(s.mat_down(a[1]))
        if a[0] in lazy and b[0] in lazy:
            raise Split(s.open_up(a))
        raise AnalysisError("shape: compares %r with %r" % (a, b))

    def first_is(self, s, a, b):
        """is the cached first node this one?"""
        if not (isinstance(b, tuple) and b[0] == "p"):
            if b == 0:
                raise AnalysisError("shape: asks whether there is a first node")
            raise Split(s.open_up(b))
        if b[1] in s.notfirst:
            return False
        raise AnalysisError("shape: asks whether another node is the first")

    def step(self, s, fr, i, seen):
        op = i.op
        if i.line:
            w = "%s:%s" % ((i.file or "?").rsplit("/", 1)[-1], i.line)
            if not s.log or s.log[-1] != w:
                s.log.append(w)
        if op == "call":
            return self.do_call(s, fr, i)
        if op == "ret":
            v = self.op(s, fr, i.ops[0]) if i.ops else None
            s.frames.pop()
            if not s.frames:
                return "ret", v
            up = s.frames[-1]
            if v is not None:
                up.env[fr.ret] = v
            return None
        if op == "br":
            if not i.ops:
                return self.goto(s, fr, fr.blk.succs[0], seen)
            c = self.op(s, fr, i.ops[0])
            if c not in (0, 1):
                raise AnalysisError("shape: branches on %r" % (c,))
            return self.goto(s, fr, fr.blk.succs[0 if c else 1], seen)
        if op == "switch":
            c = self.op(s, fr, i.ops[0])
            if not isinstance(c, int):
                raise AnalysisError("shape: switches on %r" % (c,))
            cases, d = i.extra
            return self.goto(s, fr, next((b for k, b in cases if k == c), d), seen)
        if op == "store":
            self.store(s, self.op(s, fr, i.ops[1]), self.op(s, fr, i.ops[0]))
        elif op == "unreachable":
            return "stop"
        else:
            fr.env[i.id] = self.value(s, fr, i)
        fr.idx += 1
        return None

    def value(self, s, fr, i):
        op = i.op
        a = [self.op(s, fr, o) for o in i.ops] if op != "phi" else []
        if op == "load":
            return self.load(s, a[0])
        if op == "gep":
            off, dyn, _ = i.extra
            if dyn:
                raise AnalysisError("shape: indexes memory")
            p = a[0]
            if off == 0:
                return p
            if p == 0:
                return "null", off
            if p[0] == "p":
                return "p", p[1], p[2] + off
            if p[0] == "o":
                return "o", p[1], p[2] + off
            if p[0] in ("T", "C", "S", "R"):
                return "o", p, off
            return "bad", p[0]
        if op == "icmp":
            if i.extra in ("eq", "ne"):
                r = self.same(s, a[0], a[1])
                return int(r == (i.extra == "eq"))
            if all(isinstance(x, int) for x in a):
                f = {"slt": a[0] < a[1], "sgt": a[0] > a[1], "sle": a[0] <= a[1], "sge": a[0] >= a[1]}
                if i.extra in f:
                    return int(f[i.extra])
            raise AnalysisError("shape: orders words")
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            v = a[0]
            if op == "trunc" and not isinstance(v, int):
                if i.bits <= 2 and isinstance(v, tuple):
                    return (1 if v[0] == "w" else 0) & ((1 << i.bits) - 1)
                return "tr", v
            return v
        if op == "select":
            return a[1] if a[0] else a[2]
        if op in ("and", "or", "xor", "add", "sub"):
            x, y = a
            if isinstance(x, int) and not isinstance(y, int) and op != "sub":
                x, y = y, x
            if isinstance(x, int) and isinstance(y, int):
                return {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y}[op]
            if isinstance(y, int):
                if x[0] == "tr":
                    x = s.val(x[1])
                    if not (op == "and" and 0 <= y <= 3):
                        raise AnalysisError("shape: part of a link")
                    if isinstance(x, int):
                        return x & y
                lazy = x[0] in ("T", "C", "S", "R", "p")
                if op == "and" and y == 0:
                    return 0
                if op == "and" and y in (1, 3):
                    return 1 if x[0] == "w" else 0
                if op == "and" and y == 2:
                    return 0
                if op == "and" and y in (-4, -2, -8):
                    return x[1] if x[0] == "w" else x
                if op in ("or", "add") and y == 0:
                    return x
                if op == "or" and y == 1:
                    return x if x[0] == "w" else ("w", x)
                if op == "add" and y == 1 and lazy or op == "xor" and y == 1 and lazy:
                    return "w", x
                if op == "sub" and y == 1 and x[0] == "w" or op == "xor" and y == 1 and x[0] == "w":
                    return x[1]
            raise AnalysisError("shape: computes %s of links" % op)
        raise AnalysisError("shape: instruction %s in %s" % (op, fr.fn.name))

    def do_call(self, s, fr, i):
        t = i.extra
        name = t[1] if t[0] == "f" else None
        if name is not None and name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")):
            fr.idx += 1
            return None
        if name is not None and name.startswith("llvm.expect"):
            fr.env[i.id] = self.op(s, fr, i.ops[0])
            fr.idx += 1
            return None
        if name is not None and (name.startswith("llvm.memcpy") or name == "memcpy"):
            n = self.op(s, fr, i.ops[2])
            d, r = self.op(s, fr, i.ops[0]), self.op(s, fr, i.ops[1])
            offs = [self.left, self.right, self.pc]
            if n != self.size:
                raise AnalysisError("shape: copies %r bytes" % (n,))
            (o1, f1), (o2, f2) = self.node_of(s, d, "writes"), self.node_of(s, r, "reads")
            if f1 or f2:
                raise AnalysisError("shape: copies parts of nodes")
            for o in offs:
                self.store(s, ("p", o1, o), self.load(s, ("p", o2, o)))
            fr.env[i.id] = d
            fr.idx += 1
            return None
        if name in ("abort", "__assert_fail"):
            return "stop"
        g = self.mod.functions.get(name) if name else None
        if g is None or g.decl:
            raise AnalysisError("shape: calls %s" % (name,))
        args = [self.op(s, fr, o) for o in i.ops]
        fr.idx += 1
        if len(s.frames) > 12:
            raise AnalysisError("shape: deep calls")
        self.fns.add(name)
        s.frames.append(Frame(g, {a[0]: v for a, v in zip(g.args, args)}, i.id))
        return None
