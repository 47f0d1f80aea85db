"""The ordered (red-black) tree: shape analysis of every change and step."""
from .absint import AnalysisError
from .core import prog
from .shape import BLACK, RED, Bad, Interp, St, hadd, hk


def copies(pr, name):
    """definitions of a function (one per translation unit for static ones)"""
    r = [n for n, f in pr.mod.functions.items() if n.split(".")[0] == name and not f.decl]
    if not r:
        raise AnalysisError("anchor vanished: %s" % name)
    return sorted(r)


class Tree:
    def __init__(self, c, cfg="default"):
        self.c, self.pr = c, prog(cfg)
        pr = self.pr
        self.left, self.right = pr.off("_HevRBTreeNode", "left"), pr.off("_HevRBTreeNode", "right")
        pc = pr.off("_HevRBTreeNode", "__parent_color")
        self.base = pr.off("_HevRBTreeCached", "base")
        self.root = self.base + pr.off("_HevRBTree", "root")
        self.lm = pr.off("_HevRBTreeCached", "leftmost")
        self.size = pr.sizeof("_HevRBTreeNode")
        self.it = Interp(pr.mod, (self.left, self.right, pc, self.root), self.size, self.report,
                         lambda: self.bad >= 8)
        self.plain, self.cached = ("p", "tree", self.base), ("p", "tree", 0)
        self.bad = 0
        self.nends = 0

    def report(self, rule, msg, where, log):
        self.bad += 1
        self.c.ob(rule, False, where, "%s (%s)" % (msg, self.what))
        v = self.c.viol[-1]
        if not v["path"]:
            v["path"] = list(log[-60:])

    def run(self, what, st, fname, args, judge):
        """call fname and judge every way it ends"""
        self.what = what
        self.c.last = fname
        self.c.fns.add(fname)
        f = self.pr.mod.functions.get(fname)
        if f is None or f.decl:
            raise AnalysisError("anchor vanished: %s" % fname)
        n = self.it.nstates
        if self.bad >= 8:
            return
        w = "%s (%s)" % (where(f), fname)
        ends = self.it.call(st, fname, args, lambda s, v: self.end(s, v, judge, w))
        if not ends and not self.bad and not self.it.over:
            self.report("ends", "never returns", w, [])
        self.c.npaths += len(ends)
        self.c.nevents += self.it.nstates - n

    def end(self, s, v, judge, w):
        todo = [s]
        while todo:
            x = todo.pop()
            try:
                x.seen = set()
                x.judge(self.root)
                more = judge(x, x.val(v) if v is not None else None)
                if more is not None:
                    todo += more
                    continue
                self.nends += 1
                for r in ("links", "colours", "balance", "order", "ends"):
                    self.c.ob(r, True, w, "")
            except Bad as e:
                self.report(e.rule, e.msg, w, x.log)

    # ---- starting states
    def around(self, col, before=True, left=None, right=None):
        """an arbitrary node of an arbitrary tree: (state, node)"""
        s = St()
        h = s.var() if left != 0 and right != 0 else hk(0)
        n = s.new()
        kids = []
        for x in (left, right):
            kids.append(0 if x == 0 else ("T", s.subtree(h, col == RED, ("p", n, 0))))
        g = s.segment(H=hadd(h, hk(col)), cp="black" if col == RED else "any", hole=n)
        if not before:
            s.G[g]["before"] = []
        s.nodes[n] = [kids[0], kids[1], ("C", g), col]
        s.open = g
        s.mem[self.root] = ("R",)
        w = [s.T[k[1]]["word"] if k else [] for k in kids]
        s.expect = s.G[g]["before"] + w[0] + [n] + w[1] + s.G[g]["after"]
        return s, n

    def whole(self):
        """an arbitrary tree, seen from its root"""
        s = St()
        k = s.subtree(s.var(), True, 0)
        s.mem[self.root] = ("T", k)
        s.expect = list(s.T[k]["word"])
        return s

    def fresh(self, s):
        n = s.new()
        s.nodes[n] = [("junk", 1), ("junk", 2), ("junk", 3), RED]
        return n


def where(f):
    for b in f.blocks:
        for i in b.insts:
            if i.line:
                fl = i.file or "?"
                return "%s:%s" % ("src/" + fl.split("/src/", 1)[1] if "/src/" in fl else fl, i.line)
    return "?"


def gone(s, tok):
    """this piece of the word is known to be empty"""
    for t in s.T.values():
        if t["word"] == [tok]:
            return t["h"] == hk(0) and t["nr"] and not t["nn"]
    return False


def is_at(s, toks, v, what):
    """v is the node of the first token; toks go away from the starting point"""
    toks = [t for t in toks if not gone(s, t)]
    if isinstance(v, tuple) and v[0] in ("T", "C", "S"):
        return s.open_up(v)
    if v == 0 or v is None:
        if toks:
            raise Bad("steps", "no node is reported where there may be one (%s)" % what)
        return None
    if isinstance(v, tuple) and v[0] == "p" and v[2] == 0 and toks and toks[0] == v[1]:
        return None
    raise Bad("steps", "another node than the %s" % what)


def C31(c):
    t = Tree(c)
    links = copies(t.pr, "hev_rbtree_node_link")
    node_at = {0: t.left, 1: t.right}

    # ---- insertion: the tree is empty, or the new node goes where a link is empty
    def starts(lm):
        """lm: the new node comes first / does not / (None) it is not asked"""
        out = []
        if lm in (None, True):
            s = St()
            s.mem[t.root] = 0
            n = t.fresh(s)
            s.expect = [n]
            s.res["R",] = 0
            out.append(("into the empty tree", s, n, 0, t.root and ("p", "tree", t.root) or ("p", "tree", 0)))
        for side in (0, 1):
            if lm and side == 1:
                continue
            for col in (RED, BLACK):
                s, p = t.around(col, before=not lm, left=0 if side == 0 else None, right=0 if side == 1 else None)
                n = t.fresh(s)
                i = s.expect.index(p)
                s.expect.insert(i if side == 0 else i + 1, n)
                out.append(("as %s child of a %s node" % ("left right".split()[side], "red black".split()[col]), s, n,
                            ("p", p, 0), ("p", p, node_at[side])))
        return out

    def insert(fname, lm, extra, judge):
        for what, s, n, par, slot in starts(lm):
            if lm is not None:
                s.mem[t.lm] = ("L",)
            for lk in links[:1]:
                t.what = "insertion " + what
                for s1, _ in t.it.call(s, lk, [("p", n, 0), par, slot]):
                    if s1.open is None:
                        s1.res["R",] = s1.mem[t.root]
                    tree = t.plain if lm is None else t.cached
                    t.run("insertion " + what, s1, fname, [tree, ("p", n, 0)] + extra, judge(n))
    insert("hev_rbtree_insert_color", None, [], lambda n: lambda s, v: None)

    # ---- erasing and replacing any node
    def victims(lm):
        """lm: the first node is cached; either the node is the first one or it is not"""
        for col in (RED, BLACK):
            w = "%s node" % "red black".split()[col]
            if not lm:
                yield (w,) + t.around(col)
                continue
            s, n = t.around(col)
            s.mem[t.lm] = ("L",)
            s.notfirst.add(n)
            yield (w + " that is not the first",) + (s, n)
            s, n = t.around(col, before=False, left=0)
            s.mem[t.lm] = ("p", n, 0)
            yield (w + " that is the first",) + (s, n)

    def erase(fname, lm, judge):
        for what, s, n in victims(lm):
            s.expect.remove(n)
            t.run("erasing a " + what, s, fname, [t.cached if lm else t.plain, ("p", n, 0)], judge(n))
    erase("hev_rbtree_erase", False, lambda n: lambda s, v: None)

    def replace(fname, lm, judge):
        for what, s, n in victims(lm):
            m = t.fresh(s)
            s.expect[s.expect.index(n)] = m
            t.run("replacing a " + what, s, fname, [t.cached if lm else t.plain, ("p", n, 0), ("p", m, 0)], judge(n, m))
    replace("hev_rbtree_replace", False, lambda n, m: lambda s, v: None)

    # ---- steps
    for fname, fwd in (("hev_rbtree_node_next", True), ("hev_rbtree_node_prev", False)):
        for col in (RED, BLACK):
            s, n = t.around(col)
            s.marks = {n}
            what = "next node" if fwd else "previous node"

            def judge(s, v):
                i = s.expect.index(n)
                return is_at(s, s.expect[i + 1:] if fwd else s.expect[:i][::-1], v, what)
            t.run("the %s of a %s one" % (what, "red black".split()[col]), s, fname, [("p", n, 0)], judge)
    for fname, fwd in (("hev_rbtree_first", True), ("hev_rbtree_last", False)):
        what = "first node" if fwd else "last node"
        t.run("the " + what, t.whole(), fname, [t.plain],
              lambda s, v: is_at(s, s.expect if fwd else s.expect[::-1], v, what))

    # ---- the cached first node
    def cached(s, ok, node=None):
        """the first node is right: `ok` says when the old one still is"""
        v = s.val(s.mem[t.lm])
        if v == ("L",):
            if not ok(s):
                raise Bad("first", "the cached first node stays although it may have changed")
            return None
        try:
            return is_at(s, s.expect, v, "first node")
        except Bad as e:
            raise Bad("first", "the cached first node may not be the leftmost")
    insert("hev_rbtree_cached_insert_color", True, [1], lambda n: lambda s, v: cached(s, lambda s: False))
    insert("hev_rbtree_cached_insert_color", False, [0], lambda n: lambda s, v: cached(s, lambda s: True))
    erase("hev_rbtree_cached_erase", True, lambda n: lambda s, v: cached(s, lambda s: n in s.notfirst))
    replace("hev_rbtree_cached_replace", True, lambda n, m: lambda s, v: cached(s, lambda s: n in s.notfirst))

    if t.it.over and not t.bad:
        raise AnalysisError("shape: too many states in %s" % t.it.over)
    c.inlined |= {x.split(".")[0] for x in t.it.fns}
    c.need(t.nends > 50, "ends of tree operations")
    c.notes.append("%d folded loop states, %d ends judged" % (t.it.nheads, t.nends))
