"""Loop invariants: a cut at the head of a natural loop.

First arrival: the invariant is checked on the values present, then everything the loop assigns is forgotten (invariant
variables become arbitrary values satisfying the invariant, all other locals the loop writes become unreadable).  The path
continues from there: leaving the loop it goes on with the rest of the function, coming back to the head it checks the
invariant again and ends.  Writes of the loop to memory that existed before it and is not among the forgotten locals make
the obligation fail as unsupported, so nothing carried from one iteration to the next escapes the invariant."""
from .core import Alloc
from .world import Unsupported


class CutEnd(Exception):
    """the path is closed by a preserved invariant"""


def succ(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "sw":
        return [b for _, b in term[2]] + [term[3]]
    if k == "call":
        return [] if term[4] is None else [term[4]]
    if k in ("assert", "drop"):
        return [term[3]]
    if k == "asm":
        return [term[4]]
    return []


def natural_loops(bbs):
    """{header: set of blocks}, from the back edges of a depth-first search (reducible flow graphs)"""
    n = len(bbs)
    sc = [[x for x in succ(t) if x is not None] for _, t in bbs]
    state, back = [0] * n, []
    stack = [(0, iter(sc[0]))]
    state[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if state[x] == 0:
                state[x] = 1
                stack.append((x, iter(sc[x])))
                break
            if state[x] == 1:
                back.append((b, x))
        else:
            state[b] = 2
            stack.pop()
    pred = [[] for _ in range(n)]
    for b in range(n):
        if state[b]:
            for x in sc[b]:
                pred[x].append(b)
    loops = {}
    for u, h in back:
        body = loops.setdefault(h, {h})
        st = [u]
        while st:
            x = st.pop()
            if x not in body:
                body.add(x)
                st += pred[x]
    return loops


def assigned(f, blocks):
    out = set()
    for b in blocks:
        sts, term = f["bb"][b]
        for s in sts:
            if s[0] in ("=", "sd"):
                if "D" not in s[1][1]:
                    out.add(s[1][0])
        if term[0] == "call" and "D" not in term[3][1]:
            out.add(term[3][0])
    return out


class LoopCut:
    """pick(f, loops) -> {block: (loop head, inv)}; inv: object with enter(e, fr, mod), havoc(e, fr, mod), again(e, fr).
    A further cut point inside a loop closes its paths at the next cut point reached the second time."""

    def __init__(self, match, pick):
        self.match, self.pick = match, pick

    def heads(self, e, f):
        if not self.match(f["name"]):
            return None
        ls = natural_loops(f["bb"])
        h = self.pick(f, ls)
        if not h:
            raise Unsupported("no loop to cut in " + f["name"])
        return {b: (inv, ls[hd]) for b, (hd, inv) in h.items()}

    def hit(self, e, fr, bi, cut):
        inv, blocks = cut
        st = e.user.setdefault("cutstate", {})
        k = (id(fr), bi)
        # the writes since the last cut of this activation stay inside what that cut forgot
        last = st.get(id(fr))
        if last is not None:
            _, serial, allowed = last
            bad = [a for a in e.wlog if a.id <= serial and a.id not in allowed]
            if bad:
                loc = {a.id: i for i, a in fr.loc.items()}
                raise Unsupported("loop writes memory outside its invariant: %s" % [(a.name, loc.get(a.id)) for a in bad][:4])
        if k in st:
            inv.again(e, fr)
            raise CutEnd()
        mod = sorted(assigned(fr.f, blocks))
        inv.enter(e, fr, mod)
        keep = inv.havoc(e, fr, mod)
        for i in mod:
            if i not in keep and i in fr.loc:
                fr.loc[i].cells.clear()
        Alloc.N += 1
        allowed = {fr.loc[i].id for i in mod if i in fr.loc} | set(getattr(inv, "allowed", lambda e, fr: ())(e, fr))
        st[k] = st[id(fr)] = (fr, Alloc.N, allowed)
        e.wlog = set()
