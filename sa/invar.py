"""Inductive invariants of loops in the linear-inequality domain.

A client of the value-flow analysis which abstracts the state at every loop
header to fresh names and keeps those candidate relations between them which
hold on every edge into the header (a greatest fixed point over a finite set of
templates: candidates are dropped until none fails any more)."""
from .flow import Flow, mentions
from .ir import AnalysisError
from .lin import Lin


def subst(e, m):
    if isinstance(e, tuple):
        if e in m:
            return m[e]
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)
    return e


def ids(e, out):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] in ("ret", "new", "phi", "val", "lp"):
            out.add(e[1])
        elif e and e[0] == "hdr":
            out.add(-1 - e[1])      # a block, not an instruction
        else:
            for x in e:
                ids(x, out)
    return out


class Inductive:
    """base class of clients; a subclass provides
         ghosts(fl, st) -> dict name -> value (part of the state at a header)
         set_ghosts(fl, st, dict)
         params(fl, st) -> expressions which do not change in loops
         templates(fl, st, dst, atoms, params) -> candidates (pred, a, b)
         base(fl, st) -> relations (pred, a, b) known to hold always"""

    def __init__(self):
        self.inv = {}
        self.dropped = False
        self.queries = 0
        self.version = 0
        self._lin = (None, None)

    def lin(self, fl, st):
        passed = self.passed(st)
        ex = list(self.base(fl, st))
        k = (frozenset(st.facts.items()), passed, self.version, tuple(ex))
        if self._lin[0] != k:
            for h in passed:
                ex += sorted(self.inv.get(h, ()), key=repr)
            self._lin = (k, Lin(st.facts, extra=ex, small=self.small, width=self.width))
        return self._lin[1]

    def small(self, a):
        return True

    def width(self, a):
        """how many bits something of unknown nature has, if known"""
        return None

    def base(self, fl, st):
        return ()

    def mode_of(self, fl, st, g):
        return tuple(sorted(g))

    def implied(self, fl, st, p, a, b, extra=()):
        self.queries += 1
        return self.lin(fl, st).implies(p, a, b, extra)

    def feasible(self, fl, st):
        self.queries += 1
        return not self.lin(fl, st).infeasible()

    def passed(self, st):
        return st.auto.passed

    def header(self, fl, st, src, dst):
        g = self.ghosts(fl, st)
        atoms = {}
        for p in fl.fn.blocks[dst].phis:
            atoms[("phi", p.id)] = st.vals[p.id]
        for n, v in g.items():
            atoms[("hdr", dst, n)] = v
        params = self.params(fl, st)
        back = (src, dst) in fl.back
        # states with other ghosts have invariants of their own
        key = (dst, self.mode_of(fl, st, g))
        if key not in self.inv:
            self.inv[key] = set(self.templates(fl, st, dst, atoms, params))
            self.version += 1
        L = None
        for c in sorted(self.inv[key], key=repr):
            if L is None:
                # on an edge which enters the loop its own invariant is not yet known
                if not back:
                    st.auto = st.auto._replace(passed=frozenset(k for k in st.auto.passed if k[0] != dst))
                L = self.lin(fl, st)
                if L.infeasible():
                    break
            self.queries += 1
            a, b = subst(c[1], atoms), subst(c[2], atoms)
            if not L.implies(c[0], a, b):
                self.inv[key].discard(c)
                self.version += 1
                self.dropped = True
        inside = {i.id for b in fl.loop[dst] for i in fl.fn.blocks[b].insts} | {-1 - dst}

        def local(e):
            return bool(ids(e, set()) & inside)
        for p in fl.fn.blocks[dst].phis:
            st.vals[p.id] = ("phi", p.id)
        # the names of the inner loops' values are no longer those of this iteration
        st.auto = st.auto._replace(passed=frozenset(k for k in st.auto.passed if k[0] not in fl.loop[dst]) | {key})
        self.set_ghosts(fl, st, {n: ("hdr", dst, n) for n in g})
        alive = set(fl.live[dst])
        for i, v in st.vals.items():
            if i in fl.live[dst]:
                ids(v, alive)
        for v in [c[1] for c in st.cells.values()] + list(st.auto):
            ids(v, alive)
        for k in [k for k in st.facts if local(k) or ids(k, set()) - alive]:
            del st.facts[k]
        for k in list(st.cells):
            c = st.cells[k]
            v = c[1]
            if local(k) or (isinstance(v, tuple) and local(v) and v[0] != "hdr"):
                del st.cells[k]

    def solve(self, fn, make, limit=12):
        """runs the analysis until the invariants are inductive"""
        for _ in range(limit):
            self.dropped = False
            self.reset()
            fl = make(self)
            if not self.dropped:
                return fl
        raise AnalysisError("loop invariants of %s are not stable" % fn.name)

    def reset(self):
        pass
