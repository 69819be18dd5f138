"""Linear-inequality domain.

A system of linear inequalities over the symbolic values of a path of the
value-flow analysis (sa/flow.py): machine arithmetic is mapped to integer
arithmetic, with explicit case distinctions on wrap-around where it cannot be
excluded; entailment is decided on an exact rational polyhedron in simplex form."""
from .ir import AnalysisError

SMALL = 1 << 60
INV = {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult",
       "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne", "ne": "eq"}


class L:
    """linear form: coefficients + constant"""
    __slots__ = ("t", "c")

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c

    def __add__(self, o):
        if isinstance(o, int):
            return L(self.t, self.c + o)
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) + v
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return L(t, self.c + o.c)

    def __mul__(self, n):
        return L({k: v * n for k, v in self.t.items()}, self.c * n) if n else L()

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o if not isinstance(o, int) else -o)

    def key(self):
        return (frozenset(self.t.items()), self.c)


class Polyhedron:
    """exact rational polyhedron {x >= 0 : forms >= 0} in simplex form (copying is cheap)"""
    __slots__ = ("rows", "empty", "n")

    def __init__(self):
        self.rows = {}          # basic variable -> (denominator, constant, {variable: coefficient})
        self.empty = False
        self.n = 0

    def copy(self):
        r = Polyhedron()
        r.rows = dict(self.rows)
        r.empty = self.empty
        r.n = self.n
        return r

    @staticmethod
    def _norm(d, c, t):
        from math import gcd
        g = gcd(d, c)
        for v in t.values():
            if g == 1:
                break
            g = gcd(g, v)
        if g > 1:
            return d // g, c // g, {k: v // g for k, v in t.items()}
        return d, c, t

    def add(self, f):
        from math import gcd
        if self.empty:
            return
        if not f.t:
            if f.c < 0:
                self.empty = True
            return
        g = 0
        for v in f.t.values():
            g = gcd(g, v)
        # integers: round down
        c0, t0 = f.c // g, {k: v // g for k, v in f.t.items()}
        d, c, t = 1, c0, {}
        for k, v in t0.items():
            r = self.rows.get(k)
            if r is None:
                n = t.get(k, 0) + v * d
                if n:
                    t[k] = n
                else:
                    t.pop(k, None)
                continue
            rd, rc, rt = r
            # d*form = c + t ; add v * (rc + rt) / rd
            if rd != 1:
                d, c, t = d * rd, c * rd, {x: y * rd for x, y in t.items()}
            m = v * d // rd
            c += m * rc
            for x, y in rt.items():
                n = t.get(x, 0) + m * y
                if n:
                    t[x] = n
                else:
                    t.pop(x, None)
        d, c, t = self._norm(d, c, t)
        if not t:
            if c < 0:
                self.empty = True
            return
        if c >= 0 and all(v > 0 for v in t.values()):
            return
        self.n += 1
        s = 1000000 + self.n
        self.rows[s] = (d, c, t)

    def check(self):
        """True if the polyhedron has a (rational) point"""
        if self.empty:
            return False
        rows = self.rows
        while True:
            bad = None
            for k in rows:
                if rows[k][1] < 0 and (bad is None or k < bad):
                    bad = k
            if bad is None:
                return True
            d, c, t = rows[bad]
            piv = None
            for k, v in t.items():
                if v > 0 and (piv is None or k < piv):
                    piv = k
            if piv is None:
                self.empty = True
                return False
            # d*bad = c + p*piv + rest  =>  p*piv = d*bad - c - rest
            p = t[piv]
            nt = {k: -v for k, v in t.items() if k != piv}
            nt[bad] = d
            nr = self._norm(p, -c, nt)
            del rows[bad]
            pd, pc, pt = nr
            for k, (rd, rc, rt) in list(rows.items()):
                q = rt.get(piv)
                if q is None:
                    continue
                # rd*k = rc + q*piv + ..., piv = (pc + pt) / pd
                t2 = {x: y * pd for x, y in rt.items() if x != piv}
                for x, y in pt.items():
                    n = t2.get(x, 0) + q * y
                    if n:
                        t2[x] = n
                    else:
                        t2.pop(x, None)
                rows[k] = self._norm(rd * pd, rc * pd + q * pc, t2)
            rows[piv] = nr


class Lin:
    def __init__(self, facts=(), small=None, width=None, extra=()):
        """facts: dict of expression -> ("eq", v) | ("ne", values);
        small(atom) -> the value is below 2^60; extra: (pred, a, b) known to hold"""
        self.small = small or (lambda a: not (isinstance(a, tuple) and a[0] == "arg"))
        self.width = width or (lambda a: None)
        self.cons = []
        self.wrap = []
        self.splits = []        # list of alternatives: list of list of L
        self.atoms = {}
        self.fresh = 0
        self.memo = {}
        self.poly = Polyhedron()
        self.synced = 0
        self.facts = dict(facts)
        for _ in range(2):      # the second round profits from what the first one found
            self.memo, self.splits, self.wrap = {}, [], []
            for p, a, b in extra:
                self.assume(p, a, b)
            for e, f in self.facts.items():
                self.fact(e, f)
            if self.wrap:
                self.unwrap()

    # ---- terms ---------------------------------------------------------
    def atom(self, e, w=64):
        if e not in self.atoms:
            self.atoms[e] = len(self.atoms)
            n = self.atoms[e]
            top = (1 << w) - 1
            if w == 64 and self.small(e):
                top = SMALL
            self.cons.append(L({n: -1}, top))
        return L({self.atoms[e]: 1})

    def new(self, lo=None, hi=None):
        self.fresh += 1
        n = self.atoms[("fresh", self.fresh)] = len(self.atoms)
        f = L({n: 1})
        if lo is None or lo < 0:
            m = self.atoms[("freshneg", self.fresh)] = len(self.atoms)
            f = L({n: 1, m: -1})
        if lo:
            self.cons.append(f - lo)
        if hi is not None:
            self.cons.append(-f + hi)
        return f

    def eq(self, a, b):
        self.cons.append(a - b)
        self.cons.append(b - a)

    def unwrap(self):
        """a % b is a or a - b where a < 2 * b"""
        for x in list(self.wrap):
            a, b, r = x
            if self.holds(b - a - 1):
                self.wrap.remove(x)
                self.eq(a, r)
            elif self.holds(b * 2 - a - 1):
                self.wrap.remove(x)
                if self.holds(a - b):
                    self.eq(a - b, r)
                else:
                    self.splits.append([[b - a - 1, a - r, r - a], [a - b, a - b - r, r - a + b]])

    def raw(self, e, w=64):
        """a form congruent to the value of e modulo 2^w"""
        k = (e, w)
        if k not in self.memo:
            self.memo[k] = self._raw(e, w)
        return self.memo[k]

    def _raw(self, e, w):
        if isinstance(e, bool):
            e = int(e)
        if isinstance(e, int):
            return L({}, e)
        o = e[0]
        if o == "mem" and isinstance(e[2], int):
            f = self.facts.get(e)
            if f is not None and f[0] == "eq":
                return L({}, f[1])
            return self.atom(e, min(w, 8 * e[2]) if 8 * e[2] < w else w)
        if o in ("add", "sub") and e[1] == w:
            a, b = self.raw(e[2], w), self.raw(e[3], w)
            return a + b if o == "add" else a - b
        if o == "mul" and e[1] == w and isinstance(e[3], int):
            return self.raw(e[2], w) * e[3]
        if o == "shl" and e[1] == w and isinstance(e[3], int):
            return self.raw(e[2], w) * (1 << e[3])
        if o == "or" and e[1] == w and isinstance(e[3], int) and isinstance(e[2], tuple) and e[2][0] == "shl" \
                and isinstance(e[2][3], int) and 0 <= e[3] < 1 << e[2][3]:
            return self.raw(e[2], w) + e[3]     # no bit in common
        if o == "xor" and e[1] == w and e[3] == -1:
            return -self.raw(e[2], w) - 1
        if o == "addr" and isinstance(e[2], int):
            return self.raw(e[1], w) + e[2]
        if o == "gep" and len(e) == 4:
            r = self.raw(e[1], w) + (e[2] or 0)
            for x, s in e[3]:
                r = r + self.raw(x, w) * s
            return r
        if o == "lshr" and e[1] == w and isinstance(e[3], int):
            v = self.value(e[2], w)
            q = self.new(0)
            self.cons += [v - q * (1 << e[3]), q * (1 << e[3]) + ((1 << e[3]) - 1) - v]
            return q
        if o == "udiv" and e[1] == w and isinstance(e[3], int) and e[3] > 0:
            v = self.value(e[2], w)
            q = self.new(0)
            self.cons += [v - q * e[3], q * e[3] + (e[3] - 1) - v]
            return q
        if o == "and" and e[1] == w and isinstance(e[3], int):
            m = e[3]
            if m > 0 and m & (m + 1) == 0 and m.bit_length() < w:
                v = self.value(e[2], w)
                q, r = self.new(0), self.new(0, m)
                self.eq(v, q * (m + 1) + r)
                return r
            if m < 0 and -m & (-m - 1) == 0:
                v = self.value(e[2], w)
                q, r = self.new(0), self.new(0, -m - 1)
                self.eq(v, q * -m + r)
                return v - r
        if o == "urem" and e[1] == w:
            if isinstance(e[3], int) and e[3] > 0:
                v = self.value(e[2], w)
                q, r = self.new(0), self.new(0, e[3] - 1)
                self.eq(v, q * e[3] + r)
                return r
            a, b = self.value(e[2], w), self.value(e[3], w)
            r = self.new(0)
            self.cons += [b - r - 1, a - r]
            self.wrap.append((a, b, r))
            self.unwrap()
            return r
        if o == "intr" and e[1].split(".")[1] in ("umin", "umax", "smin", "smax"):
            n = e[1].split(".")[1]
            s = n[0] == "s"
            a, b = self.value(e[2], w, s), self.value(e[3], w, s)
            r = self.new(None if s else 0)
            if n.endswith("min"):
                self.cons += [a - r, b - r]
            else:
                self.cons += [r - a, r - b]
            self.splits.append([[r - a, a - r], [r - b, b - r]])
            return r
        if o == "cast":
            sw, dw = e[2]
            if e[1] == "trunc" and dw == w and sw:
                return self.raw(e[3], sw)
            if e[1] in ("zext", "sext") and dw == w and sw:
                return self.value(e[3], sw, e[1] == "sext")
        if o == "icmp":
            return self.atom(e, 1)
        return self.atom(e, w)

    def value(self, e, w=64, signed=False):
        """a form equal to the value of e"""
        k = (e, w, signed)
        if k in self.memo:
            return self.memo[k]
        r = self.raw(e, w)
        lo = -(1 << (w - 1)) if signed else 0
        hi = lo + (1 << w)
        if not r.t:
            v = L({}, (r.c - lo) % (1 << w) + lo)
        elif self.holds(r - lo) and self.holds(-r + (hi - 1)):
            v = r
        else:
            m = 1 << w
            for n in (1, -1, 0):
                s = r + n * m
                if n and self.holds(s - lo) and self.holds(-s + (hi - 1)):
                    v = s
                    break
            else:
                v = self.new(lo, hi - 1)
                alts = []
                for n in (0, 1, -1):
                    s = r + n * m
                    alts.append([s - lo, -s + (hi - 1), v - s, s - v])
                self.splits.append(alts)
        self.memo[k] = v
        return v

    # ---- facts ---------------------------------------------------------
    def fact(self, e, f):
        if isinstance(e, tuple) and e[0] == "icmp":
            if f[0] == "eq":
                self.assume(e[1] if f[1] else INV[e[1]], e[2], e[3])
            return
        if isinstance(e, tuple) and e[0] in ("and", "or") and e[1] == 1:
            v = f[1] if f[0] == "eq" else None
            if v is not None:
                a = self.alternatives(e, v & 1)
                if a is not None:
                    self.splits.append(a)
            return
        w = self.wof(e)
        if w is None or w == 1:
            return
        if f[0] == "eq":
            if isinstance(f[1], int) and not (isinstance(e, tuple) and e[0] == "mem"):
                v = self.value(e, w)
                self.eq(v, L({}, f[1] % (1 << w)))
        elif f[0] == "ne":
            v = self.value(e, w)
            if 0 in f[1]:
                self.cons.append(v - 1)
            for k in sorted(f[1]):
                if isinstance(k, int) and 0 < k < 8:
                    if self.holds(v - k):
                        self.cons.append(v - k - 1)
                    else:
                        self.splits.append([[v - k - 1], [-v + k - 1]])

    def alternatives(self, e, v):
        """a disjunction of conjunctions of forms >= 0 equivalent to e == v, or None"""
        if isinstance(e, int):
            return [[]] if bool(e) == bool(v) else []
        f = self.facts.get(e)
        if f is not None and f[0] == "eq" and isinstance(f[1], int) and (e[0] != "and" and e[0] != "or"):
            return [[]] if bool(f[1]) == bool(v) else []
        if e[0] == "icmp":
            x, y = self.forms(e[1], e[2], e[3])
            return self.rel(e[1] if v else INV[e[1]], x, y)
        if e[0] == "xor" and e[1] == 1 and e[3] in (1, -1):
            return self.alternatives(e[2], 1 - v)
        if e[0] in ("and", "or") and e[1] == 1:
            a, b = self.alternatives(e[2], v), self.alternatives(e[3], v)
            if (e[0] == "and") == bool(v):
                if a is None or b is None:
                    return a if b is None else b
                return [x + y for x in a for y in b]
            return None if a is None or b is None else a + b
        return None

    def wof(self, e):
        if not isinstance(e, tuple):
            return None
        if e[0] == "mem":
            return 8 * e[2] if isinstance(e[2], int) and e[2] <= 8 else None
        if e[0] in ("add", "sub", "mul", "shl", "lshr", "and", "or", "xor", "udiv", "urem"):
            return e[1]
        if e[0] == "cast":
            return e[2][1]
        if e[0] == "intr":
            return int(e[1].rsplit(".i", 1)[1]) if e[1].rsplit(".i", 1)[-1].isdigit() else None
        if e[0] in ("icmp",):
            return 1
        return self.width(e) or 64

    def widths(self, a, b):
        ws = [w for w in (self.wof(a), self.wof(b)) if w]
        return max(ws) if ws else 64

    def forms(self, p, a, b):
        w = self.widths(a, b)
        s = p[0] == "s"
        return self.value(a, w, s), self.value(b, w, s)

    def rel(self, p, x, y):
        """alternatives (lists of forms >= 0) equivalent to x p y"""
        q = p[1:] if p not in ("eq", "ne") else p
        return {"lt": [[y - x - 1]], "le": [[y - x]], "gt": [[x - y - 1]], "ge": [[x - y]],
                "eq": [[x - y, y - x]], "ne": [[x - y - 1], [y - x - 1]]}[q]

    def assume(self, p, a, b):
        x, y = self.forms(p, a, b)
        alts = self.rel(p, x, y)
        if len(alts) == 1:
            self.cons += alts[0]
        else:
            for n in (0, 1):
                if self.holds_all([-z - 1 for z in alts[n]], any_=True):
                    self.cons += alts[1 - n]
                    return
            self.splits.append(alts)

    def holds_all(self, forms, any_=False):
        """every form (or with any_: some form) is known to be >= 0"""
        r = [self.holds(f) for f in forms]
        return any(r) if any_ else all(r)

    # ---- queries -------------------------------------------------------
    def sync(self):
        if self.synced < len(self.cons):
            for f in self.cons[self.synced:]:
                self.poly.add(f)
            self.synced = len(self.cons)
            self.poly.check()
        return self.poly

    def holds(self, f, depth=0):
        """f >= 0 follows without case distinctions"""
        p = self.sync().copy()
        p.add(-f - 1)
        return not p.check()

    def infeasible(self, extra=(), depth=9):
        p = self.sync().copy()
        for f in extra:
            p.add(f)
        return self._inf(p, list(self.splits), depth)

    def _inf(self, p, splits, depth):
        if not p.check():
            return True
        if not splits or depth == 0:
            return False
        s, rest = splits[0], splits[1:]
        live = []
        for a in s:
            q = p.copy()
            for f in a:
                q.add(f)
            if q.check():
                live.append(q)
        if len(live) == 1:
            return self._inf(live[0], rest, depth)
        return all(self._inf(q, rest, depth - 1) for q in live)

    def implies(self, p, a, b, extra=()):
        """a p b holds in every solution (in which the relations in extra hold)"""
        x, y = self.forms(p, a, b)
        ex = []
        for q, u, v in extra:
            alts = self.rel(q, *self.forms(q, u, v))
            assert len(alts) == 1
            ex += alts[0]
        return self.implies_form(p, x, y, ex)

    def implies_form(self, p, x, y, extra=()):
        return all(self.infeasible(list(extra) + alt) for alt in self.rel(INV[p], x, y))
