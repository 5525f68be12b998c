"""Verification conditions over extracted constraints.

Constraint expressions come from running the real constraint code of every
table over symbolic field elements (units/circuits). Here they are expanded to
polynomials over F_p, translated to linear integer arithmetic (products of
bounded columns stay opaque, with sound bounds), and each obligation is
discharged by z3: unsat of (constraints and lookup facts and not goal)."""
import os
import re
import sys
import time

import z3

P = 2**64 - 2**32 + 1
U32 = 2**32


class Lost(Exception):
    """A column, table or lookup the contracts name is no longer there."""


# ---- polynomials over F_p: {monomial (sorted tuple of variables): coefficient}
def sym(c):
    c %= P
    return c if c <= P // 2 else c - P


def const(c):
    c = sym(c)
    return {(): c} if c else {}


def var(v):
    return {(v,): 1}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        s = sym(r.get(m, 0) + k * c)
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return {m: sym(c * k) for m, c in a.items() if sym(c * k)}


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return {m: sym(c) for m, c in r.items() if sym(c)}


def poly(x):
    return x if isinstance(x, dict) else const(x) if isinstance(x, int) else var(x)


def lin(*terms):
    """lin(("x", 2), ("y", -1), 5): integer-coefficient combination."""
    r = {}
    for t in terms:
        r = add(r, const(t) if isinstance(t, int) else scale(poly(t[0]), t[1]) if isinstance(t, tuple) else poly(t))
    return r


def variables(p):
    return {v for m in p for v in m}


def evaluate(p, env):
    s = 0
    for m, c in p.items():
        for v in m:
            c = c * env[v] % P
        s += c
    return s % P


# ---- extraction
def parse_names(text):
    """`Cpu { clk: c0, inst: Inst { pc: c1, .. }, xs: [c2, c3] }` to {path: index}."""
    out = {}
    toks = re.findall(r"\w+|[{}\[\](),:]", text)
    i = 0

    def value(path):
        nonlocal i
        t = toks[i]
        if re.fullmatch(r"c\d+", t):
            out[path] = int(t[1:])
            i += 1
            return
        if t == "[":
            i += 1
            k = 0
            while toks[i] != "]":
                value(f"{path}[{k}]")
                k += 1
                if toks[i] == ",":
                    i += 1
            i += 1
            return
        i += 1  # struct name
        if i < len(toks) and toks[i] in "{(":
            close = "}" if toks[i] == "{" else ")"
            i += 1
            k = 0
            while toks[i] != close:
                if close == "}":
                    name = toks[i]
                    i += 2
                else:
                    name = str(k)
                    k += 1
                value(f"{path}.{name}" if path else name)
                if toks[i] == ",":
                    i += 1
            i += 1

    value("")
    return out


class Ext:
    def __init__(self, d):
        self.nodes = d["nodes"]
        self.tables = {}
        self.memo = {}
        for t in d["tables"]:
            names = parse_names(t["names"])
            if sorted(names.values()) != list(range(t["columns"])):
                raise Lost(f"{t['kind']}: column names do not cover the columns")
            self.tables[t["kind"]] = dict(t, cols=names, rev={i: n for n, i in names.items()})
        self.lookups = d["lookups"]
        self.public = d["public"]

    def table(self, kind):
        if kind not in self.tables:
            raise Lost(f"table {kind}")
        return self.tables[kind]

    def col(self, kind, path):
        t = self.table(kind)
        if path not in t["cols"]:
            raise Lost(f"column {path} of {kind}")
        return path

    def rename(self, v):
        kind, rest = v.split(".")
        i = int(rest[1:])
        return self.tables[kind]["rev"][i] + ("'" if rest[0] == "n" else "") if rest[0] in "ln" else f"public{i}"

    def expand(self, h, subst):
        """Polynomial of handle h with `subst` (name to poly) applied. memo per subst object."""
        memo = self.memo.setdefault(id(subst), (subst, {}))[1]
        stack = [h]
        while stack:
            h0 = stack[-1]
            if h0 in memo:
                stack.pop()
                continue
            if h0[0] == "c":
                memo[h0] = const(int(h0[1:]))
                continue
            n = self.nodes[int(h0[1:])]
            if n[0] == "v":
                name = self.rename(n[1])
                memo[h0] = subst.get(name, var(name))
                continue
            if n[0] == "/":
                raise Lost("a constraint uses an inverse")
            kids = n[1:]
            todo = [k for k in kids if k not in memo]
            if todo:
                stack += todo
                continue
            a = memo[kids[0]]
            memo[h0] = {"+": lambda: add(a, memo[kids[1]]), "-": lambda: sub(a, memo[kids[1]]),
                        "*": lambda: mul(a, memo[kids[1]]), "~": lambda: scale(a, -1)}[n[0]]()
        return memo[h]

    def uses_next(self, h):
        """The expression reads the next row or a public input."""
        memo = self.memo.setdefault("next", {})
        stack = [h]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            if x[0] == "c":
                memo[x] = False
                continue
            n = self.nodes[int(x[1:])]
            if n[0] == "v":
                memo[x] = n[1].split(".")[1][0] != "l"
                continue
            todo = [k for k in n[1:] if k not in memo]
            if todo:
                stack += todo
                continue
            memo[x] = any(memo[k] for k in n[1:])
        return memo[h]

    def factors(self, h):
        """Handles whose product is h, by the product nodes on top."""
        if h[0] == "c":
            return [h]
        n = self.nodes[int(h[1:])]
        if n[0] == "*":
            return self.factors(n[1]) + self.factors(n[2])
        if n[0] == "~":
            return self.factors(n[1])
        return [h]

    def constraints(self, kind, which="packed"):
        return self.table(kind)[which]

    def column(self, kind, c, subst):
        """Linear combination of a lookup column as a polynomial over names."""
        rev = self.tables[kind]["rev"]
        r = const(c[2])
        for (i, k) in c[0]:
            r = add(r, scale(subst.get(rev[i], var(rev[i])), k))
        for (i, k) in c[1]:
            r = add(r, scale(subst.get(rev[i] + "'", var(rev[i] + "'")), k))
        return r


# ---- one verification condition
class VC:
    """Assumptions over the columns of one row pair; goals checked with z3."""

    def __init__(self, name):
        self.name = name
        self.bounds = {}
        self.zero = []      # lists of alternative polynomials: one of them is 0 mod p
        self.conds = []     # functions VC -> z3 Bool (integer facts)
        self.binary = set()
        self.cache = None

    def bound(self, v, lo, hi):
        l, h = self.bounds.get(v, (0, P - 1))
        self.bounds[v] = (max(l, lo), min(h, hi))
        if hi == 1:
            self.binary.add(v)

    def vanish(self, *alts):
        self.zero.append([poly(a) for a in alts])

    def fact(self, f):
        self.conds.append(f)

    # translation
    def reset(self):
        self.ints, self.mono, self.side, self.nk = {}, {}, [], 0

    def rng(self, v):
        return self.bounds.get(v, (0, P - 1))

    def iv(self, v):
        if v not in self.ints:
            x = z3.Int(v)
            lo, hi = self.rng(v)
            self.ints[v] = x
            self.side += [x >= lo, x <= hi]
        return self.ints[v]

    def mon(self, m):
        """z3 term and bounds of a monomial; exact for at most one non-binary
        factor, opaque with McCormick bounds for more."""
        m = tuple(sorted(set(v for v in m if v in self.binary)) + [v for v in m if v not in self.binary])
        if m in self.mono:
            return self.mono[m]
        bins = [v for v in m if v in self.binary]
        rest = [v for v in m if v not in self.binary]
        if not rest:
            t, lo, hi = z3.IntVal(1), 1, 1
        elif len(rest) == 1:
            t = self.iv(rest[0])
            lo, hi = self.rng(rest[0])
        else:
            # product of the first and of the remaining ones, left to right
            t, lo, hi = self.iv(rest[0]), *self.rng(rest[0])
            for k in range(1, len(rest)):
                y, (ylo, yhi) = self.iv(rest[k]), self.rng(rest[k])
                key = ("*",) + tuple(rest[:k + 1])
                if key not in self.mono:
                    z = z3.Int("*".join(rest[:k + 1]))
                    plo, phi = lo * ylo, hi * yhi
                    field = phi >= P  # then only the residue is known
                    if field:
                        self.side += [z >= 0, z < P]
                        self.side += [z3.Implies(t == 0, z == 0), z3.Implies(y == 0, z == 0),
                                      z3.Implies(z == 0, z3.Or(t == 0, y == 0)),
                                      z3.Implies(t == 1, z == y), z3.Implies(y == 1, z == t)]
                        plo, phi = 0, P - 1
                    else:
                        self.side += [z >= lo * y + ylo * t - lo * ylo, z >= hi * y + yhi * t - hi * yhi,
                                      z <= hi * y + ylo * t - hi * ylo, z <= yhi * t + lo * y - lo * yhi]
                        self.side += [z3.Implies(t == 0, z == 0), z3.Implies(y == 0, z == 0),
                                      z3.Implies(t == 1, z == y), z3.Implies(y == 1, z == t),
                                      z3.Implies(z == 0, z3.Or(t == 0, y == 0))]
                        for c in (1, 2):
                            self.side += [z3.Implies(t >= c, z >= c * y), z3.Implies(y >= c, z >= c * t)]
                            if not field:
                                self.side += [z3.Implies(t >= c, z <= yhi * (t - c) + c * y), z3.Implies(y >= c, z <= hi * (y - c) + c * t)]
                        for c in (2**31, 2**32 - 1):
                            self.side += [z3.Implies(t == c, z == c * y), z3.Implies(y == c, z == c * t)]
                    self.mono[key] = (z, plo, phi)
                t, lo, hi = self.mono[key]
        if bins:
            t = z3.If(z3.And(*[self.iv(b) == 1 for b in bins]), t, 0)
            lo = min(lo, 0)
        self.mono[m] = (t, lo, hi)
        return self.mono[m]

    def term(self, p):
        """The integer value of a polynomial (symmetric coefficients) and its range."""
        ts, lo, hi = [], 0, 0
        for m, c in p.items():
            if not m:
                ts.append(z3.IntVal(c))
                lo += c
                hi += c
                continue
            t, l, h = self.mon(m)
            ts.append(c * t)
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        return (z3.Sum(ts) if ts else z3.IntVal(0)), lo, hi

    def is_zero(self, p):
        """p = 0 in F_p, as an integer statement."""
        p = poly(p)
        if not p:
            return z3.BoolVal(True)
        if set(p) == {()}:
            return z3.BoolVal(False)
        t, lo, hi = self.term(p)
        if lo > -P and hi < P:
            return t == 0
        kl, kh = -((-lo) // P), hi // P
        kl, kh = (lo + P - 1) // P, hi // P
        if kh - kl <= 6:
            return z3.Or(*[t == k * P for k in range(kl, kh + 1)])
        return t % P == 0

    def int_of(self, p):
        """The integer value in a goal: no product known only as a residue."""
        p = poly(p)
        for m in p:
            hi = 1
            for v in m:
                hi *= self.rng(v)[1]
            if len([v for v in m if v not in self.binary]) > 1 and hi >= P:
                raise Lost(f"{self.name}: {m} may wrap around the field")
        return self.term(p)[0]

    def cut(self, v, lo, hi, timeout=60):
        """Proves a bound of a column, then uses it."""
        r, m, dt = self.check(lambda vc: z3.And(vc.iv(v) >= lo, vc.iv(v) <= hi), timeout)
        if r == "proved":
            self.bound(v, lo, hi)
        return r, m, dt

    def pivot(self, f, out):
        """f = v L + R with v an unbounded column: f = 0 and L = 0 give R = 0."""
        for v in sorted(variables(f)):
            if self.rng(v)[1] < P - 1 or any(m.count(v) > 1 for m in f) or not any(v in m and len(m) > 1 for m in f):
                continue
            l = {tuple(x for x in m if x != v): c for m, c in f.items() if v in m}
            r = {m: c for m, c in f.items() if v not in m}
            out.append(z3.Implies(z3.And(self.is_zero(f), self.is_zero(l)), self.is_zero(r)))

    def assumptions(self):
        self.reset()
        out = []
        for alts in self.zero:
            for a in alts:
                self.pivot(a, out)
            out.append(z3.Or(*[self.is_zero(a) for a in alts]) if len(alts) > 1 else self.is_zero(alts[0]))
        for f in self.conds:
            out.append(f(self))
        return out

    def check(self, goal, timeout=60, name=""):
        """goal: VC -> z3 Bool. Returns ("proved"|"refuted"|"unknown", model text, seconds)."""
        t0 = time.time()
        ass = self.assumptions()
        g = goal(self)
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*self.side)
        s.add(*ass)
        s.add(z3.Not(g))
        r = s.check()
        dt = time.time() - t0
        if r == z3.unsat:
            return "proved", None, dt
        if r == z3.sat:
            m = s.model()
            m = self.exact(s) or m
            return "refuted", {v: m.eval(x, model_completion=True).as_long() for v, x in self.ints.items()}, dt
        return "unknown", None, dt

    def exact(self, s):
        """A model in which the opaque products are products, by fixing one side
        of each; None if none is found."""
        prods = [k for k in self.mono if k and k[0] == "*"]
        m, t0, pushed, wraps = s.model(), time.time(), 0, 0
        s.set("timeout", 4000)
        for k in sorted(prods, key=len):
            z, _, hi = self.mono[k]
            head, tail = k[1:-1], k[-1]
            x, y = (self.iv(head[0]) if len(head) == 1 else self.mono[("*",) + head][0]), self.iv(tail)
            done = False
            tries = [(y, x, tail, None)] + ([(x, y, head[0], None)] if len(head) == 1 else [])
            tries += [(a, b, n, c) for a, b, n, _ in list(tries) for c in (0, 1, 2, 3)]
            for a, b, n, c in tries:
                if time.time() - t0 > 40:
                    break
                c = m.eval(a, model_completion=True).as_long() if c is None else c
                lo_, hi_ = self.rng(n)
                if not lo_ <= c <= hi_:
                    continue
                s.push()
                s.add(a == c)
                if hi >= P - 1:
                    q = z3.Int(f"wrap!{wraps}")
                    wraps += 1
                    s.add(z == c * b - q * P)
                else:
                    s.add(z == c * b)
                if s.check() == z3.sat:
                    m, done = s.model(), True
                    pushed += 1
                    break
                s.pop()
            if not done:
                m = None
                break
        for _ in range(pushed):
            s.pop()
        return m

    def consistent(self, timeout=60):
        """The assumptions are satisfiable (no vacuous proof)."""
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        ass = self.assumptions()
        s.add(*self.side)
        s.add(*ass)
        return str(s.check())
