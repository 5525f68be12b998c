"""Row verification conditions: the constraints of one table on one row (pair),
with the facts its lookups establish (contracts of the looked tables)."""
import z3

import vc as V
from vc import P, U32, Lost, VC, add, lin, mul, poly, scale, sub, var

LOOKED = {"RangeCheck", "RangeCheckU8", "Xor", "Bitshift"}


def looked_kind(lookup):
    """The table(s) a lookup list looks into: negated filters."""
    out = []
    for e in lookup:
        ks = [k for c in e["filter"][:2] for _, k in c]
        if (ks and all(k < 0 for k in ks)) or (not ks and e["filter"][2] < 0):
            out.append(e["kind"])
        elif e["filter"][2] == 1 and ks and all(k < 0 for k in ks):
            out.append(e["kind"])
    return out


def is_looked(e):
    ks = [k for c in e["filter"][:2] for _, k in c]
    return e["filter"][2] <= 0 and all(k < 0 for k in ks) and (ks or e["filter"][2] < 0)


class Row(VC):
    """All constraints of `kind`, with `fix` (column name to integer) substituted."""

    def __init__(self, ext, kind, fix=None, rows=("All", "Transition"), lookups=True, name="", nxt=True, nxt_rows=(), nxt_lookups=False):
        """`nxt`: the constraints that hold on every row hold on the next one, too.
        `nxt_rows`: other constraint kinds that hold on the next row (First when
        this row is the last one)."""
        super().__init__(name)
        self.ext, self.kind = ext, kind
        t = ext.table(kind)
        self.fix, self.shift = {}, {}
        for k, v in (fix or {}).items():
            ext.col(kind, k.rstrip("'"))
            self.fix[k] = V.const(v) if isinstance(v, int) else v
            if k.endswith("'"):
                self.shift[k[:-1]] = self.fix[k]
        for c in t["cols"]:
            self.shift.setdefault(c, V.var(c + "'"))
        polys = []
        for r, h in ext.constraints(kind):
            uses = [self.fix] if r in rows else []
            if (r == "All" and nxt or r in nxt_rows) and not ext.uses_next(h):
                uses.append(self.shift)
            for subst in uses:
                fs = [ext.expand(f, subst) for f in ext.factors(h)]
                whole = ext.expand(h, subst)
                if not whole:
                    continue
                fs = [f for f in fs if V.variables(f) or not f]
                if any(not f for f in fs):
                    continue
                polys.append((whole, fs))
        self.polys = polys
        for whole, _ in polys:
            self.detect_binary(whole)
        for whole, fs in polys:
            if not fs:
                self.vanish(whole)  # a nonzero constant: unsatisfiable
            elif len(fs) == 1:
                self.vanish(*split(whole))
            else:
                self.vanish(*[g for f in fs for g in split(f)])
        if lookups:
            self.add_lookups(self.fix)
        if nxt_lookups:
            self.add_lookups(self.shift)

    def iv(self, v):
        """A column; one that is fixed is its constant."""
        if v in self.fix and not V.variables(self.fix[v]):
            return z3.IntVal(V.evaluate(self.fix[v], {}))
        return super().iv(v)

    def detect_binary(self, p):
        vs = V.variables(p)
        if len(vs) == 1:
            (x,) = vs
            if set(p) == {(x, x), (x,)} and (p[(x, x)] + p[(x,)]) % P == 0:
                self.bound(x, 0, 1)

    def add_lookups(self, subst):
        for L in self.ext.lookups:
            looked = {e["kind"] for e in L if is_looked(e)}
            if len(looked) != 1 or not looked <= LOOKED:
                continue
            (target,) = looked
            for e in L:
                if e["kind"] != self.kind or is_looked(e):
                    continue
                if subst is self.shift and any(c[1] for c in [e["filter"]] + e["columns"]):
                    continue
                f = self.ext.column(self.kind, e["filter"], subst)
                if not f:
                    continue
                cols = [self.ext.column(self.kind, c, subst) for c in e["columns"]]
                self.lookup_fact(target, f, cols)

    def confirm(self, model):
        """The model as a row: every constraint evaluated in the field. None if
        one of them does not vanish (an artefact of an abstracted product)."""
        env = {v: 0 for whole, _ in self.polys for v in V.variables(whole)}
        env.update(model)
        if any(V.evaluate(w, env) for w, _ in self.polys):
            return None
        return {**{k: V.evaluate(p, {}) for k, p in self.fix.items() if not V.variables(p)}, **env}

    def lookup_fact(self, target, f, cols):
        if set(f) != {()} or f[()] != 1:
            # conditional: filter expression equal to 1 implies the fact
            return self.conditional_fact(target, f, cols)
        if target in ("RangeCheck", "RangeCheckU8"):
            self.ranged(cols[0], (U32 if target == "RangeCheck" else 256) - 1)
        elif target == "Xor":
            self.xor_fact(cols)
        elif target == "Bitshift":
            self.shift_fact(cols)

    def conditional_fact(self, target, f, cols):
        if target not in ("RangeCheck", "RangeCheckU8"):
            return
        hi = (U32 if target == "RangeCheck" else 256) - 1
        r = f"r!{len(self.bounds)}!{len(self.zero)}"
        self.bound(r, 0, hi)
        self.fact(lambda vc, f=f, c=sub(cols[0], var(r)): z3.Implies(vc.is_zero(sub(f, V.const(1))), vc.is_zero(c)))

    def ranged(self, p, hi):
        """p is in [0, hi] as a field element."""
        if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
            self.bound(list(p)[0][0], 0, hi)
            return
        r = f"r!{len(self.bounds)}!{len(self.zero)}"
        self.bound(r, 0, hi)
        self.vanish(sub(p, var(r)))

    def value(self, p, hi, tag):
        """A name for a field expression known to be in [0, hi]."""
        if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
            v = list(p)[0][0]
            self.bound(v, 0, hi)
            return v
        v = f"{tag}!{len(self.zero)}"
        self.bound(v, 0, hi)
        self.vanish(sub(p, var(v)))
        return v

    def xor_fact(self, cols):
        """Contract of the Xor table: a, b, a^b are words. With n = a & b,
        a + b - (a^b) = 2 n; masking with 2^k - 1 is reduction mod 2^k
        (bit-vector lemmas, proved by z3 in every run)."""
        a, b, o = [self.value(c, U32 - 1, t) for c, t in zip(cols, "abo")]
        self.bound("and!", 0, U32 - 1)
        self.vanish(lin(a, b, (o, -1), ("and!", -2)))
        self.xor = (a, b, o)
        self.fact(lambda vc: z3.And(vc.iv("and!") <= vc.iv(a), vc.iv("and!") <= vc.iv(b)))
        for m in (0x1F, 0xFF, 0xFFFF):
            self.fact(lambda vc, m=m: z3.Implies(vc.iv(a) == m, vc.iv("and!") == vc.iv(b) % (m + 1)))
            self.fact(lambda vc, m=m: z3.Implies(vc.iv(b) == m, vc.iv("and!") == vc.iv(a) % (m + 1)))

    def shift_fact(self, cols):
        """Contract of the Bitshift table: (k, 2^k) with k < 32."""
        a, m = self.value(cols[0], 31, "amount"), self.value(cols[1], 2**31, "multiplier")
        self.fact(lambda vc: z3.Or(*[z3.And(vc.iv(a) == k, vc.iv(m) == 2**k) for k in range(32)]))


def split(p):
    """Factors of a polynomial (over the integers, checked mod p); [p] if none."""
    if len(p) < 2 or all(len(m) <= 1 for m in p) or len(V.variables(p)) > 12 or len(p) > 60:
        return [p]
    import sympy
    vs = sorted(V.variables(p))
    syms = {v: sympy.Symbol(f"x{i}") for i, v in enumerate(vs)}
    e = sum(c * sympy.Mul(*[syms[v] for v in m]) for m, c in p.items())
    back = {s: v for v, s in syms.items()}
    try:
        c, fl = sympy.factor_list(e)
    except Exception:
        return [p]
    if len(fl) < 2 and (not fl or fl[0][1] == 1):
        return [p]
    out, prod = [], V.const(int(c))
    for f, n in fl:
        d = {}
        for mono, co in sympy.Poly(f, *back).terms():
            m = tuple(sorted(v for s, k in zip(back, mono) for v in [back[s]] * k))
            d[m] = V.sym(int(co))
        out.append(d)
        for _ in range(n):
            prod = mul(prod, d)
    if prod != p or int(c) % P == 0:
        return [p]
    return out


# ---- CPU rows
OPS = ["add", "sub", "xor", "or", "and", "div", "rem", "mul", "mulh", "sll", "slt", "srl", "sra", "jalr", "beq", "bne",
       "sb", "sh", "sw", "lb", "lh", "lw", "blt", "bge", "ecall"]
MEM = {"sb", "sh", "sw", "lb", "lh", "lw"}
BRANCH = {"beq", "bne", "blt", "bge"}


def cpu(ext, op, s1=0, s2=0, sd=0, extra=None, **kw):
    fix = {f"inst.ops.{o}": int(o == op) for o in OPS}
    fix.update({"inst.is_op1_signed": s1, "inst.is_op2_signed": s2, "inst.is_dst_signed": sd})
    fix.update(extra or {})
    kw.setdefault("nxt", False)
    r = Row(ext, "Cpu", fix, rows=("All",), name=f"Cpu {op} {s1}{s2}{sd}", **kw)
    for v in ("op1_value", "op2_value_raw", "inst.imm_value", "inst.pc"):
        r.bound(v, 0, U32 - 1)
    if op not in MEM and op not in BRANCH:
        r.fact(lambda vc: vc.iv("op2_value_raw") + vc.iv("inst.imm_value") < U32)
    return r


def signed(x, s):
    return z3.If(x >= 2**31, x - U32, x) if s else x
