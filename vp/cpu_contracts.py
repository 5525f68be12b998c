"""Contracts of the instruction tables (Cpu, Add, BltTaken): what an accepted
row means, per instruction. Each function yields (obligation, thunk) pairs."""
import z3

import vc as V
from rows import BRANCH, MEM, OPS, Row, cpu, signed
from vc import U32, P

A, RAW, IMM, PC, NPC, DST = "op1_value", "op2_value_raw", "inst.imm_value", "inst.pc", "new_pc", "dst_value"


def word(x):
    return z3.And(x >= 0, x < U32)


def op2(v):
    return v.iv(RAW) + v.iv(IMM)


def prove(make, goal, cuts=(), timeout=120):
    """An obligation: build the row, prove the bounds in `cuts`, then the goal."""
    def run():
        r = make()
        spent = 0.0
        for c, lo, hi in cuts:
            s, m, dt = r.cut(c, lo, hi, timeout)
            spent += dt
            if s != "proved":
                return s, r, m, spent, f"{lo} <= {c} <= {hi}"
        s, m, dt = r.check(goal, timeout)
        return s, r, m, spent + dt, None
    return run


ABS = (("op1_abs", 0, U32 - 1), ("op2_abs", 0, U32 - 1))


def product(v):
    return v.int_of(V.mul(V.var("op1_abs"), V.var("op2_abs")))


def mul_goal(s1, s2, high):
    def goal(v):
        o1, o2 = signed(v.iv(A), s1), signed(op2(v), s2)
        full = z3.If(z3.Xor(o1 < 0, o2 < 0), -product(v), product(v))
        return z3.And(v.iv("op1_abs") == z3.If(o1 < 0, -o1, o1), v.iv("op2_abs") == z3.If(o2 < 0, -o2, o2),
                      word(v.iv(DST)), v.iv(DST) == ((full / U32) % U32 if high else full % U32))
    return goal


def div_goal(op, s):
    def goal(v):
        q, r, d = v.iv("quotient_value"), v.iv("remainder_value"), v.iv(DST)
        n, dv = signed(v.iv(A), s), signed(op2(v), s)
        qs, rs = signed(q, s), signed(r, s)
        m = v.int_of(V.mul(V.var("op2_abs"), V.var("quotient_value")))
        mag = z3.If(qs < 0, v.iv("op2_abs") * U32 - m, m)      # |divisor| * |quotient|
        dq = z3.If(z3.Xor(dv < 0, qs < 0), -mag, mag)           # divisor * quotient
        ar, ad = z3.If(rs < 0, -rs, rs), z3.If(dv < 0, -dv, dv)
        euclid = z3.And(dq + rs == n, ar < ad, z3.Or(rs == 0, (rs < 0) == (n < 0)))
        over = z3.And(n == -2**31, dv == -1) if s else z3.BoolVal(False)
        return z3.And(word(q), word(r), v.iv("op2_abs") == ad, d == (q if op == "div" else r),
                      z3.If(dv == 0, z3.And(q == U32 - 1, r == v.iv(A)),
                            z3.If(over, z3.And(q == 2**31, r == 0), euclid)))
    return goal


def shift_amount(v):
    return z3.And(v.iv("bitshift.amount") == op2(v) % 32,
                  z3.Or(*[z3.And(v.iv("bitshift.amount") == k, v.iv("op2_value") == 2**k) for k in range(32)]))


def shl_goal(v):
    return z3.And(shift_amount(v), v.iv("op1_abs") == v.iv(A), v.iv("op2_abs") == v.iv("op2_value"),
                  word(v.iv(DST)), v.iv(DST) == product(v) % U32)


def shr_goal(s):
    def goal(v):
        q, r = v.iv("quotient_value"), v.iv("remainder_value")
        n, qs = signed(v.iv(A), s), signed(q, s)
        m = v.int_of(V.mul(V.var("op2_abs"), V.var("quotient_value")))
        dq = m - z3.If(qs < 0, v.iv("op2_abs") * U32, 0)        # 2^k * quotient (floor division)
        return z3.And(shift_amount(v), v.iv("op2_abs") == v.iv("op2_value"), word(q), v.iv(DST) == q,
                      dq + r == n, r >= 0, r < v.iv("op2_value"))
    return goal


def arithmetic(ext):
    c = lambda op, s1=0, s2=0: (lambda: cpu(ext, op, s1, s2))
    qs = (("quotient_sign", 0, 1),)
    sh = (("op2_value", 0, U32 - 1),)
    yield "sub", prove(c("sub"), lambda v: z3.And(word(v.iv(DST)), (v.iv(DST) - v.iv(A) + op2(v)) % U32 == 0))
    for s in (0, 1):
        yield f"slt{'' if s else 'u'}", prove(c("slt", s, s), lambda v, s=s: v.iv(DST) == z3.If(signed(v.iv(A), s) < signed(op2(v), s), 1, 0))
    yield "mul", prove(c("mul"), mul_goal(0, 0, False), ABS)
    for n, s1, s2 in (("mulhu", 0, 0), ("mulhsu", 1, 0), ("mulh", 1, 1)):
        yield n, prove(c("mulh", s1, s2), mul_goal(s1, s2, True), ABS)
    for op in ("div", "rem"):
        for s in (0, 1):
            yield op + ("" if s else "u"), prove(c(op, s, s), div_goal(op, s), ABS + qs)
    yield "sll", prove(c("sll"), shl_goal, sh + ABS)
    yield "srl", prove(c("srl"), shr_goal(0), sh + ABS + qs)
    yield "sra", prove(c("sra", 1, 0), shr_goal(1), sh + ABS + qs)
    for op in ("xor", "or", "and"):
        def goal(v, op=op):
            a, b, o = [v.iv(x) for x in v.xor]
            n = v.iv("and!")
            return z3.And(a == v.iv(A), b == op2(v), v.iv(DST) == {"xor": o, "or": o + n, "and": n}[op])
        yield op, prove(c(op), goal)
    def no_add():
        r = cpu(ext, "add")
        r.may_be_empty = True
        return r
    yield "add: not in this table", prove(no_add, lambda v: z3.BoolVal(False))
    yield "add", prove(lambda: add_row(ext), lambda v: z3.And(word(v.iv(DST)), (v.iv(DST) - v.iv(A) - v.iv("op2_value") - v.iv(IMM)) % U32 == 0))


def add_row(ext):
    r = Row(ext, "Add", {"is_running": 1}, rows=("All",), name="Add")
    for v in (A, "op2_value", IMM, "inst.pc"):
        r.bound(v, 0, U32 - 1)
    return r


def blt_row(ext, running=1):
    r = Row(ext, "BltTaken", {"is_running": running}, rows=("All",), name="BltTaken")
    for v in (A, "op2_value", IMM, "inst.pc"):
        r.bound(v, 0, U32 - 1)
    return r


def branch_goal(taken):
    return lambda v: v.iv(NPC) == z3.If(taken(v), v.iv(IMM), v.iv(PC) + 4)


def control(ext):
    c = lambda op, s1=0, s2=0, **k: (lambda: cpu(ext, op, s1, s2, **k))
    for op in OPS:
        if op in BRANCH or op in ("jalr", "ecall", "add"):
            continue
        for s in ((0, 0), (1, 0), (1, 1)):
            yield f"{op} {s[0]}{s[1]} ticks", prove(c(op, *s), lambda v: v.iv(NPC) == v.iv(PC) + 4)
    for op, eq in (("beq", True), ("bne", False)):
        yield op, prove(c(op), branch_goal(lambda v, eq=eq: (v.iv(A) == v.iv(RAW)) == eq))
    for s in (0, 1):
        yield f"blt{'' if s else 'u'}", prove(c("blt", s, s), branch_goal(lambda v, s=s: signed(v.iv(A), s) < signed(v.iv(RAW), s)))
        yield f"bge{'' if s else 'u'}", prove(c("bge", s, s), branch_goal(lambda v, s=s: signed(v.iv(A), s) >= signed(v.iv(RAW), s)))
    # new_pc is a word: it is the pc of the next row, found in the program
    def jalr():
        r = cpu(ext, "jalr")
        r.bound(NPC, 0, U32 - 1)
        return r
    yield "jalr target", prove(jalr, lambda v: (v.iv(NPC) - v.iv(A) - op2(v)) % U32 == 0)
    yield "jalr link", prove(jalr, lambda v: v.iv(DST) == (v.iv(PC) + 4) % U32)
    yield "blt taken", prove(lambda: blt_row(ext), lambda v: v.iv(A) < v.iv("op2_value"))
    calls = [n for n in ext.table("Cpu")["cols"] if n.startswith("ecall_selectors.")]
    for call in calls:
        halt = call.endswith("is_halt")
        e = {n: int(n == call) for n in calls}
        yield f"{call} pc", prove(c("ecall", extra=e), lambda v, halt=halt: v.iv(NPC) == v.iv(PC) + (0 if halt else 4))
