"""Contracts of the tables around the instruction tables: memory, registers,
lookup tables, program, environment calls and tapes, hashing; and the contracts
of the cross-table lookups between them. Each function yields (obligation,
thunk) pairs; a thunk returns (status, row, model, seconds, cut)."""
import time

import json

import z3

import vc as V
from cpu_contracts import A, DST, IMM, NPC, PC, RAW, add_row, blt_row, op2, prove, word
from rows import MEM, OPS, Row, cpu, is_looked, signed
from vc import Lost, P, U32, VC, const, lin, poly, sub, var

CLK = 2**31   # clocks: the trace has at most 2^30 rows
STORAGE = ["StorageDevicePrivate", "StorageDevicePublic", "CallTape", "EventTape", "EventsCommitmentTape",
           "CastListCommitmentTape", "SelfProgIdTape"]
CALLS = {"StorageDevicePrivate": "is_private_tape", "StorageDevicePublic": "is_public_tape", "CallTape": "is_call_tape",
         "EventTape": "is_event_tape", "EventsCommitmentTape": "is_events_commitment_tape",
         "CastListCommitmentTape": "is_cast_list_commitment_tape", "SelfProgIdTape": "is_self_prog_id_tape"}


def decide(f):
    """An obligation decided without a solver: f() returns an error text or None."""
    def run():
        t0 = time.time()
        e = f()
        return ("refuted" if e else "proved"), None, None, time.time() - t0, e
    return run


# ---- rows and row pairs
def row(ext, kind, fix=None, bounds=(), **kw):
    def make():
        r = Row(ext, kind, fix, name=kind, **kw)
        for b in bounds:
            c, lo, hi = b
            ext.col(kind, c.rstrip("'"))
            r.bound(c, lo, hi)
        return r
    return make


def single(ext, kind, fix=None, bounds=(), rows=("All",), **kw):
    return row(ext, kind, fix, bounds, rows=rows, nxt=False, **kw)


def step(ext, kind, fix=None, bounds=(), **kw):
    """A row and the next one, not across the end of the table."""
    return row(ext, kind, fix, bounds, rows=("All", "Transition"), **kw)


def wrap(ext, kind, fix=None, bounds=(), **kw):
    """The last row and the first one."""
    return row(ext, kind, fix, bounds, rows=("All", "Last"), nxt_rows=("First",), **kw)


def first(ext, kind, fix=None, bounds=(), **kw):
    return single(ext, kind, fix, bounds, rows=("All", "First"), **kw)


def last(ext, kind, fix=None, bounds=(), **kw):
    return single(ext, kind, fix, bounds, rows=("All", "Last"), **kw)


def eq(a, b):
    """a = b in the field."""
    return lambda v: v.is_zero(sub(poly(a), poly(b)))


def binary(*cols):
    return lambda v: z3.And(*[z3.Or(v.iv(c) == 0, v.iv(c) == 1) for c in cols])


def one_of(*cols):
    return lambda v: z3.And(binary(*cols)(v), z3.Sum([v.iv(c) for c in cols]) <= 1)


# ---- lookups
class Lookup:
    def __init__(self, ext, entries):
        self.ext = ext
        self.looked = [e for e in entries if is_looked(e)]
        self.looking = [e for e in entries if not is_looked(e)]

    def filt(self, e, fix=None):
        return self.ext.column(e["kind"], e["filter"], {k: poly(x) for k, x in (fix or {}).items()})

    def cols(self, e, fix=None):
        return [self.ext.column(e["kind"], c, {k: poly(x) for k, x in (fix or {}).items()}) for c in e["columns"]]


def lookups(ext, target, active=None):
    """The lookups into table `target` (whose looked filter is 1 with `active`)."""
    out = []
    for entries in ext.lookups:
        l = Lookup(ext, entries)
        for e in l.looked:
            if e["kind"] != target:
                continue
            if active is None or V.scale(l.filt(e, active), -1) == const(1):
                out.append(l)
    return out


def roles(l, target):
    """Position of each column of `target` in the tuple, by the columns it reads."""
    for e in l.looked:
        if e["kind"] == target:
            return {frozenset(V.variables(c)): i for i, c in enumerate(l.cols(e))}
    raise Lost(f"lookup into {target}")


def one(ls, what):
    if len(ls) != 1:
        raise Lost(f"{len(ls)} lookups into {what}")
    return ls[0]


def entries(l, kind, fix):
    """Looking entries of `kind` that are active with `fix`: (multiplicity 1, columns)."""
    out = []
    for e in l.looking:
        if e["kind"] != kind:
            continue
        f = l.filt(e, fix)
        if f == const(0):
            continue
        if f != const(1):
            raise Lost(f"filter of {kind} is {f}, not 0 or 1, at {fix}")
        out.append(l.cols(e, fix))
    return out


def same_tuples(got, want):
    """Multisets of tuples of polynomials."""
    key = lambda t: repr([sorted(poly(c).items()) for c in t])
    g, w = sorted(map(key, got)), sorted(map(key, want))
    if g != w:
        return f"looked-up tuples are\n  {got}\nexpected\n  {want}"
    return None


def cpu_fix(op, s=(0, 0, 0), **extra):
    fix = {f"inst.ops.{o}": int(o == op) for o in OPS}
    fix.update({"inst.is_op1_signed": s[0], "inst.is_op2_signed": s[1], "inst.is_dst_signed": s[2]})
    fix.update(extra)
    return fix


def memory_lookup(ext):
    """(lookup, function role -> position) of memory accesses."""
    l = one([l for l in lookups(ext, "Memory", {"is_store": 1, "is_load": 0, "is_init": 0})
             if any("clk" in V.variables(c) for e in l.looked for c in l.cols(e))], "Memory accesses")
    return l, roles(l, "Memory")


def access_tuples(ext, kind, fix, want, table="Memory", vars_=("clk", "is_store", "is_load", "addr", "value"), active=None):
    """The accesses a row of `kind` makes are exactly `want` (dicts by column)."""
    def f():
        l = one(lookups(ext, table, active or {"is_store": 1, "is_load": 0, "is_init": 0}), table)
        e = next(e for e in l.looked if e["kind"] == table)
        pos = {}
        for i, c in enumerate(l.cols(e)):
            if len(c) != 1 or list(c.values()) != [1]:
                return f"column {i} of the looked tuple is {c}"
            pos[list(c)[0][0]] = i
        if set(pos) != set(vars_):
            return f"looked columns {sorted(pos)}"
        got = [{v: t[i] for v, i in pos.items()} for t in entries(l, kind, fix)]
        return same_tuples([[g[v] for v in vars_] for g in got], [[poly(w[v]) for v in vars_] for w in want])
    return decide(f)


def filters_binary(ext, kinds=None):
    """Every looking filter is 0 or 1 on every row (so no multiplicity can be forged)."""
    for i, entries_ in enumerate(ext.lookups):
        l = Lookup(ext, entries_)
        seen = set()
        for e in l.looking:
            # the limbs of the range check are looked up with its own multiplicity as well
            if kinds is not None and e["kind"] not in kinds:
                continue
            f = l.filt(e)
            key = (e["kind"], repr(sorted(f.items())))
            if key in seen or f in (const(1), const(0)):
                continue
            seen.add(key)
            if V.variables(f) == {"multiplicity"} and e["kind"] == "RangeCheck":
                continue  # redundant: its limbs are looked up with filter 1 too
            yield f"filter of {e['kind']} in lookup {i}: {'+'.join(sorted(V.variables(f)))}", filter_goal(ext, e["kind"], f)


def filter_goal(ext, kind, f):
    def make():
        if kind not in SHARED:
            SHARED[kind] = flag_row(ext) if kind == "Poseidon2" else Row(ext, kind, rows=("All",), lookups=False, name=kind)
        return SHARED[kind]
    return prove(make, lambda v: z3.Or(v.is_zero(f), v.is_zero(sub(f, const(1)))))


SHARED = {}


# ---- C02: the sequence of instructions
def skeleton(ext):
    k = "CpuSkeleton"
    ext.col(k, "pc")
    yield "first row", prove(first(ext, k), lambda v: z3.And(v.iv("clk") == 2, v.iv("is_running") == 1, v.is_zero(sub(var("pc"), var("public0")))))
    b = (("clk", 0, CLK), ("is_running", 0, 1))
    yield "running is binary after a binary row", prove(step(ext, k, bounds=b), binary("is_running'"))
    yield "the clock ticks while running", prove(step(ext, k, bounds=b), lambda v: v.iv("clk'") == v.iv("clk") + v.iv("is_running"))
    yield "stopped stays stopped", prove(step(ext, k, {"is_running": 0}), lambda v: v.iv("is_running'") == 0)
    yield "last row has stopped", prove(last(ext, k), lambda v: v.iv("is_running") == 0)

    def want():
        l = one(lookups(ext, k), k)
        e = next(e for e in l.looked if e["kind"] == k)
        if V.scale(l.filt(e), -1) != poly(var("is_running")):
            return f"filter {l.filt(e)}"
        cols = l.cols(e)
        names = {"clk": var("clk"), "pc": var("pc"), "next pc": var("pc'"), "halts": lin(1, ("is_running'", -1))}
        pos = {}
        for n, p in names.items():
            if p not in cols:
                return f"no column {n} in {cols}"
            pos[n] = cols.index(p)
        for kind, fix, w in ([("Cpu", cpu_fix(o), (PC, NPC, "ecall_selectors.is_halt")) for o in OPS] +
                             [("Add", {"is_running": 1}, (PC, lin(PC, 4), 0)), ("BltTaken", {"is_running": 1}, (PC, IMM, 0))]):
            got = entries(l, kind, fix)
            if len(got) != 1:
                return f"{len(got)} entries of {kind} at {fix}"
            t = got[0]
            for n, x in zip(("clk", "pc", "next pc", "halts"), ("clk",) + w):
                if t[pos[n]] != poly(x):
                    return f"{kind}: {n} is {t[pos[n]]}, expected {x}"
        if {e["kind"] for e in l.looking} != {"Cpu", "Add", "BltTaken"}:
            return f"looking {[e['kind'] for e in l.looking]}"
        return None
    yield "every step is one row of one instruction table", decide(want)
    for op in OPS:
        if op not in ("ecall", "add"):
            yield f"{op} does not halt", prove(lambda op=op: cpu(ext, op, nxt=False, lookups=False), lambda v: v.iv("ecall_selectors.is_halt") == 0)


# ---- C03: loads and stores
def loads_stores(ext):
    def c(op, d=0, hi=U32 - 1, **bounds):
        def make():
            r = cpu(ext, op, 0, 0, d, nxt=False)
            # contract of the looked table (Memory, HalfWordMemory, FullWordMemory): the value is in range
            r.bound("mem_value_raw", 0, hi)
            r.bound("mem_addr", 0, U32 - 1)
            return r
        return make
    addr = lambda v: (v.iv("mem_addr") - op2(v)) % U32 == 0
    for op, d, hi in (("sb", 0, 255), ("sh", 0, 65535), ("sw", 0, U32 - 1), ("lb", 0, 255), ("lb", 1, 255), ("lh", 0, 65535), ("lh", 1, 65535), ("lw", 0, U32 - 1)):
        tag = op + ("u" if op in ("lb", "lh") and not d else "")
        yield f"{tag}: address", prove(c(op, d, hi), addr)
        if op[0] == "s":
            yield f"{tag}: value", prove(c(op, d, hi), lambda v, hi=hi: v.iv("mem_value_raw") == v.iv(A) % (hi + 1))
        else:
            yield f"{tag}: value", prove(c(op, d, hi), lambda v, hi=hi, d=d: v.iv(DST) == (
                z3.If(v.iv("mem_value_raw") * 2 > hi, v.iv("mem_value_raw") + (U32 - 1 - hi), v.iv("mem_value_raw")) if d else v.iv("mem_value_raw")))
    for op in OPS:
        b = [dict(clk="clk", is_store=int(op == "sb"), is_load=int(op == "lb"), addr="mem_addr", value="mem_value_raw")] if op in ("sb", "lb") else []
        yield f"{op}: byte access", access_tuples(ext, "Cpu", cpu_fix(op), b)
        for t, ops in (("HalfWordMemory", ("sh", "lh")), ("FullWordMemory", ("sw", "lw"))):
            n = 2 if t == "HalfWordMemory" else 4
            yield f"{op}: {t}", wide_tuple(ext, t, n, op, ops)
    for t, n in (("HalfWordMemory", 2), ("FullWordMemory", 4)):
        for s, l in ((1, 0), (0, 1)):
            fix = {"ops.is_store": s, "ops.is_load": l}
            yield f"{t}: bytes {'stored' if s else 'loaded'}", access_tuples(
                ext, t, fix, [dict(clk="clk", is_store=s, is_load=l, addr=f"addrs[{i}]", value=f"limbs[{i}]") for i in range(n)])
            bounds = tuple((f"addrs[{i}]", 0, U32 - 1) for i in range(n))
            yield f"{t}: addresses {'stored' if s else 'loaded'}", prove(single(ext, t, fix, bounds), lambda v, n=n: z3.And(
                *[v.iv(f"addrs[{i}]") == (v.iv("addrs[0]") + i) % U32 for i in range(n)]))
        yield f"{t}: load or store", prove(single(ext, t), one_of("ops.is_store", "ops.is_load"))
        yield f"{t}: padding makes no access", access_tuples(ext, t, {"ops.is_store": 0, "ops.is_load": 0}, [])


def wide_tuple(ext, t, n, op, ops):
    def f():
        act = {"ops.is_store": 1, "ops.is_load": 0}
        l = one(lookups(ext, t, act), t)
        e = next(e for e in l.looked if e["kind"] == t)
        value = lin(*[(f"limbs[{i}]", 256**i) for i in range(n)])
        names = {"clk": var("clk"), "store": var("ops.is_store"), "load": var("ops.is_load"), "addr": var("addrs[0]"), "value": value}
        cols = l.cols(e)
        if V.scale(l.filt(e), -1) != lin("ops.is_store", "ops.is_load"):
            return f"filter {l.filt(e)}"
        for m, p in names.items():
            if p not in cols:
                return f"no column {m} in {cols}"
        got = entries(l, "Cpu", cpu_fix(op))
        want = []
        if op in ops:
            w = {"clk": "clk", "store": int(op == ops[0]), "load": int(op == ops[1]), "addr": "mem_addr", "value": "mem_value_raw"}
            want = [[poly(w[m]) for m in names]]
        return same_tuples([[g[cols.index(p)] for p in names.values()] for g in got], want)
    return decide(f)


# ---- C04: memory
def executed(v, d=""):
    return v.iv("is_store" + d) + v.iv("is_load" + d) + v.iv("is_init" + d)


def memory(ext):
    k = "Memory"
    ops = ("is_store", "is_load", "is_init")
    yield "one operation per row", prove(single(ext, k), one_of(*ops))
    yield "writable is binary", prove(single(ext, k), binary("is_writable"))
    yield "starts at address 0", prove(first(ext, k), lambda v: v.iv("addr") == 0)
    yield "ends at the highest address", prove(last(ext, k), lambda v: v.iv("addr") == U32 - 1)
    yield "the last row is padding", prove(wrap(ext, k), lambda v: executed(v) == 0)
    yield "the first row initializes", prove(wrap(ext, k), lambda v: v.iv("is_init'") == 1)
    b = (("addr", 0, 2**62), ("clk", 0, CLK), ("clk'", 0, CLK))
    yield "padding stays padding", prove(step(ext, k, {"is_store": 0, "is_load": 0, "is_init": 0}), lambda v: executed(v, "'") == 0)
    yield "an initialization moves to a higher address", prove(step(ext, k, {"is_init'": 1}, b), lambda v: z3.And(
        v.iv("addr'") > v.iv("addr"), v.iv("addr'") <= v.iv("addr") + U32))
    yield "any other row stays at the address", prove(step(ext, k, {"is_init'": 0}, b), lambda v: v.iv("addr'") == v.iv("addr"))
    yield "any other row keeps the permission", prove(step(ext, k, {"is_init'": 0}), lambda v: v.iv("is_writable'") == v.iv("is_writable"))
    stamp = lambda v, d="": 4 * v.iv("clk" + d) - v.iv("is_store" + d) - 2 * v.iv("is_load" + d) - 3 * v.iv("is_init" + d)
    yield "accesses of an address are in time order, loads before stores", prove(step(ext, k, {"is_init'": 0}, b), lambda v: stamp(v, "'") >= stamp(v))
    yield "a load returns the value before it", prove(step(ext, k, {"is_load'": 1}), lambda v: v.iv("value'") == v.iv("value"))
    yield "a store needs a writable address", prove(single(ext, k, {"is_store": 1}), lambda v: v.iv("is_writable") == 1)
    for o in ops:
        yield f"value of {o} is a byte", prove(single(ext, k, {p: int(p == o) for p in ops}), lambda v: z3.And(v.iv("value") >= 0, v.iv("value") < 256))

    def accesses():
        l, r = memory_lookup(ext)
        e = next(e for e in l.looked if e["kind"] == k)
        return None if V.scale(l.filt(e), -1) == lin("is_store", "is_load") else f"filter {l.filt(e)}"
    yield "every load and store is some table's access", decide(accesses)

    def inits():
        l = one(lookups(ext, k, {"is_init": 1}), "Memory inits")
        e = next(e for e in l.looked if e["kind"] == k)
        if V.scale(l.filt(e), -1) != poly(var("is_init")):
            return f"filter {l.filt(e)}"
        cols = l.cols(e)
        names = ("is_writable", "addr", "clk", "value")
        for n in names:
            if poly(var(n)) not in cols:
                return f"no column {n} in {cols}"
        pos = [cols.index(poly(var(n))) for n in names]
        if {e["kind"] for e in l.looking} != {"ElfMemoryInit", "MemoryZeroInit"}:
            return f"looking {[e['kind'] for e in l.looking]}"
        for kind, fix, w in (("ElfMemoryInit", {"filter": 1}, ("is_writable", "address", 1, "value")), ("MemoryZeroInit", {"filter": 1}, (1, "addr", 0, 0))):
            bad = same_tuples([[t[i] for i in pos] for t in entries(l, kind, fix)], [[poly(x) for x in w]])
            if bad:
                return bad
        return None
    yield "initial bytes come from the program image or are zero", decide(inits)
    yield "zero initialization is binary", prove(single(ext, "MemoryZeroInit"), binary("filter"))

    def makers():
        l, _ = memory_lookup(ext)
        kinds = {e["kind"] for e in l.looking}
        want = {"Cpu", "HalfWordMemory", "FullWordMemory", "Poseidon2Sponge", "Poseidon2OutputBytes", *STORAGE}
        return None if kinds == want else f"tables that access memory: {sorted(kinds)}"
    yield "no other table accesses memory", decide(makers)


# ---- C05: registers
REGOPS = ("ops.is_init", "ops.is_read", "ops.is_write")


def used(v, d=""):
    return z3.Sum([v.iv(o + d) for o in REGOPS])


def register_roles(ext):
    l = one(lookups(ext, "Register", {"ops.is_init": 1, "ops.is_read": 0, "ops.is_write": 0}), "Register")
    e = next(e for e in l.looked if e["kind"] == "Register")
    pos = {}
    code = {}
    for i, c in enumerate(l.cols(e)):
        vs = V.variables(c)
        if vs and vs <= set(REGOPS):
            pos["op"] = i
            for o in REGOPS:
                code[o] = V.evaluate(c, {p: int(p == o) for p in REGOPS})
        elif c in (poly(var("clk")), poly(var("addr")), poly(var("value"))):
            pos[list(vs)[0]] = i
        else:
            raise Lost(f"Register lookup column {c}")
    if set(pos) != {"op", "clk", "addr", "value"}:
        raise Lost(f"Register lookup columns {sorted(pos)}")
    return l, e, pos, code


def register_tuples(ext, kind, fix, want):
    """want: list of (op name, addr, value), at the row's clk."""
    def f():
        l, _, pos, code = register_roles(ext)
        got = [[t[pos[n]] for n in ("clk", "op", "addr", "value")] for t in entries(l, kind, fix)]
        w = [[poly(clk), const(code["ops." + op]), poly(a), poly(x)] for clk, op, a, x in want]
        return same_tuples(got, w)
    return decide(f)


def registers(ext):
    k = "Register"
    yield "one operation per row", prove(single(ext, k), one_of(*REGOPS))
    yield "starts by initializing register 1", prove(first(ext, k), lambda v: z3.And(v.iv("addr") == 1, v.iv("ops.is_init") == 1))
    yield "ends at register 31", prove(last(ext, k), lambda v: v.iv("addr") == 31)
    b = (("addr", 0, 2**32), ("clk", 0, CLK), ("clk'", 0, CLK))
    yield "the register stays or moves to the next one", prove(step(ext, k, bounds=b), lambda v: z3.Or(v.iv("addr'") == v.iv("addr"), v.iv("addr'") == v.iv("addr") + 1))
    yield "padding stays padding", prove(step(ext, k, {o: 0 for o in REGOPS}), lambda v: used(v, "'") == 0)
    stamp = lambda v, d="": 2 * v.iv("clk" + d) + v.iv("ops.is_write" + d)
    for o in ("ops.is_read", "ops.is_write"):
        fix = {p + "'": int(p == o) for p in REGOPS}
        yield f"{o}: same register as the row before", prove(step(ext, k, fix), lambda v: v.iv("addr'") == v.iv("addr"))
        yield f"{o}: in time order, reads before writes", prove(step(ext, k, fix, b), lambda v: stamp(v, "'") >= stamp(v))
        yield f"{o}: not after padding", prove(step(ext, k, fix), lambda v: used(v) == 1)
    fix = {p + "'": int(p == "ops.is_read") for p in REGOPS}
    yield "a read returns the value before it", prove(step(ext, k, fix), lambda v: v.iv("value'") == v.iv("value"))
    fix = {p + "'": int(p == "ops.is_init") for p in REGOPS}
    yield "an initialization starts a register", prove(step(ext, k, fix, b), lambda v: z3.Or(
        v.iv("addr'") == v.iv("addr") + 1, v.iv("ops.is_init") == 1))

    def shape():
        l, e, pos, code = register_roles(ext)
        if len(set(code.values())) != 3:
            return f"operation codes {code}"
        if V.scale(l.filt(e), -1) != lin(*REGOPS):
            return f"filter {l.filt(e)}"
        others = {e["kind"]: e for e in l.looked if e["kind"] != k}
        if set(others) != {"RegisterZeroRead", "RegisterZeroWrite"}:
            return f"looked {sorted(others)}"
        for kind, op, value in (("RegisterZeroRead", "ops.is_read", 0), ("RegisterZeroWrite", "ops.is_write", "value")):
            e = others[kind]
            cols = l.cols(e)
            got = [cols[pos[n]] for n in ("clk", "op", "addr", "value")]
            bad = same_tuples([got], [[poly(var("clk")), const(code[op]), const(0), poly(value)]])
            if bad:
                return f"{kind}: {bad}"
        want = {"Cpu", "Add", "BltTaken", "Poseidon2Sponge", "RegisterInit", *STORAGE}
        if {e["kind"] for e in l.looking} != want:
            return f"looking {sorted({e['kind'] for e in l.looking})}"
        return None
    yield "operation codes; register 0 reads 0", decide(shape)
    r1, r2, rd = "inst.rs1_selected", "inst.rs2_selected", "inst.rd_selected"
    for op in OPS:
        yield f"Cpu {op}: reads and writes", register_tuples(ext, "Cpu", cpu_fix(op), [
            ("clk", "is_read", r1, A), ("clk", "is_read", r2, RAW), ("clk", "is_write", rd, DST)])
    yield "Add: reads and writes", register_tuples(ext, "Add", {"is_running": 1}, [
        ("clk", "is_read", r1, A), ("clk", "is_read", r2, "op2_value"), ("clk", "is_write", rd, DST)])
    yield "BltTaken: reads", register_tuples(ext, "BltTaken", {"is_running": 1}, [("clk", "is_read", r1, A), ("clk", "is_read", r2, "op2_value")])
    for t in STORAGE:
        yield f"{t}: call reads its address", register_tuples(ext, t, {"ops.is_storage_device": 1, "ops.is_memory_store": 0}, [("clk", "is_read", 11, "addr")])
        yield f"{t}: a byte reads no register", register_tuples(ext, t, {"ops.is_storage_device": 0, "ops.is_memory_store": 1}, [])
    yield "hash call reads its arguments", register_tuples(ext, "Poseidon2Sponge", {"ops.is_init_permute": 1, "ops.is_permute": 0}, [
        ("clk", "is_read", 11, "input_addr"), ("clk", "is_read", 12, "input_len"), ("clk", "is_read", 13, "output_addr")])
    yield "hash continuation reads no register", register_tuples(ext, "Poseidon2Sponge", {"ops.is_init_permute": 0, "ops.is_permute": 1}, [])

    def init():
        l, _, pos, code = register_roles(ext)
        e = [e for e in l.looking if e["kind"] == "RegisterInit"]
        if len(e) != 1 or l.filt(e[0]) != const(1):
            return "RegisterInit is not looked up once per row"
        cols = l.cols(e[0])
        return same_tuples([[cols[pos[n]] for n in ("clk", "op", "addr", "value")]],
                           [[const(0), const(code["ops.is_init"]), poly(var("reg_addr")), poly(var("value"))]])
    yield "initial values: one per row, at clock 0", decide(init)
    yield "initial values are fixed", prove(single(ext, "RegisterInit"), lambda v: v.iv("value") == 0)


# ---- C06: lookup tables
def tables(ext):
    k = "RangeCheckU8"
    yield "bytes: first row is 0", prove(first(ext, k), lambda v: v.iv("value") == 0)
    yield "bytes: counts up by one", prove(step(ext, k, bounds=(("value", 0, 2**32),)), lambda v: v.iv("value'") == v.iv("value") + 1)
    yield "bytes: last row is 255", prove(last(ext, k), lambda v: v.iv("value") == 255)

    def u8(kind_, m):
        def f():
            for l in lookups(ext, k):
                e = next(e for e in l.looked if e["kind"] == k)
                if l.cols(e) != [poly(var("value"))] or len(V.variables(l.filt(e))) != 1:
                    return f"looked tuple {l.cols(e)}, filter {l.filt(e)}"
            return None
        return decide(f)
    yield "bytes: the looked tuple is the value", u8(k, None)

    def limbs():
        got = set()
        for l in lookups(ext, k):
            for e in l.looking:
                if e["kind"] == "RangeCheck" and l.filt(e) == const(1):
                    got |= {v for c in l.cols(e) for v in V.variables(c) if c == poly(var(v))}
        want = {f"limbs[{i}]" for i in range(4)}
        return None if got >= want else f"limbs checked on every row: {sorted(got)}"
    yield "words: every limb of every row is a byte", decide(limbs)

    def words():
        l = one(lookups(ext, "RangeCheck"), "RangeCheck")
        e = next(e for e in l.looked if e["kind"] == "RangeCheck")
        want = lin(*[(f"limbs[{i}]", 256**i) for i in range(4)])
        return None if l.cols(e) == [want] else f"looked tuple {l.cols(e)}"
    yield "words: the looked tuple is the four limbs", decide(words)
    yield "words: in range", prove(single(ext, "RangeCheck"), lambda v: z3.And(
        v.int_of(lin(*[(f"limbs[{i}]", 256**i) for i in range(4)])) >= 0, v.int_of(lin(*[(f"limbs[{i}]", 256**i) for i in range(4)])) < U32))
    for n, th in xor_table(ext):
        yield n, th
    for n, th in bitshift_table(ext):
        yield n, th
    for n, th in bit_lemmas():
        yield n, th
    for n, th in filters_binary(ext):
        yield n, th


def xor_table(ext):
    k = "Xor"
    bits = {x: [f"limbs.{x}[{i}]" for i in range(32)] for x in ("a", "b", "out")}
    for i in range(32):
        def goal(v, i=i):
            a, b, o = [v.iv(bits[x][i]) for x in ("a", "b", "out")]
            return z3.And(*[z3.Or(x == 0, x == 1) for x in (a, b, o)], o == z3.If(a == b, 0, 1))
        yield f"xor: bit {i}", prove(single(ext, k), goal)
    for x in ("a", "b", "out"):
        yield f"xor: {x} is its bits", prove(single(ext, k), lambda v, x=x: z3.And(
            v.iv(f"execution.{x}") == z3.Sum([v.iv(b) * 2**i for i, b in enumerate(bits[x])])))

    def looked():
        l = one(lookups(ext, k), k)
        e = next(e for e in l.looked if e["kind"] == k)
        return same_tuples([l.cols(e)], [[poly(var(f"execution.{x}")) for x in ("a", "b", "out")]])
    yield "xor: looked tuple", decide(looked)

    def looking():
        l = one(lookups(ext, k), k)
        for op in OPS:
            got = entries(l, "Cpu", cpu_fix(op))
            want = [[poly(var(f"xor.{x}")) for x in ("a", "b", "out")]] if op in ("xor", "or", "and", "sll", "srl", "sra", "sb", "sh") else []
            if same_tuples(got, want):
                return f"{op}: {same_tuples(got, want)}"
        return None
    yield "xor: looked up by the instructions that use it", decide(looking)


def bitshift_table(ext):
    k = "Bitshift"
    a, m = "executed.amount", "executed.multiplier"
    power = lambda v, d="": z3.Or(*[z3.And(v.iv(a + d) == i, v.iv(m + d) == 2**i) for i in range(32)])
    yield "bitshift: first row is 2^0", prove(first(ext, k), power)
    yield "bitshift: last amount is 31", prove(last(ext, k), lambda v: v.iv(a) == 31)

    b = ((a, 0, 31), (m, 0, 2**31))
    yield "bitshift: the amount stays or goes up by one", prove(step(ext, k, bounds=b), lambda v: z3.Or(v.iv(a + "'") == v.iv(a), v.iv(a + "'") == v.iv(a) + 1))
    yield "bitshift: with the same amount, the same power", prove(step(ext, k, {a + "'": poly(var(a))}, b), lambda v: v.iv(m + "'") == v.iv(m))
    yield "bitshift: with the next amount, the doubled power", prove(step(ext, k, {a + "'": lin(a, 1)}, b), lambda v: v.iv(m + "'") == 2 * v.iv(m))

    def looked():
        l = one(lookups(ext, k), k)
        e = next(e for e in l.looked if e["kind"] == k)
        if same_tuples([l.cols(e)], [[poly(var(a)), poly(var(m))]]):
            return same_tuples([l.cols(e)], [[poly(var(a)), poly(var(m))]])
        for op in OPS:
            want = [[poly(var("bitshift.amount")), poly(var("bitshift.multiplier"))]] if op in ("sll", "srl", "sra") else []
            if same_tuples(entries(l, "Cpu", cpu_fix(op)), want):
                return f"{op}: {same_tuples(entries(l, 'Cpu', cpu_fix(op)), want)}"
        return None
    yield "bitshift: tuples", decide(looked)


def bit_lemmas():
    """The facts about xor that the row conditions use, as bit-vector theorems."""
    a, b = z3.BitVecs("a b", 32)
    ext_ = lambda x: z3.ZeroExt(32, x)

    def thm(g):
        def f():
            s = z3.Solver()
            s.add(z3.Not(g))
            r = s.check()
            return None if r == z3.unsat else f"{r}"
        return decide(f)
    yield "lemma: a + b = (a xor b) + 2 (a and b)", thm(ext_(a) + ext_(b) == ext_(a ^ b) + 2 * ext_(a & b))
    yield "lemma: a or b = (a xor b) + (a and b)", thm(ext_(a | b) == ext_(a ^ b) + ext_(a & b))
    yield "lemma: a and b is at most a and b", thm(z3.And(z3.ULE(a & b, a), z3.ULE(a & b, b)))
    for m in (0x1F, 0xFF, 0xFFFF):
        yield f"lemma: masking with {m:#x} is reduction", thm((a & m) == z3.URem(a, z3.BitVecVal(m + 1, 32)))


# ---- C07: the program
def program(ext, rom_):
    rom = rom_["ops"]
    flags = ("inst.is_op1_signed", "inst.is_op2_signed", "inst.is_dst_signed")
    ops = tuple(f"inst.ops.{o}" for o in OPS)

    def ops_known():
        got = {n for n in ext.table("Cpu")["cols"] if n.startswith("inst.ops.")}
        return None if got == set(ops) else f"opcodes {sorted(got ^ set(ops))}"
    yield "opcodes", decide(ops_known)
    yield "at most one opcode per row", prove(single(ext, "Cpu", lookups=False), one_of(*ops))
    yield "signedness flags are binary", prove(single(ext, "Cpu", lookups=False), binary(*flags))

    def tuples():
        l = one(lookups(ext, "ProgramMult"), "ProgramMult")
        e = next(e for e in l.looked if e["kind"] == "ProgramMult")
        cols = l.cols(e)
        names = ("rom_row.pc", "rom_row.inst_data", "rom_row.imm_value")
        for n in names:
            if poly(var(n)) not in cols:
                raise Lost(f"no column {n} in {cols}")
        return l, [cols.index(poly(var(n))) for n in names]

    def fetch(kind, fix):
        l, pos = tuples()
        got = entries(l, kind, fix)
        if len(got) != 1:
            raise Lost(f"{len(got)} lookups of {kind} into the program at {fix}")
        return [got[0][p] for p in pos]

    for op in OPS:
        def f(op=op):
            t = fetch("Cpu", {k: x for k, x in cpu_fix(op).items() if "ops" in k})
            return None if t[0] == poly(PC) and t[2] == poly(IMM) else f"{t}"
        yield f"{op} is fetched from its pc", decide(f)

    def chain():
        l = one(lookups(ext, "Program"), "Program")
        e = next(e for e in l.looked if e["kind"] == "Program")
        w = [e2 for e2 in l.looking if e2["kind"] == "ProgramMult"]
        if len(w) != 1 or len(l.looking) != 1 or l.filt(w[0]) != const(1) or l.filt(e) != const(-1):
            return "the multiplicity table is not the program, row by row"
        a, b = l.cols(e), l.cols(w[0])
        return same_tuples([a], [[poly(var(n)) for n in ("pc", "inst_data", "imm_value")]]) or \
            same_tuples([b], [[poly(var("rom_row." + n)) for n in ("pc", "inst_data", "imm_value")]]) or \
            (None if [sorted(V.variables(x)) for x in b] == [["rom_row." + list(V.variables(x))[0]] for x in a] else "columns are crossed")
    yield "the looked-up program is the public program", decide(chain)

    def public():
        return None if {"Program", "ElfMemoryInit"} <= set(ext.table_kinds_public) else f"public tables {ext.table_kinds_public}"
    if getattr(ext, "table_kinds_public", None) is not None:
        yield "program and initial memory are public tables", decide(public)

    for r in rom:
        op = r["op"]
        yield f"{op}: encoding is affine in its registers", decide(lambda r=r: str(r["bad"]) if r["bad"] else None)

    want = dict((n, (c, f)) for n, c, f in WANT)

    def names(text):
        import re
        return {m.group(1): int(m.group(2)) for m in re.finditer(r"(\w+): (\d+)", text)}
    for r in rom:
        op = r["op"]

        def kind(r=r, op=op):
            if op not in want:
                return f"unknown opcode {op}"
            c, fl = want[op]
            n = names(r["columns"])
            got = {o for o in OPS if n.get(o)}
            sig = (n["is_op1_signed"], n["is_op2_signed"], n["is_dst_signed"])
            if got != {c} or sig != fl:
                return f"{op} becomes {got} with signedness {sig}; expected {c} {fl}"
            return None
        yield f"{op}: instruction columns", decide(kind)
        yield f"{op}: only its own fields encode to it", decode_goal(ext, fetch, r, rom, want.get(op))

    def same(kind, regs):
        def f():
            t = fetch(kind, {"is_running": 1})
            r = next(r for r in rom if r["op"] == {"Add": "ADD", "BltTaken": "BLTU"}[kind])
            w = lin(r["base"], *[(f"inst.{n}_selected", r[n]) for n in regs])
            return None if t == [poly(PC), w, poly(IMM)] else f"{kind} fetches {t}, expected {w}"
        return decide(f)
    yield "Add fetches ADD", same("Add", ("rs1", "rs2", "rd"))
    yield "BltTaken fetches BLTU", same("BltTaken", ("rs1", "rs2"))
    yield "the public tables hold the program's instructions and bytes (samples)", decide(lambda: str(rom_["image"]) if rom_["image"] else None)
    yield "no multiplicity is forged", prove(row(ext, "Cpu", rows=("All",), lookups=False, nxt=False), lambda v: z3.Sum([v.iv(o) for o in ops]) <= 1)


WANT = [("ADD", "add", (0, 0, 0)), ("SUB", "sub", (0, 0, 0)), ("XOR", "xor", (0, 0, 0)), ("OR", "or", (0, 0, 0)), ("AND", "and", (0, 0, 0)),
        ("SLL", "sll", (0, 0, 0)), ("SRL", "srl", (0, 0, 0)), ("SRA", "sra", (1, 0, 0)), ("SLT", "slt", (1, 1, 0)), ("SLTU", "slt", (0, 0, 0)),
        ("LB", "lb", (0, 0, 1)), ("LH", "lh", (0, 0, 1)), ("LW", "lw", (0, 0, 0)), ("LBU", "lb", (0, 0, 0)), ("LHU", "lh", (0, 0, 0)),
        ("SB", "sb", (0, 0, 0)), ("SH", "sh", (0, 0, 0)), ("SW", "sw", (0, 0, 0)), ("BEQ", "beq", (0, 0, 0)), ("BNE", "bne", (0, 0, 0)),
        ("BLT", "blt", (1, 1, 0)), ("BGE", "bge", (1, 1, 0)), ("BLTU", "blt", (0, 0, 0)), ("BGEU", "bge", (0, 0, 0)), ("JALR", "jalr", (0, 0, 0)),
        ("ECALL", "ecall", (0, 0, 0)), ("MUL", "mul", (0, 0, 0)), ("MULH", "mulh", (1, 1, 0)), ("MULHU", "mulh", (0, 0, 0)),
        ("MULHSU", "mulh", (1, 0, 0)), ("DIV", "div", (1, 1, 0)), ("DIVU", "div", (0, 0, 0)), ("REM", "rem", (1, 1, 0)), ("REMU", "rem", (0, 0, 0))]


def decode_goal(ext, fetch, r, rom, want):
    """A Cpu row whose lookup equals this instruction's encoding has its opcode,
    its signedness and its registers."""
    def run():
        t0 = time.time()
        s = z3.Solver()
        regs = {}
        enc = z3.IntVal(r["base"])
        for n in ("rs1", "rs2", "rd"):
            x = z3.Int(n)
            regs[n] = x
            s.add(x >= 0, x < 32)
            enc = enc + r[n] * x
        flags = [z3.Int(n) for n in ("s1", "s2", "sd")]
        got = {n: z3.Int("got_" + n) for n in ("rs1", "rs2", "rd")}
        for x in flags:
            s.add(x >= 0, x <= 1)
        for x in got.values():
            s.add(x >= 0, x < 32)
        opv = z3.Int("op")
        s.add(opv >= 0, opv < len(OPS))
        cases = []
        for i, op in enumerate(OPS):
            t = fetch("Cpu", {k: x for k, x in cpu_fix(op).items() if "ops" in k})[1]
            e = z3.IntVal(0)
            for m, c in t.items():
                if not m:
                    e = e + c
                    continue
                if len(m) > 1 or c < 0 or c >= 2**31:
                    return "refuted", None, None, time.time() - t0, f"encoding column {t}"
                name = m[0]
                x = {"inst.is_op1_signed": flags[0], "inst.is_op2_signed": flags[1], "inst.is_dst_signed": flags[2],
                     "inst.rs1_selected": got["rs1"], "inst.rs2_selected": got["rs2"], "inst.rd_selected": got["rd"]}.get(name)
                if x is None:
                    return "refuted", None, None, time.time() - t0, f"encoding reads {name}"
                e = e + c * x
            cases.append(z3.And(opv == i, e == enc))
        s.add(z3.Or(*cases))
        c, fl = want
        s.add(z3.Not(z3.And(opv == OPS.index(c), *[x == y for x, y in zip(flags, fl)], *[got[n] == regs[n] for n in regs])))
        q = s.check()
        st = "proved" if q == z3.unsat else "refuted" if q == z3.sat else "unknown"
        return st, None, None, time.time() - t0, (str(s.model()) if q == z3.sat else None)
    return run


# ---- C08: environment calls and tapes
def ecalls(ext, codes):
    k = "Cpu"
    calls = [n for n in ext.table(k)["cols"] if n.startswith("ecall_selectors.")]
    for s in ("is_halt", "is_poseidon2", *CALLS.values()):
        ext.col(k, "ecall_selectors." + s)
    yield "one environment call per ecall", prove(lambda: cpu(ext, "ecall", lookups=False, nxt=False), lambda v: z3.And(
        *[z3.Or(v.iv(c) == 0, v.iv(c) == 1) for c in calls], z3.Sum([v.iv(c) for c in calls]) == 1))
    for op in OPS:
        if op not in ("ecall", "add"):
            yield f"no environment call in {op}", prove(lambda op=op: cpu(ext, op, lookups=False, nxt=False), lambda v: z3.And(*[v.iv(c) == 0 for c in calls]))
    for c in calls:
        n = c.split(".")[1]
        if n not in codes:
            yield f"{n}: known call", decide(lambda n=n: f"no code for {n}")
            continue
        e = {m: int(m == c) for m in calls}
        yield f"{n}: register a0 holds its code", prove(lambda e=e: cpu(ext, "ecall", extra=e, lookups=False, nxt=False), lambda v, n=n: v.iv(A) == codes[n])

    def tape(t, n):
        def f():
            ls = [l for l in lookups(ext, "Cpu") if any(e["kind"] == t for e in l.looking)]
            l = one(ls, "Cpu from " + t)
            e = next(e for e in l.looked if e["kind"] == "Cpu")
            fix = cpu_fix("ecall", **{c: int(c == "ecall_selectors." + n) for c in calls})
            if V.scale(l.filt(e, fix), -1) != const(1):
                return f"filter at {n} is {l.filt(e, fix)}"
            cpu_cols = l.cols(e, fix)
            got = entries(l, t, {"ops.is_storage_device": 1})
            want = {"clk": "clk", "io_addr": "addr", "io_size": "size"}
            if len(got) != 1:
                return f"{len(got)} entries"
            for c, g in zip(cpu_cols, got[0]):
                w = poly(want[list(V.variables(c))[0]]) if V.variables(c) else c
                if g != w:
                    return f"{t} is tied to {g} where the call has {c}"
            if {v for c in cpu_cols for v in V.variables(c)} != set(want):
                return f"call tuple {cpu_cols}"
            # another tape's call has another number
            for o, m in CALLS.items():
                fix2 = cpu_fix("ecall", **{c: int(c == "ecall_selectors." + m) for c in calls})
                c2 = l.cols(e, fix2)
                if o != t and all(a == b for a, b in zip(cpu_cols, c2)):
                    return f"{t} and {o} are not told apart"
            if entries(l, t, {"ops.is_storage_device": 0}):
                return "rows that start no call"
            return None
        return decide(f)
    for t, n in CALLS.items():
        yield f"{t}: transfers are the calls of the program", tape(t, n)

    def others():
        l = one([l for l in lookups(ext, "Cpu") if any(e["kind"] == STORAGE[0] for e in l.looking)], "Cpu")
        e = next(e for e in l.looked if e["kind"] == "Cpu")
        for c in ("is_halt", "is_poseidon2"):
            fix = cpu_fix("ecall", **{m: int(m == "ecall_selectors." + c) for m in calls})
            if l.filt(e, fix) != const(0):
                return c
        return None
    yield "no tape transfer in other calls", decide(others)

    def hash_call():
        l = one([l for l in lookups(ext, "Cpu") if any(e["kind"] == "Poseidon2Sponge" for e in l.looking)], "Cpu from the sponge")
        e = next(e for e in l.looked if e["kind"] == "Cpu")
        if V.scale(l.filt(e), -1) != poly(var("ecall_selectors.is_poseidon2")) or l.cols(e) != [poly(var("clk"))]:
            return f"{l.filt(e)} {l.cols(e)}"
        got = entries(l, "Poseidon2Sponge", {"ops.is_init_permute": 1, "ops.is_permute": 0})
        return same_tuples(got, [[poly(var("clk"))]])
    yield "hash sponges are the hash calls of the program", decide(hash_call)
    for t in STORAGE:
        for n, th in storage(ext, t):
            yield f"{t}: {n}", th
    def size():
        l, _, pos, code = register_roles(ext)
        for kind, fix, col in ([("Cpu", cpu_fix("ecall", **{c: int(c == "ecall_selectors.is_private_tape") for c in calls}), "io_size"),
                                ("StorageDevicePrivate", {"ops.is_storage_device": 1, "ops.is_memory_store": 0}, "size")]):
            for t in entries(l, kind, fix):
                if t[pos["addr"]] == const(12) and t[pos["op"]] == const(code["ops.is_read"]) and t[pos["value"]] == poly(var(col)):
                    return None
        return "no lookup ties the size of a call to register a2"
    yield "the size of a call is register a2", decide(size)


def storage(ext, t):
    m, d = "ops.is_memory_store", "ops.is_storage_device"
    b = (("addr", 0, U32 - 1), ("addr'", 0, U32 - 1))
    yield "one kind per row", prove(single(ext, t), one_of(m, d))
    yield "the first row is no byte", prove(first(ext, t), lambda v: v.iv(m) == 0)
    nv = {m + "'": 1, d + "'": 0}
    yield "a byte continues a transfer of the same call", prove(step(ext, t, nv), lambda v: z3.And(
        v.iv(m) + v.iv(d) == 1, v.iv("clk'") == v.iv("clk"), v.is_zero(lin("size'", ("size", -1), 1))))
    yield "the first byte is at the call's address", prove(step(ext, t, {**nv, m: 0, d: 1}, b), lambda v: z3.Implies(v.iv("size") != 0, v.iv("addr'") == v.iv("addr")))
    yield "the next byte is at the next address", prove(step(ext, t, {**nv, m: 1, d: 0}, b), lambda v: v.iv("addr'") == (v.iv("addr") + 1) % U32)
    yield "a transfer ends only when nothing is left", prove(step(ext, t, {m + "'": 0}), lambda v: v.iv("size") == 0)
    yield "the last row has nothing left", prove(wrap(ext, t), lambda v: v.iv("size") == 0)
    yield "a byte is stored to memory", access_tuples(ext, t, {m: 1, d: 0}, [dict(clk="clk", is_store=1, is_load=0, addr="addr", value="value")])
    yield "the call itself stores nothing", access_tuples(ext, t, {m: 0, d: 1}, [])


# ---- C09: hashing
def hashing(ext):
    k = "Poseidon2Sponge"
    i, p, g = "ops.is_init_permute", "ops.is_permute", "gen_output"
    pre, out = [f"preimage[{j}]" for j in range(12)], [f"output[{j}]" for j in range(12)]
    yield "sponge: one kind per row", prove(single(ext, k, lookups=False), one_of(i, p))
    yield "sponge: output flag is binary", prove(single(ext, k, lookups=False), binary(g))
    yield "sponge: padding gives no output", prove(single(ext, k, {i: 0, p: 0}, lookups=False), lambda v: v.iv(g) == 0)
    yield "sponge: the first row starts one", prove(first(ext, k, lookups=False), lambda v: v.iv(p) == 0)
    yield "sponge: starts from the zero capacity", prove(single(ext, k, {i: 1, p: 0}, lookups=False), lambda v: z3.And(*[v.iv(x) == 0 for x in pre[8:]]))
    nv = {i + "'": 0, p + "'": 1}
    yield "sponge: carries the capacity", prove(step(ext, k, nv, lookups=False), lambda v: z3.And(*[v.iv(a + "'") == v.iv(b) for a, b in zip(pre[8:], out[8:])]))
    yield "sponge: goes on at the same clock and output address", prove(step(ext, k, nv, lookups=False), lambda v: z3.And(
        v.iv("clk'") == v.iv("clk"), v.iv("output_addr'") == v.iv("output_addr")))
    yield "sponge: goes on after an unfinished block only", prove(step(ext, k, nv, lookups=False), lambda v: z3.And(v.iv(g) == 0, v.iv(i) + v.iv(p) == 1))
    yield "sponge: the next block is the next 8 bytes", prove(step(ext, k, nv, lookups=False), lambda v: z3.And(
        v.is_zero(lin("input_len'", ("input_len", -1), 8)), v.is_zero(lin("input_addr'", ("input_addr", -1), -8))))
    yield "sponge: the digest comes after the last block", prove(single(ext, k, {g: 1}, lookups=False), lambda v: v.iv("input_len") == 8)
    for which in ({i: 1, p: 0}, {i: 0, p: 1}):
        yield f"sponge: goes on until it gives the digest ({'first' if which[i] else 'later'} block)", prove(
            step(ext, k, {**which, g: 0}, lookups=False), lambda v: v.iv(p + "'") == 1)
        yield f"sponge: and not past the last row ({'first' if which[i] else 'later'} block)", prove(
            wrap(ext, k, {**which}, lookups=False), lambda v: v.iv(g) == 1)
        yield f"sponge: reads its block from memory ({'first' if which[i] else 'later'} block)", access_tuples(
            ext, k, which, [dict(clk="clk", is_store=0, is_load=1, addr=lin("input_addr", j), value=pre[j]) for j in range(8)])

    def permuted():
        ls = [l for l in lookups(ext, k) if any(e["kind"] == "Poseidon2" for e in l.looking)]
        l = one(ls, "the sponge from the permutation")
        e = next(e for e in l.looked if e["kind"] == k)
        if V.scale(l.filt(e), -1) != lin(i, p):
            return f"filter {l.filt(e)}"
        w = [e2 for e2 in l.looking]
        if len(w) != 1 or l.filt(w[0]) != poly(var("is_exe")):
            return "looking"
        a, b = l.cols(e), l.cols(w[0])
        if same_tuples([a], [[poly(var(x)) for x in pre + out]]):
            return f"{a}"
        for x, y in zip(a, b):
            (n,) = V.variables(x)
            j = int(n.split("[")[1][:-1])
            want = f"input[{j}]" if n.startswith("pre") else f"state_after_second_full_rounds[{36 + j}]"
            if y != poly(var(want)):
                return f"{n} is {y}, expected {want}"
        return None
    yield "sponge: every block is permuted", decide(permuted)

    def digest():
        t = "Poseidon2OutputBytes"
        l = one([l for l in lookups(ext, k) if any(e["kind"] == t for e in l.looking)], "the sponge from the digest")
        e = next(e for e in l.looked if e["kind"] == k)
        if V.scale(l.filt(e), -1) != poly(var(g)):
            return f"filter {l.filt(e)}"
        names = {f"output[{j}]": f"output_fields[{j}]" for j in range(4)}
        names.update(clk="clk", output_addr="output_addr")
        got = entries(l, t, {"is_executed": 1})
        if len(got) != 1:
            return "entries"
        for x, y in zip(l.cols(e), got[0]):
            if y != poly(var(names[list(V.variables(x))[0]])):
                return f"{x} is {y}"
        return None if {v for c in l.cols(e) for v in V.variables(c)} == set(names) else f"{l.cols(e)}"
    yield "digest: the last output, at its clock and address", decide(digest)
    t = "Poseidon2OutputBytes"
    byt = [(f"output_bytes[{j}]", 0, 255) for j in range(32)]
    for f in range(4):
        yield f"digest: field {f} is its eight bytes", prove(single(ext, t, {"is_executed": 1}, byt), lambda v, f=f: v.is_zero(
            V.sub(var(f"output_fields[{f}]"), lin(*[(f"output_bytes[{8 * f + j}]", 256**j) for j in range(8)]))))
    yield "digest: its bytes are stored to memory", access_tuples(ext, t, {"is_executed": 1}, [
        dict(clk="clk", is_store=1, is_load=0, addr=lin("output_addr", j), value=f"output_bytes[{j}]") for j in range(32)])
    for f in range(4):
        yield f"digest: bytes of field {f} are its canonical ones", prove(single(ext, t, {"is_executed": 1}, byt), lambda v, f=f: v.int_of(
            lin(*[(f"output_bytes[{8 * f + j}]", 256**j) for j in range(4)])) + 2**32 * v.int_of(
            lin(*[(f"output_bytes[{8 * f + 4 + j}]", 256**j) for j in range(4)])) < P)
    for n, th in permutation(ext):
        yield n, th
    for n, th in commitments(ext):
        yield n, th


def permutation(ext):
    """Each constraint of an executed row fixes one further column: the output
    columns are a function of the input columns."""
    k = "Poseidon2"

    def f():
        t = ext.table(k)
        known = {f"input[{j}]" for j in range(12)} | {"is_exe"}
        polys = []
        for r, h in ext.constraints(k):
            if r != "All" or ext.uses_next(h):
                continue
            polys.append(h)
        # not expanded (the degree would explode): a column that occurs in exactly
        # one addend with a constant coefficient
        todo = [(h, linear(ext, h)) for h in polys]
        progress = True
        while progress:
            progress = False
            rest = []
            for h, (const_lin, other) in todo:
                new = [v for v in const_lin if v not in known and v not in other]
                unknown = (set(const_lin) | other) - known
                if len(unknown) == 1 and new:
                    known.add(new[0])
                    progress = True
                elif unknown:
                    rest.append((h, (const_lin, other)))
            todo = rest
        missing = [f"state_after_second_full_rounds[{36 + j}]" for j in range(12) if f"state_after_second_full_rounds[{36 + j}]" not in known]
        return f"not determined: {missing}" if missing else None
    yield "permutation: the output is determined by the input", decide(f)
    yield "permutation: executed flag is binary", prove(lambda: flag_row(ext), binary("is_exe"))


def flag_row(ext):
    """Only the constraints that mention nothing but is_exe."""
    r = VC("Poseidon2")
    for w, h in ext.constraints("Poseidon2"):
        if handle_vars(ext, h) == {"is_exe"}:
            p = ext.expand(h, {})
            if set(p) == {("is_exe",), ("is_exe", "is_exe")}:
                r.bound("is_exe", 0, 1)
            r.vanish(p)
    r.polys = []
    return r


def handle_vars(ext, h):
    memo = ext.memo.setdefault("hv", {})
    stack = [h]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x[0] == "c":
            memo[x] = frozenset()
            continue
        n = ext.nodes[int(x[1:])]
        if n[0] == "v":
            memo[x] = frozenset([ext.rename(n[1])])
            continue
        todo = [k for k in n[1:] if k not in memo]
        if todo:
            stack += todo
            continue
        memo[x] = frozenset().union(*[memo[k] for k in n[1:]])
    return memo[h]


def linear(ext, h):
    """(variables with a nonzero constant coefficient, other variables) of h as a
    sum of addends, is_exe taken as 1 (multiplication by the row flag is dropped)."""
    memo = ext.memo.setdefault("linear", {})

    def scaled(t, k):
        return ({v: c * k % P for v, c in t[0].items()}, t[1])

    def plus(a, b, k=1):
        r = dict(a[0])
        for v, c in b[0].items():
            r[v] = (r.get(v, 0) + k * c) % P
        return r, a[1] | b[1]

    def number(x):
        return int(x[1:]) % P if x[0] == "c" else None
    stack = [h]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x[0] == "c":
            memo[x] = ({}, frozenset())
            continue
        n = ext.nodes[int(x[1:])]
        if n[0] == "v":
            memo[x] = ({ext.rename(n[1]): 1}, frozenset())
            continue
        todo = [k for k in n[1:] if k not in memo]
        if todo:
            stack += todo
            continue
        a = memo[n[1]]
        if n[0] in "+-":
            memo[x] = plus(a, memo[n[2]], 1 if n[0] == "+" else -1)
        elif n[0] == "~":
            memo[x] = scaled(a, -1)
        elif number(n[1]) is not None:
            memo[x] = scaled(memo[n[2]], number(n[1]))
        elif number(n[2]) is not None:
            memo[x] = scaled(a, number(n[2]))
        elif handle_vars(ext, n[1]) == {"is_exe"}:
            memo[x] = memo[n[2]]
        elif handle_vars(ext, n[2]) == {"is_exe"}:
            memo[x] = a
        else:
            memo[x] = ({}, handle_vars(ext, x))
    lin_, other = memo[h]
    return {v for v, c in lin_.items() if c and v not in other}, other


def commitments(ext):
    k = "TapeCommitments"
    c, e = "is_castlist_commitment_tape_row", "is_event_commitment_tape_row"
    yield "commitments: one tape per row", prove(single(ext, k), one_of(c, e))
    for flag, mult, t in ((c, "castlist_commitment_tape_multiplicity", "CastListCommitmentTape"), (e, "event_commitment_tape_multiplicity", "EventsCommitmentTape")):
        yield f"commitments: {t} is looked up in its own rows", prove(single(ext, k, {flag: 0}), lambda v, mult=mult: v.iv(mult) == 0)

        def f(mult=mult, t=t, flag=flag):
            l = one([l for l in lookups(ext, k) if any(x["kind"] == t for x in l.looking)], t)
            x = next(x for x in l.looked if x["kind"] == k)
            if V.scale(l.filt(x), -1) != poly(var(mult)):
                return f"filter {l.filt(x)}"
            names = {"commitment_byte_row.byte": poly(var("value")), "commitment_byte_row.index": lin(31, ("size", -1))}
            got = entries(l, t, {"ops.is_memory_store": 1})
            for a, b in zip(l.cols(x), got[0]):
                if b != names[list(V.variables(a))[0]]:
                    return f"{a} is {b}"
            pub = [p for p in ext.public if p["table"]["kind"] == k and ext.column(k, p["table"]["filter"], {}) == poly(var(flag))]
            if len(pub) != 1 or pub[0]["rows"] != 32:
                return f"public rows {pub}"
            return None
        yield f"commitments: bytes of {t} are the committed ones", decide(f)

        def g(flag=flag):
            for p_ in ext.public:
                if p_["table"]["kind"] == k and ext.column(k, p_["table"]["filter"], {}) == poly(var(flag)):
                    cols = [ext.column(k, c, {}) for c in p_["table"]["columns"]]
                    if poly(var("commitment_byte_row.byte")) in cols and poly(var("commitment_byte_row.index")) in cols:
                        return None
            return "the public rows do not contain the index of a byte"
        yield f"commitments: each byte of {t} is public with its index", decide(g)


# ---- C10: one set of constraints
def recursion(ext):
    import random
    for kind, t in ext.tables.items():
        def f(kind=kind, t=t):
            a, b = t["packed"], t["circuit"]
            if t["connected"]:
                return f"the circuit connects {len(t['connected'])} wires"
            if [r for r, _ in a] != [r for r, _ in b]:
                return f"{len(a)} native and {len(b)} recursive constraints, or of other kinds"
            for n, ((r, x), (_, y)) in enumerate(zip(a, b)):
                if x == y:
                    continue
                if not same_poly(ext, x, y):
                    return f"constraint {n} differs"
            return None
        yield f"{kind}: native and recursive constraints agree", decide(f)

        def g(kind=kind, t=t):
            for n, (r, x) in enumerate(t["packed"]):
                d = degree(ext, x)
                if d > t["degree"]:
                    return f"constraint {n} has degree {d} > {t['degree']}"
            return None
        yield f"{kind}: constraint degree", decide(g)


def degree(ext, h):
    memo = ext.memo.setdefault("deg", {})
    stack = [h]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x[0] == "c":
            memo[x] = 0
            continue
        n = ext.nodes[int(x[1:])]
        if n[0] == "v":
            memo[x] = 0 if ext.rename(n[1]).startswith("public") else 1
            continue
        todo = [k for k in n[1:] if k not in memo]
        if todo:
            stack += todo
            continue
        ds = [memo[k] for k in n[1:]]
        memo[x] = sum(ds) if n[0] == "*" else max(ds)
    return memo[h]


def same_poly(ext, x, y):
    """Equality of the two expressions as polynomials: by expansion when small,
    else by Schwartz-Zippel at 20 points of F_p (error below 2^-1200)."""
    import random
    rnd = random.Random(f"{x}{y}")
    vs = sorted(handle_vars(ext, x) | handle_vars(ext, y))
    for _ in range(20):
        env = {v: rnd.randrange(P) for v in vs}
        if value(ext, x, env) != value(ext, y, env):
            return False
    return True


def value(ext, h, env):
    memo = {}
    stack = [h]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x[0] == "c":
            memo[x] = int(x[1:]) % P
            continue
        n = ext.nodes[int(x[1:])]
        if n[0] == "v":
            memo[x] = env[ext.rename(n[1])]
            continue
        todo = [k for k in n[1:] if k not in memo]
        if todo:
            stack += todo
            continue
        a = memo[n[1]]
        memo[x] = {"+": lambda: a + memo[n[2]], "-": lambda: a - memo[n[2]], "*": lambda: a * memo[n[2]], "~": lambda: -a}[n[0]]() % P
    return memo[h]


# ---- C11: honest executions (bounded)
def honest(ext, call, seeds=(1, 2, 3)):
    """The traces the real generation code builds for real runs satisfy every
    constraint and every lookup."""
    yield "every operation on a grid of operands, and programs for aliasing, loops, tapes, hashes and padding", decide(lambda: honest_grid(call))
    for s in seeds:
        for part in ("constraints", "lookups"):
            yield f"run {s}: {part}", decide(lambda s=s, part=part: honest_run(ext, call("honest", str(s), "nocheck"), part))


def honest_grid(call):
    r = call("grid", timeout=500)
    if r["cases"] < 100000:
        raise V.Lost(f"only {r['cases']} cases ran")
    return json.dumps(r["refused"], indent=1) if r["refused"] else None


def honest_run(ext, tr, part):
    if part == "lookups":
        for li, entries_ in enumerate(ext.lookups):
            tot = {}
            for e in entries_:
                rows = tr["tables"][e["kind"]]
                n = len(rows)

                def lc(c, i):
                    return (sum(k * rows[i][x] for x, k in c[0]) + sum(k * rows[(i + 1) % n][x] for x, k in c[1]) + c[2]) % P
                for i in range(n):
                    f = lc(e["filter"], i)
                    if f:
                        key = tuple(lc(c, i) for c in e["columns"])
                        tot[key] = (tot.get(key, 0) + f) % P
            bad = [(k, v) for k, v in tot.items() if v]
            if bad:
                return f"lookup {li} ({sorted({e['kind'] for e in entries_})}) is unbalanced at {bad[:3]}"
        return None
    for kind, t in ext.tables.items():
        e = honest_table(ext, tr, kind, t)
        if e:
            return e
    return None


def honest_table(ext, tr, kind, t):
    rows, pub = tr["tables"][kind], tr["public"].get(kind, [])
    n = len(rows)
    if n & (n - 1) or n == 0:
        return f"{kind} has {n} rows"
    order = topo(ext, [h for _, h in t["packed"]])
    rows = [[x % P for x in r] for r in rows]
    for i in range(n):
        src = {"l": rows[i], "n": rows[(i + 1) % n], "p": pub}
        memo = {}
        for x, nd in order:
            o = nd[0]
            if o == "v":
                r = nd[1].split(".")[1]
                memo[x] = src[r[0]][int(r[1:])]
                continue
            a = memo[nd[1]] if nd[1][0] != "c" else int(nd[1][1:])
            if o == "~":
                memo[x] = -a
                continue
            b = memo[nd[2]] if nd[2][0] != "c" else int(nd[2][1:])
            memo[x] = (a * b if o == "*" else a + b if o == "+" else a - b) % P
        for j, (k, h) in enumerate(t["packed"]):
            on = k == "All" or (k == "First" and i == 0) or (k == "Last" and i == n - 1) or (k == "Transition" and i < n - 1)
            if on and (memo[h] if h[0] != "c" else int(h[1:])) % P:
                return f"{kind}: constraint {j} ({k}) fails on row {i} of an honest trace"
    return None


def topo(ext, hs):
    seen, out = set(), []
    for h in hs:
        stack = [(h, False)]
        while stack:
            x, ready = stack.pop()
            if x[0] == "c" or x in seen:
                continue
            n = ext.nodes[int(x[1:])]
            if ready or n[0] == "v":
                seen.add(x)
                out.append((x, n))
                continue
            stack.append((x, True))
            stack += [(k, False) for k in n[1:]]
    return out
