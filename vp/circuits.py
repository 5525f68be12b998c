"""Checks of the proof system's tables: the constraint code of every table is
run over symbolic field elements (extraction), and the contracts of
cpu_contracts.py and table_contracts.py are discharged by z3."""
import json
import multiprocessing
import os
import re
import subprocess
import time

import z3

import vc as V
import weave

VERIF = weave.VERIF
STATE = {}


def build(dir_, env, run):
    """-> (binary, extraction). Undecided when the woven crate does not compile."""
    crate = weave.circuits(dir_)
    env = dict(env, RUSTC_BOOTSTRAP="1")
    p = subprocess.run(["cargo", "+stable", "build", "--offline", "--target-dir", os.path.join(dir_, "target")], cwd=crate, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    binary = os.path.join(dir_, "target", "debug", "mozak-circuits")
    if p.returncode or not os.path.exists(binary):
        raise V.Lost("the woven crate does not compile\n" + p.stdout[-4000:])
    return binary


def call(binary, *args, stdin=None, timeout=300):
    p = subprocess.run([binary, *args], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode:
        raise V.Lost(f"{' '.join(args) or 'extraction'} stops: {p.stderr[-2000:]}")
    return json.loads(p.stdout)


def gather(make):
    """All obligations, and what the contracts could not be attached to."""
    obs, lost = [], []
    g = make()
    while True:
        try:
            n, th = next(g)
        except StopIteration:
            break
        except (V.Lost, KeyError, ValueError) as e:
            lost.append(f"{type(e).__name__}: {e}")
            break
        obs.append((n, th))
    return obs, lost


def one(i):
    n, th = STATE["obs"][i]
    try:
        s, row, model, dt, cut = th()
        witness = None
        vac = None
        if row is not None and s == "refuted" and model is not None:
            witness = row.confirm(model) if hasattr(row, "confirm") else None
        if row is not None and s == "proved" and not getattr(row, "may_be_empty", False):
            vac = row.consistent(8)
        return i, s, dt, cut, (row.kind if hasattr(row, "kind") else None), witness, model, vac
    except V.Lost as e:
        return i, "lost", 0.0, str(e), None, None, None, None
    except Exception as e:  # a contract that cannot be evaluated is not discharged
        return i, "lost", 0.0, f"{type(e).__name__}: {e}", None, None, None, None


def replay(binary, ext, kind, witness):
    """The real constraint code on the witness row."""
    t = ext.tables[kind]
    names = t["rev"]
    n = t["columns"]
    lv = [witness.get(names[i], 0) for i in range(n)]
    nv = [witness.get(names[i] + "'", 0) for i in range(n)]
    pi = [witness.get(f"public{i}", 0) for i in range(t["public_inputs"])]
    r = call(binary, "eval", stdin=json.dumps({"kind": kind, "lv": lv, "nv": nv, "pi": pi}))
    show = {names[i]: [lv[i], nv[i]] for i in range(n) if lv[i] or nv[i]}
    return r, {"kind": kind, "row (this, next), zero columns omitted": show, "public": pi}


def check(a, prop, dir_, t0, deadline, log, env):
    """-> exit code"""
    findings = [f for f in known() if f["property"] == a.prop]
    results, violations, lost = [], [], []
    binary = ext = None
    obs = []
    try:
        binary = build(dir_, env, None)
        d = call(binary)
        ext = V.Ext(d)
        ext.table_kinds_public = d["public_tables"]
        ext.codes = d["codes"]
        obs, lost = gather(lambda: prop["obligations"](ext, lambda *x, **k: call(binary, *x, **k)))
    except V.Lost as e:
        lost = [str(e)]
    if a.only:
        obs = [(n, t) for n, t in obs if re.search(a.only, n)]
    STATE["obs"] = obs
    secs = 0.0
    t1 = time.time()
    if obs:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(8, maxtasksperchild=40) as pool:
            it = pool.imap_unordered(one, range(len(obs)), chunksize=1)
            got = 0
            try:
                while got < len(obs):
                    results.append(it.next(timeout=max(1, deadline - time.time())))
                    got += 1
            except multiprocessing.TimeoutError:
                pool.terminate()
    log(f"{a.prop}: {len(obs)} obligations, {time.time() - t1:.0f} s")
    done = {r[0] for r in results}
    for i in range(len(obs)):
        if i not in done:
            results.append((i, "unknown", 0.0, "out of time", None, None, None, None))
    names = [n for n, _ in obs]
    hit = set()
    ok = 0
    for i, s, dt, cut, kind, witness, model, vac in sorted(results):
        secs += dt
        if s == "proved" and vac != "unsat":
            ok += 1
            continue
        f = next((f for f in findings if f.get("obligation") == names[i] and s == "refuted"), None)
        if f:
            hit.add(f["obligation"])
            log(f"KNOWN-FINDING: property={a.prop} {f['what']}")
            continue
        why = "vacuous: the constraints have no solution" if s == "proved" else s
        text = f"property {a.prop}\nobligation: {names[i]}\nverdict: {why}{'' if not cut else ' (' + str(cut) + ')'}\n"
        found = False
        if witness is not None and kind in ext.tables:
            try:
                r, shown = replay(binary, ext, kind, witness)
                found = True
                on = [c for c in r["not zero"] if c[1] == "All"]
                found = not on
                text += "\na row the constraints accept although it breaks the contract:\n" + json.dumps(shown, indent=1)
                text += f"\nthe real constraint code on it: {json.dumps(r)}\n"
                text += "(constraints of kind All must be zero; Transition, First and Last where the contract says so)\n"
            except (V.Lost, subprocess.SubprocessError) as e:
                text += f"\n{e}\n"
        elif cut and s == "refuted" and kind is None:
            found = True  # decided by computation on the extracted lookups: the text is the evidence
        elif model:
            text += f"\nsolver model (not confirmed): {model}\n"
        violations.append(line(a.prop, names[i], text, found, log))
    for e in lost:
        violations.append(line(a.prop, "contracts", f"property {a.prop}\nthe contracts cannot be attached to the current source:\n{e}\n", False, log))
    for f in findings:
        if f.get("obligation") and f["obligation"] not in hit and f["obligation"] in names and not a.only:
            log(f"note: known finding no longer occurs: {f['obligation']}")
    nfind = len(hit)
    write_evidence(a, prop, names, results, ok, secs, t0, len(violations), nfind)
    for v in violations:
        log(v)
    return 1 if violations else 0


def line(prop, name, text, found, log):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{re.sub(r'[^A-Za-z0-9]+', '-', name)[:60]}.txt")
    weave.write(path, text)
    log(text[:1500])
    return f"VIOLATION property={prop} replay={path}{'' if found else ' no-failing-input-found'}"


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def write_evidence(a, prop, names, results, ok, secs, t0, nviol, nfind):
    slow = sorted(results, key=lambda r: -r[2])[:8]
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": prop.get("level", "proof"),
        "coverage": {
            "obligations": len(names) - nfind, "discharged": ok, "checker_cmd": f"python3 vp/check.py {a.prop} --tier {a.tier}",
            "trusted_base": TRUSTED + prop.get("trusted", []), "functions_under_contract": prop["functions"],
            "back_end": f"z3 {z3.get_version_string()} (python bindings)", "solver_s": round(secs, 2),
            "known_findings": nfind, "contracts": names,
            "slowest": [[names[r[0]], round(r[2], 2)] for r in slow],
            "explanation": prop.get("explanation", ""), "bounded": prop.get("bounded", []),
        },
        "assumptions": ASSUME + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    weave.write(os.path.join(VERIF, "evidence", f"{a.prop}.json"), json.dumps(ev, indent=1))


TRUSTED = [
    "extraction: the crate's own constraint, lookup and column code, compiled and run over symbolic field elements (stubs/plonky2, stubs/starky stand in "
    "for the field and frame interfaces; dropped: the provers, verifiers and the FRI layer)",
    "vp/vc.py: expansion over F_p and translation to integers (bounds, McCormick facts); z3",
    "plonky2/starky: a proof convinces only if constraints hold on every row and every lookup's multisets are equal",
]
ASSUME = ["a trace has at most 2^30 rows, a lookup multiplicity sum does not wrap modulo p"]
