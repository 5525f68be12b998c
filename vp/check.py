#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Weaves the contracts into a copy of /repo's current source, has the verifier
discharge every obligation, and reports. Exit 0: all discharged. Exit 1 and a
VIOLATION line: an obligation fails, or the verifier does not accept it.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402
import verus  # noqa: E402
import weave  # noqa: E402

VERIF = weave.VERIF
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow", CARGO_TERM_COLOR="never")
for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
ENV["PATH"] = os.path.join(HERE, "bin") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")


class Undecided(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        o += "\n[timed out]"
        return 124, o
    return p.returncode, o


LIMIT = re.compile(r"unwinding assertion|not currently supported|recursion unwinding|unsupported|"
                   r"map queried at another key|im stub:|stub limit", re.I)


def classify(res):
    """-> (ok, real failures, limits, covers unsatisfied)"""
    real, limit, nocover = [], [], []
    for c in res["checks"]:
        st = c["status"]
        if c.get("category") == "cover" or st in ("Satisfied", "Unsatisfiable"):
            if st != "Satisfied":
                nocover.append(c)
            continue
        if st == "Failure":
            if LIMIT.search(c["description"]) or c.get("category") in ("unwind", "unsupported_construct"):
                limit.append(c)
            else:
                real.append(c)
        elif st not in ("Success", "Unreachable"):
            limit.append(c)
    return real, limit, nocover


# Failures that safe Rust cannot have. Kani 0.68's encoding of a crate depends on
# its symbol hashes (hence on the build directory), and for some it goes wrong in
# ways that show as one of these; the same source is then verified again elsewhere.
ENCODING = re.compile(r"pointer|dealloc|caller_location|Unexpected return|layout|misaligned|dereference|memcpy|memmove|undefined behavior", re.I)


def misencoded(r):
    return any(c["status"] not in ("Success", "Unreachable", "Satisfied", "Unsatisfiable") and
               (ENCODING.search(c["description"]) or c.get("category") == "unsupported_construct") for c in r["checks"])


def where(c):
    l = c["location"]
    return f"{l.get('file', '?')}:{l.get('line', '?')}"


class Kani:
    def __init__(self, crate, deadline, jobs, extra=()):
        self.crate, self.deadline, self.jobs, self.extra = crate, deadline, jobs, list(extra)
        self.cmds = []

    def left(self):
        return max(5, self.deadline - time.time())

    def verify(self, names, timeout):
        out = os.path.join(self.crate, "out.json")
        if os.path.exists(out):
            os.remove(out)
        timeout = int(min(timeout, self.left()))
        cmd = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing", "-Z", "function-contracts",
               "--export-json", out, "-j", str(self.jobs), "--output-format", "terse",
               "--no-assertion-reach-checks", "--exact", "--harness-timeout", f"{timeout}s"]
        for n in names:
            cmd += ["--harness", n]
        cmd += self.extra
        self.cmds.append(" ".join(c for c in cmd if not c.startswith("vp::") and c != "--harness"))
        rc, o = run(cmd, self.crate, self.left())
        if not os.path.exists(out):
            raise Undecided("the verifier did not run (does the woven crate compile?)\n" + tail_errors(o))
        with open(out) as f:
            d = json.load(f)
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
        solver = {c["harness_id"]: (c.get("configuration") or {}).get("solver") for c in d.get("cbmc", [])}
        res = {}
        for r in d["verification_results"]["results"]:
            r["stats"], r["solver"] = stats.get(r["harness_id"], {}), solver.get(r["harness_id"])
            res[r["harness_id"]] = r
        return res

    def playback(self, name):
        """Concrete values for a failing harness, run natively against the same
        source. -> (reproduced, text)"""
        cmd = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing", "-Z", "function-contracts",
               "-Z", "concrete-playback", "--concrete-playback=print", "--output-format", "terse",
               "--no-assertion-reach-checks", "--exact", "--harness", name, *self.extra]
        rc, o = run(cmd, self.crate, min(600, self.left()))
        tests = re.findall(r"```\n(.*?)```", o, re.S)
        tests = [t for t in tests if "Check for `cover`" not in t and "cover condition" not in t]
        if not tests:
            return False, "no concrete values produced\n" + o[-3000:]
        parts = name.split("::")
        mod = os.path.join(self.crate, "src", *parts[:-1])
        path = mod + ".rs" if os.path.exists(mod + ".rs") else os.path.join(mod, "mod.rs")
        src = weave.read(path)
        uniq, seen = [], set()
        for t in tests:
            n = re.search(r"fn (kani_concrete_playback_\w+)", t)
            if n and n.group(1) not in seen:
                seen.add(n.group(1))
                uniq.append(t)
        uniq = uniq[:4]
        weave.write(path, src + "\n" + "\n".join(uniq))
        pos = []
        # one process each: the contracts keep their ghost state in statics
        for t in uniq:
            fn = re.search(r"fn (kani_concrete_playback_\w+)", t).group(1)
            rc, po = run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", fn], self.crate, min(300, self.left()))
            pos.append(po)
        weave.write(path, src)
        repro = any(self.reproduced(po) for po in pos)
        return repro, "".join(uniq) + "\n// native runs of these tests:\n" + "\n".join(map(tail_native, pos))

    @staticmethod
    def reproduced(po):
        failed = re.findall(r"(?m)^test .*(kani_concrete_playback\w*).* FAILED", po)
        # an aborted run (panic = abort) counts when a panic message was printed
        return bool(failed) or ("panicked at" in po and "test result: ok" not in po)


def tail_errors(o):
    es = re.findall(r"(?m)^error.*(?:\n(?!warning|error).*){0,8}", o)
    return ("\n".join(es) or o)[-6000:]


def tail_native(o):
    i = o.find("running ")
    return o[i:][-6000:] if i >= 0 else tail_errors(o)


def trusted_scan(crate):
    """Counts every assumption mechanism in the harness code actually woven in."""
    n = {"kani::assume": 0, "kani::stub": 0}
    for d, _, fs in os.walk(os.path.join(crate, "src", "vp")):
        for f in fs:
            s = weave.read(os.path.join(d, f))
            n["kani::assume"] += s.count("kani::assume(")
            n["kani::stub"] += len(re.findall(r"kani::stub(?:_verified)?\(", s))
    return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    prop = props.PROPS[a.prop]
    t0 = time.time()
    budget = 840 if a.tier == "quick" else 3000
    build = os.environ.get("VP_BUILD", f"/tmp/vp-{a.prop}")  # the same symbol hashes each time
    try:
        os.mkdir(build)
    except FileExistsError:
        build = tempfile.mkdtemp(prefix=f"vp-{a.prop}-", dir="/tmp")
    try:
        rc = prop["run"](a, prop, build, t0, t0 + budget) if "run" in prop else kani_property(a, prop, build, t0, t0 + budget)
    except (Undecided, weave.LostAnchor) as e:
        # the contracts cannot be attached to the current source, or the verifier
        # gives no verdict: the obligations are not discharged
        rc = undischarged(a.prop, str(e))
    finally:
        if not a.keep:
            shutil.rmtree(build, ignore_errors=True)
    log(f"{a.prop}: exit {rc} after {time.time() - t0:.0f} s")
    return rc


def harness_names(unit, module):
    """All #[kani::proof] harnesses of a module (from the committed files)."""
    return props.harnesses(unit, module)


def attached(g):
    """A group whose contracts need a private function runs where there is one
    (else the execution of the whole decides)."""
    for rel, pattern in g.get("optional", ()):
        p = os.path.join(weave.REPO, rel)
        if not os.path.exists(p) or not re.search(pattern, weave.read(p)):
            log(f"  not attached: {g['harnesses']} ({rel}: {pattern})")
            return False
    return True


def kani_property(a, prop, build, t0, deadline):
    jobs = 8
    results, crates, elsewhere = {}, {}, {}
    modules = {}
    groups = [g for g in prop["groups"] if attached(g)]
    for g in groups:
        hs = [*g["harnesses"], *g.get("fallback", {}).values()]
        modules.setdefault(g["unit"], set()).update("::".join(h.split("::")[1:-1]) for h in hs)
    for g in groups:
        unit = g["unit"]
        if unit not in crates:
            crates[unit] = weave.UNITS[unit](build, modules=modules[unit])
        k = Kani(crates[unit], deadline, jobs, g.get("extra", ()))
        names = [n for n in g["harnesses"] if not a.only or re.search(a.only, n)]
        if a.tier == "quick":
            names = [n for n in names if n not in g.get("thorough_only", ())]
        if not names:
            continue
        log(f"{a.prop}: {unit}: {len(names)} contracts")
        res = k.verify(names, g.get("timeout", 400))
        missing = [n for n in names if n not in res]
        if missing:
            raise Undecided(f"contracts not run: {missing}")
        for attempt in ("again", "again2"):
            odd = [n for n in names if misencoded(res[n])]
            if not odd or k.left() < 60:
                break
            log(f"{a.prop}: {unit}: {len(odd)} contracts again, in another directory: {odd}")
            again = os.path.join(build, attempt)
            if (unit, attempt) not in elsewhere:
                os.makedirs(again, exist_ok=True)
                elsewhere[unit, attempt] = weave.UNITS[unit](again, modules=modules[unit])
            k2 = Kani(elsewhere[unit, attempt], deadline, jobs, g.get("extra", ()))
            try:
                r2 = k2.verify(odd, g.get("timeout", 400))
            except Undecided as e:
                log(f"  {e}")
                break
            for n in odd:
                if n in r2 and r2[n]["checks"]:
                    res[n] = r2[n]
                    results[unit, n] = (g, k2, r2[n])
        for n in names:
            results.setdefault((unit, n), (g, k, res[n]))
    erows, ebad = exec_units(a, prop, build, deadline)
    vrows, vbad = verus_units(a, prop, build)
    findings = known(a.prop)
    bad, undecided, rows = [], [], []
    nob = nok = 0
    for r in vrows:
        rows.append(r)
        nob += r["obligations"]
        nok += r["discharged"]
    rows += erows
    for (unit, n), (g, k, r) in results.items():
        kind = g.get("kind", {}).get(n, "proof")
        bounded = n in g.get("bounded", ())
        real, limit, nocover = classify(r)
        checks = [c for c in r["checks"] if c["status"] not in ("Satisfied", "Unsatisfiable")]
        if not bounded:
            nob += len(checks)
            nok += sum(c["status"] in ("Success", "Unreachable") for c in checks)
        row = {"contract": n if len(crates) == 1 else f"{unit}:{n}", "kind": "bounded" if bounded else kind, "obligations": len(checks), "back_end": r.get("solver"),
               "solver_s": r["stats"].get("runtime_solver_s"), "time_s": r["duration_ms"] / 1000,
               "vccs_after_simplification": r["stats"].get("vccs_remaining")}
        if kind == "noreturn":
            # contract "never returns normally": every return is an unsatisfiable cover
            rets = [c for c in r["checks"] if c["status"] in ("Satisfied", "Unsatisfiable")]
            if not r["checks"] or limit:
                undecided.append((n, "tool limit: " + "; ".join(f"{c['description']} at {where(c)}" for c in limit[:4])))
            elif any(c["status"] == "Satisfied" for c in rets):
                bad.append((n, g, k, [c for c in rets if c["status"] == "Satisfied"]))
            else:
                # its expected panics are not failures
                nok += 0 if bounded else len(real)
                row["verdict"] = "discharged"
            rows.append(row)
            continue
        if real:
            bad.append((n, g, k, real))
            row["verdict"] = "failed"
        elif limit or not r["checks"] or r["status"] != "Success":
            why = "; ".join(f"{c['description']} [{c['status']}] at {where(c)}" for c in limit[:4]) or "solver time-out or crash"
            undecided.append((n, why))
            row["verdict"] = "undecided"
        elif nocover:
            undecided.append((n, "vacuous: " + "; ".join(c["description"] for c in nocover)))
            row["verdict"] = "vacuous"
        else:
            row["verdict"] = "discharged"
        rows.append(row)
    for r in rows:
        log(f"  {r.get('verdict', '?'):10s} {r['contract']}  {r['obligations']} obligations, {r['time_s']:.1f} s, {r['back_end']}")
    violations = []
    for n, g, k, real in bad:
        fb = g.get("fallback", {}).get(n)
        if fb:
            log(f"  {n} failed modularly; trying {fb} without the callee's contract")
            try:
                fr = k.verify([fb], min(300, k.left()))[fb]
            except Undecided as e:
                undecided.append((n, f"fallback: {e}"))
                continue
            freal, flimit, _ = classify(fr)
            if not freal:
                if flimit or fr["status"] != "Success":
                    undecided.append((n, "the modular obligation fails and the whole-function one is undecided"))
                continue
            n, real = fb, freal
        violations.append(report(a.prop, n, k, real, g))
    for name, text in ebad:
        violations.append(exec_report(a.prop, name, text))
    for name, text in vbad:
        # the proof fails: with the bounded stand-in's counterexample if it has one
        if not violations:
            violations.append(verus_report(a.prop, name, text))
    if a.only:
        return 1 if violations else 2 if undecided else 0
    evidence(a, prop, rows, nob, nok, crates, results, violations, undecided, t0)
    for f in findings:
        log(f"KNOWN-FINDING: property={a.prop} {f}")
    if violations:
        for v in sorted(violations, key=lambda v: v["line"].endswith("-found")):
            log(v["line"])
        return 1
    if undecided:
        return undischarged(a.prop, "\n".join(f"{n}: {why}" for n, why in undecided))
    return 0


def undischarged(prop, why):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-undischarged.txt")
    weave.write(path, f"property {prop}\nobligations the verifier does not accept on the current source:\n{why}\n")
    log(why[-3000:])
    log(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    return 1


def exec_units(a, prop, build, deadline):
    """Bounded stand-ins: the woven crate run on generated inputs. -> (rows, [(unit, failing input)])"""
    rows, bad, bins = [], [], {}
    for unit, test in prop.get("execs", ()):
        name = f"exec:{unit}:{test}"
        if a.only and not re.search(a.only, name):
            continue
        t = time.time()
        if unit not in bins:
            d = weave.UNITS[unit](build, exec_=True)
            rc, o = run(["cargo", "build", "--offline"], d, max(5, deadline - time.time()), dict(ENV, RUSTC_BOOTSTRAP="1"))
            if rc:
                raise Undecided("the woven crate does not compile\n" + tail_errors(o))
            bins[unit] = os.path.join(d, "target", "debug", "mozak-runner" if unit == "runner" else "mozak-sdk")
        seed = str(int(os.environ.get("VERIF_SEED", "1")) + (0 if a.tier == "quick" else 1000))
        rc, o = run([bins[unit], test, seed], build, max(5, min(300, deadline - time.time())))
        ok, fail = re.search(r"(?m)^OK (\d+)$", o), re.search(r"(?m)^FAIL (.*)$", o)
        if not ok and not fail and rc == 124:
            raise Undecided(f"{name}: timed out")
        row = {"contract": name, "kind": "bounded", "obligations": 0, "cases": int(ok.group(1)) if ok else None, "back_end": "execution",
               "solver_s": 0, "time_s": time.time() - t, "verdict": "discharged" if ok and not fail else "failed"}
        if not ok or fail:
            bad.append((name, fail.group(1) if fail else f"crashed (exit {rc})\n" + o[-3000:]))
        rows.append(row)
    return rows, bad


def exec_report(prop, name, text):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name.replace(':', '-')}.txt")
    weave.write(path, f"property {prop}\ncontract {name}\nfailing input, run on the real code:\n{text}\n")
    log(text[:3000])
    return {"contract": name, "obligations": [], "reproduced": True, "line": f"VIOLATION property={prop} replay={path}"}


def verus_units(a, prop, build):
    """Unbounded contracts on extracted functions. -> (rows, [(unit, output)])"""
    rows, bad = [], []
    for u in prop.get("verus", ()):
        if a.only and not re.search(a.only, u):
            continue
        out = os.path.join(build, u + ".rs")
        row = {"contract": f"verus:{u}", "kind": "proof", "obligations": 0, "discharged": 0, "back_end": "Verus/z3",
               "solver_s": 0, "time_s": 0.0}
        try:
            row["functions"] = verus.weave_unit(os.path.join(VERIF, "units", "verus", u + ".rs"), out)
            ok, err, text, secs = verus.run(out)
            row.update(obligations=ok + err, discharged=ok, solver_s=secs, time_s=secs,
                       verdict="discharged" if not err else "failed")
            if err:
                bad.append((u, text))
        except (weave.LostAnchor, subprocess.TimeoutExpired) as e:
            row.update(verdict="not extracted", why=str(e)[-1500:])
            log(f"  verus:{u}: {str(e)[-600:]}\n  (the bounded stand-in decides)")
        rows.append(row)
    return rows, bad


def verus_report(prop, name, text):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-verus-{name}.txt")
    weave.write(path, f"property {prop}\ncontract verus:{name}\nVerus rejects an obligation of the extracted function:\n{text}\n")
    log(text[:3000])
    return {"contract": f"verus:{name}", "obligations": [], "reproduced": False,
            "line": f"VIOLATION property={prop} replay={path} no-failing-input-found"}


def report(prop, name, k, real, g):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name.replace('::', '.')}.txt")
    head = f"property {prop}\ncontract {name}\nfailed obligations:\n" + "".join(
        f"  {c['description']}  ({c['function']}, {where(c)})\n" for c in real)
    log(head)
    repro, text = False, "(no replay attempted)"
    if not g.get("noreplay"):
        try:
            repro, text = k.playback(name)
        except (Undecided, OSError) as e:
            text = str(e)
    weave.write(path, head + "\nconcrete counterexample, as a Kani playback test of the contract:\n" + text + "\n")
    suffix = "" if repro else " no-failing-input-found"
    return {"contract": name, "obligations": [c["description"] for c in real], "reproduced": repro,
            "line": f"VIOLATION property={prop} replay={path}{suffix}"}


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f["what"] for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "open"]


def evidence(a, prop, rows, nob, nok, crates, results, violations, undecided, t0):
    scan = {u: trusted_scan(c) for u, c in crates.items()}
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        # without its unbounded part, what is left is bounded
        "level": "other" if any(r.get("verdict") == "not extracted" for r in rows) else prop.get("level", "proof"),
        "coverage": {
            "obligations": nob,
            "discharged": nok,
            "checker_cmd": f"vp/check.py {a.prop} --tier {a.tier}  # " + "; ".join(sorted({c for _, k, _ in results.values() for c in k.cmds}))[:600],
            "trusted_base": prop["trusted"],
            "functions_under_contract": prop["functions"],
            "contracts": rows,
            "contracts_discharged": sum(r.get("verdict") == "discharged" for r in rows),
            "solver_s": round(sum(r["solver_s"] or 0 for r in rows), 2),
            "bounded": prop.get("bounded", []),
            "assumption_mechanisms_in_harness": scan,
            "explanation": prop.get("explanation", ""),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if undecided:
        ev["coverage"]["undecided"] = [f"{n}: {w}" for n, w in undecided]
    weave.write(os.path.join(VERIF, "evidence", f"{a.prop}.json"), json.dumps(ev, indent=1))


if __name__ == "__main__":
    sys.exit(main())
