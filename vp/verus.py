"""Verus on functions extracted mechanically from /repo's current source.

extract(): the text of one `fn`, byte for byte, minus doc comments/attributes
and `log::..!(..);` statements. The contract (requires/ensures) is inserted
between signature and body, loop invariants after the loop head. Verus checks
the result for all inputs."""
import os
import re
import subprocess

import weave


def match_brace(s, i, o="{", c="}"):
    """Index just past the brace closing the one at s[i]; skips strings,
    chars and comments."""
    depth = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if s.startswith("//", i):
            i = s.find("\n", i)
            continue
        if s.startswith("/*", i):
            i = s.find("*/", i) + 2
            continue
        if ch == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif ch == "'":
            m = re.match(r"'(\\.|[^\\'])'", s[i:])
            if m:
                i += m.end()
                continue
        elif ch == o:
            depth += 1
        elif ch == c:
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise weave.LostAnchor("unbalanced braces")


def extract(rel, name):
    """-> (signature, body) of the one function `name` (`.name`: method) in /repo/rel."""
    s = weave.read(os.path.join(weave.REPO, rel))
    s = re.sub(r"(?m)^#\[cfg\(test\)\][\s\S]*\Z", "", s)
    method, name = name.startswith("."), name.lstrip(".")
    ms = list(re.finditer(r"(?m)^" + ("[ \t]+" if method else "[ \t]*") + r"(?:pub(?:\([a-z ]+\))? )?(?:const )?fn " + re.escape(name) + r"\b", s))
    if len(ms) != 1:
        raise weave.LostAnchor(f"{len(ms)} functions named {name} in {rel}")
    i = ms[0].start()
    b = s.index("{", i)
    e = match_brace(s, b)
    sig, body = s[i:b].strip(), s[b:e]
    return sig, plain(drop_diagnostics(drop_logs(body)))


def plain(body):
    """Assertions without their message, comparisons as `==`; `min` as a method."""
    i = 0
    while True:
        m = re.compile(r"\b(?<!debug_)assert(_eq|_ne)?!\s*\(").search(body, i)
        if not m:
            break
        e = match_brace(body, m.end() - 1, "(", ")")
        parts = split_args(body[m.end():e - 1])
        c = {None: "{0}", "_eq": "{0} == {1}", "_ne": "{0} != {1}"}[m.group(1)].format(*parts)
        body = body[:m.start()] + "assert!(" + c + ")" + body[e:]
        i = m.start() + 7
    return re.sub(r"\b(?:(?:std|core)::)?cmp::min\(([\w.]+(?:\(\))?), ([^(),]*)\)", r"\1.min(\2)", body)


def split_args(s):
    """The arguments of a call, split at its own commas."""
    parts, depth, i, at = [], 0, 0, 0
    while i < len(s):
        if s[i] in "([{":
            depth += 1
        elif s[i] in ")]}":
            depth -= 1
        elif s[i] == '"':
            i = s.index('"', i + 1)
        elif s[i] == "," and depth == 0:
            parts.append(s[at:i].strip())
            at = i + 1
        i += 1
    parts.append(s[at:].strip())
    return parts


def drop_logs(body):
    while True:
        m = re.search(r"\b(?:log::)?(?:trace|debug|info|warn|error)!\s*\(", body)
        if not m:
            return body
        e = match_brace(body, m.end() - 1, "(", ")")
        rest = body[e:].lstrip()
        body = body[:m.start()] + (rest[1:] if rest.startswith(";") else rest)


DIAGNOSTICS = r"\bif (?:cfg!\(debug_assertions\)|option_env!\([^)]*\)\.is_some\(\)) \{"


# vstd accepts some of these without saying what the result is
ITERATORS = r"\.(?:map|fold|try_fold|collect|iter|iter_mut|into_iter|enumerate|zip|rev|skip|take|filter|for_each|extend|chain|any|all|position|last|nth|cloned|copied|chunks\w*|windows)\s*(?:::<[^()]*>)?\(|\]\s*\[[^\]]*\.\."


def drop_diagnostics(body):
    """Drops `if cfg!(debug_assertions) {..}` and `if option_env!(..).is_some()
    {..}` statements: checks and printing that a release build may not have."""
    while True:
        m = re.search(DIAGNOSTICS, body)
        if not m:
            return body
        body = body[:m.start()] + body[match_brace(body, m.end() - 1):]


def struct(rel, name):
    """The text of a struct, minus attributes and comments before it."""
    s = weave.read(os.path.join(weave.REPO, rel))
    m = re.search(r"(?m)^pub struct " + name + r"\b[^;{]*\{", s)
    if not m:
        raise weave.LostAnchor(f"no struct {name} in {rel}")
    return s[m.start():match_brace(s, m.end() - 1)]


def const(rel, name):
    """The text of a constant."""
    s = weave.read(os.path.join(weave.REPO, rel))
    ms = re.findall(r"(?m)^\s*(?:pub(?:\([a-z ]+\))? )?(const " + name + r"\b[^;]*;)", s)
    if len(ms) != 1:
        raise weave.LostAnchor(f"{len(ms)} constants named {name} in {rel}")
    return "pub " + ms[0]


def run(path, timeout=200):
    """-> (verified, errors, output, seconds); raises on tool failure"""
    p = subprocess.run(["verus", path, "--time", "--rlimit", "50"], capture_output=True, text=True, timeout=timeout)
    o = p.stdout + p.stderr
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
    if not m or (p.returncode and not int(m.group(2))):
        raise weave.LostAnchor("verus did not accept the extracted function:\n" + o[-3000:])
    t = re.search(r"total-time:\s+(\d+) ms", o)
    return int(m.group(1)), int(m.group(2)), o, int(t.group(1)) / 1000 if t else 0.0


def weave_unit(template, out):
    """Expands `//@fn FILE NAME (result)` ... contract ... `//@end` with the
    extracted function. Lines `//@loop N: text` add text after the head of the
    N-th loop, `//@replace A ==> B` replaces text in the extracted functions
    (`//@regex`: a pattern), `//@struct FILE NAME`
    and `//@const FILE NAME` are replaced by the text of one, `//@include FILE` includes another template. -> names of the functions under contract"""
    t = weave.read(template)
    while "//@include" in t:
        t = re.sub(r"//@include (\S+)", lambda m: weave.read(os.path.join(os.path.dirname(template), m.group(1))), t)
    replace = re.findall(r"(?m)^//@replace (.*?) ==> (.*)$", t)
    regex = re.findall(r"(?m)^//@regex (.*?) ==> (.*)$", t)
    names = []

    def expand(m):
        rel, name, ret, contract = m.group(1), m.group(2), m.group(3), m.group(4)
        sig, body = extract(rel, name)
        name = name.lstrip(".")
        names.append(f"{rel}: {name}")
        if "(mut self" in sig:  # Verus wants the rebinding written out
            sig = sig.replace("(mut self", "(self")
            body = "{ let mut this = self;" + re.sub(r"\bself\b", "this", body[1:])
        for a, b in replace:
            sig, body = sig.replace(a, b), body.replace(a, b)
        for a, b in regex:
            sig, body = re.sub(a, b, sig), re.sub(a, b, body)
        if ret:
            e = match_brace(sig, sig.index("(", sig.index(name)), "(", ")")
            sig = sig[:e] + re.sub(r"^\s*->\s*([\s\S]+?)(\s*where\b[\s\S]*)?$", lambda r: f" -> ({ret}: {r.group(1).strip()}){r.group(2) or ''}", sig[e:])
        params = re.findall(r"(?:mut )?(\w+)\s*:(?!:)", sig[sig.index("("):])
        contract = re.sub(r"\$(\d)", lambda r: params[int(r.group(1)) - 1], contract)
        loops = dict((int(a), b) for a, b in re.findall(r"//@loop (\d+): (.*)", contract))
        contract = re.sub(r"(?m)^\s*//@loop.*\n", "", contract)
        ghost = re.findall(r"(?m)^\s*//@ghost (.*)$", contract)
        contract = re.sub(r"(?m)^\s*//@ghost.*\n", "", contract)
        body = "{" + "".join("\n" + g for g in ghost) + body[1:]
        chain = re.search(ITERATORS, body)
        if chain:
            raise weave.LostAnchor(f"{name}: `{chain.group(0)}` has no contract")
        body = add_invariants(re.sub(r"(?m)(^|\s)//[^\n]*", r"\1", body), loops)
        return sig + "\n" + contract + body

    t = re.sub(r"//@struct (\S+) (\w+)", lambda m: "#[verifier::reject_recursive_types(F)]\n" + struct(m.group(1), m.group(2)), t)
    t = re.sub(r"//@const (\S+) (\w+)", lambda m: const(m.group(1), m.group(2)), t)
    t = re.sub(r"//@fn (\S+) (\.?\w+)(?: \((\w+)\))?\n([\s\S]*?)//@end", expand, t)
    weave.write(out, t)
    return names


def add_invariants(body, loops):
    i, k = 0, 0
    while True:
        m = re.compile(r"\b(while|for|loop)\b").search(body, i)
        if not m:
            break
        b = body.index("{", m.end())
        if k in loops:
            body = body[:b] + "\n" + loops[k] + "\n" + body[b:]
            b += len(loops[k]) + 2
        k += 1
        i = b + 1
    if set(loops) != set(range(k)):
        raise weave.LostAnchor(f"{k} loops, of which {sorted(loops)} are under contract")
    return body
