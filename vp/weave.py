"""Mechanical weaving: copies /repo's current sources next to stub dependencies
and appends the harness modules. What weaving drops is stated in DESIGN.md."""
import os
import re
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
R6F = "/root/.cargo/registry/src/index.crates.io-6f17d22bba15001f"


class LostAnchor(Exception):
    pass


def read(p):
    with open(p) as f:
        return f.read()


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)


def copy_src(rel, dst):
    src = os.path.join(REPO, rel)
    if not os.path.isdir(src):
        raise LostAnchor(f"{src} is not a directory")
    shutil.copytree(src, dst)
    drop_tests(dst)


LINTS = '[lints.rust]\nunexpected_cfgs = { level = "allow" }\n'


def strip_lints(s):
    """Lint levels are not semantics: `#![deny(..)]` is dropped."""
    return re.sub(r"(?m)^\s*#!\[(deny|warn|forbid)\([^\]]*\)\]\s*$", "", s)


def strip_allocator(s):
    """Drops the global allocator (mimalloc)."""
    s = re.sub(r"(?m)^(\s*#\[cfg[^\n]*\]\s*\n)?\s*use mimalloc::MiMalloc;\s*$", "", s)
    s = re.sub(r"(?ms)^(\s*#\[cfg[^\n]*\]\s*\n)?\s*#\[global_allocator\]\s*static [^;]*;\s*$", "", s)
    return s


TESTCFG = re.compile(r"#\[cfg\((test|any\(feature = \"test\", test\)|any\(test, feature = \"test\"\))\)\]")


def drop_tests(root):
    """Unit-test modules (`#[cfg(test)]`) are dropped: `#[cfg(any())]`."""
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                s = read(p)
                t = TESTCFG.sub("#[cfg(any())]", s)
                if t != s:
                    write(p, t)


def stubs(build, *names):
    for n in names:
        shutil.copytree(os.path.join(VERIF, "stubs", n), os.path.join(build, "stubs", n))


def only_modules(vp, modules):
    """Keeps the contract modules (of those in `modules`: names after vp::) that
    are to be run; the others may no longer fit the source."""
    if modules is None:
        return
    for d, prefix in ((vp, ""), (os.path.join(vp, "common"), "common::")):
        m = os.path.join(d, "mod.rs")
        if os.path.exists(m):
            def one(x):
                kept = x.group(3) in ("spec", "common") or prefix + x.group(3) in modules
                return x.group(0) if kept else ""
            write(m, re.sub(r"(?m)^(#\[cfg\(kani\)\]\n)?(pub )?mod (\w+);\n", one, read(m)))


def add_harness(build, crate_src, unit, modules=None):
    """Copies units/<unit>/vp into the crate and declares it at the root."""
    shutil.copytree(os.path.join(VERIF, "units", unit, "vp"), os.path.join(crate_src, "vp"))
    only_modules(os.path.join(crate_src, "vp"), modules)
    lib = os.path.join(crate_src, "lib.rs")
    write(lib, read(lib) + "\n#[cfg(kani)]\nmod vp;\n")


def sdk_core(build):
    """mozak-sdk with no features: `core` only, no dependencies."""
    d = os.path.join(build, "sdk")
    copy_src("sdk/src", os.path.join(d, "src"))
    lib = os.path.join(d, "src", "lib.rs")
    write(lib, strip_lints(read(lib)))
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "mozak-sdk"
version = "0.2.0"
edition = "2021"
[features]
default = []
std = []
stdread = []
trace = []
{LINTS}""")


def add_exec(src, unit, crate):
    """A program that runs the crate on generated inputs (units/exec)."""
    e = os.path.join(src, "vpexec")
    os.mkdir(e)
    shutil.copy(os.path.join(VERIF, "units", "exec", unit + ".rs"), os.path.join(e, "mod.rs"))
    shutil.copy(os.path.join(VERIF, "units", "exec", "rng.rs"), e)
    lib = os.path.join(src, "lib.rs")
    write(lib, read(lib) + "\npub mod vpexec;\n")
    write(os.path.join(src, "main.rs"), f"fn main() {{ {crate}::vpexec::main() }}\n")


def runner(build, harness=True, exec_=False, modules=None):
    if not os.path.exists(os.path.join(build, "stubs", "im")):
        stubs(build, "im", "plonky2", "elf", "anyhow", "env_logger")
        sdk_core(build)
    d = os.path.join(build, "runner" + ("_exec" if exec_ else ""))
    copy_src("runner/src", os.path.join(d, "src"))
    lib = os.path.join(d, "src", "lib.rs")
    s = strip_allocator(strip_lints(read(lib)))
    write(lib, s)
    if exec_:
        add_exec(os.path.join(d, "src"), "runner", "mozak_runner")
    elif harness:
        add_harness(build, os.path.join(d, "src"), "runner", modules)
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "mozak-runner"
version = "0.1.0"
edition = "2021"
[dependencies]
anyhow = {{ path = "../stubs/anyhow" }}
bitfield = {{ path = "{R6F}/bitfield-0.16.1" }}
env_logger = {{ path = "../stubs/env_logger" }}
elf = {{ path = "../stubs/elf" }}
im = {{ path = "../stubs/im", features = ["serde"] }}
itertools = "0.13"
log = {{ version = "0.4", features = ["max_level_off", "release_max_level_off"] }}
mozak-sdk = {{ path = "../sdk", default-features = false }}
plonky2 = {{ path = "../stubs/plonky2" }}
serde = {{ version = "1.0", features = ["derive", "rc"] }}
[features]
default = ["std"]
std = []
test = []
[workspace]
{LINTS}""")
    return d


CIRCUITS_DROPPED = ["batch_prover", "batch_verifier", "poly", "prover", "recursive_verifier", "verifier"]


def circuits(build, harness=True):
    """circuits, expr and circuits/derive, on top of the runner. Dropped from
    circuits/src/stark: the provers, verifiers and `poly`; `proof` is a stand-in
    (two fields are named by the cross-table-lookup code)."""
    runner(build, harness=False)
    stubs(build, "proc-macro-error", "proc-macro-error-attr", "tt-call", "serde-big-array",
          "thiserror", "plonky2_maybe_rayon", "starky")
    d = os.path.join(build, "expr")
    copy_src("expr/src", os.path.join(d, "src"))
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "expr"
version = "0.1.0"
edition = "2021"
[dependencies]
bumpalo = "3.16"
starky = {{ path = "../stubs/starky", features = ["std"] }}
{LINTS}""")
    d = os.path.join(build, "circuits")
    copy_src("circuits/derive/src", os.path.join(d, "derive", "src"))
    write(os.path.join(d, "derive", "Cargo.toml"), """[package]
name = "mozak-circuits-derive"
version = "0.1.0"
edition = "2021"
[lib]
proc-macro = true
[dependencies]
itertools = "0.13"
proc-macro-error = { path = "../../stubs/proc-macro-error" }
proc-macro2 = "1.0"
quote = "1.0"
syn = { version = "2.0", features = ["full", "extra-traits"] }
""")
    copy_src("circuits/src", os.path.join(d, "src"))
    src = os.path.join(d, "src")
    lib = os.path.join(src, "lib.rs")
    write(lib, strip_lints(read(lib)))
    m = os.path.join(src, "stark", "mod.rs")
    s = read(m)
    for n in CIRCUITS_DROPPED:
        s = re.sub(rf"(?m)^\s*pub mod {n};\s*$", "", s)
        p = os.path.join(src, "stark", n + ".rs")
        if os.path.exists(p):
            os.remove(p)
    write(m, s)
    shutil.copy(os.path.join(VERIF, "units", "circuits", "proof.rs"), os.path.join(src, "stark", "proof.rs"))
    if harness:
        shutil.copytree(os.path.join(VERIF, "units", "circuits", "vp"), os.path.join(src, "vp"))
        write(lib, read(lib) + "\npub mod vp;\n")
        shutil.copy(os.path.join(VERIF, "units", "circuits", "main.rs"), os.path.join(src, "main.rs"))
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "mozak-circuits"
version = "0.1.0"
edition = "2021"
[dependencies]
anyhow = {{ path = "../stubs/anyhow" }}
arrayvec = {{ path = "{R6F}/arrayvec-0.7.6", default-features = false }}
bitfield = {{ path = "{R6F}/bitfield-0.16.1" }}
expr = {{ path = "../expr" }}
itertools = "0.13"
log = "0.4"
mozak-circuits-derive = {{ path = "./derive" }}
mozak-runner = {{ path = "../runner" }}
mozak-sdk = {{ path = "../sdk" }}
plonky2 = {{ path = "../stubs/plonky2", features = ["circuits"] }}
plonky2_maybe_rayon = {{ path = "../stubs/plonky2_maybe_rayon" }}
serde = {{ version = "1.0", features = ["derive"] }}
serde-big-array = {{ path = "../stubs/serde-big-array" }}
serde_derive = "1.0"
serde_json = "1.0"
starky = {{ path = "../stubs/starky", features = ["std"] }}
thiserror = {{ path = "../stubs/thiserror" }}
tt-call = {{ path = "../stubs/tt-call" }}
[features]
default = []
test = []
[profile.dev]
debug = 0
opt-level = 1
[workspace]
{LINTS}""")
    # one workspace: the runner must not declare its own
    rc = os.path.join(build, "runner", "Cargo.toml")
    write(rc, read(rc).replace("[workspace]\n", ""))
    return d


ASM = re.compile(r"(?:core::arch::)?\basm!\s*\(\s*\"ecall\",((?:\s*in \(\"a\d\"\) [^;]*?)?)\)\s*;", re.S)


def sdk_asm(s):
    """`asm!("ecall", in ("aN") e, ..)` -> `crate::vp::ecall(&[(N, (e) as usize), ..])`."""
    def one(m):
        ops = re.findall(r"in \(\"a(\d)\"\)\s*((?:[^,()]|\([^()]*\))+)", m.group(1))
        return "crate::vp::ecall(&[" + ", ".join(f"({n}, ({e.strip()}) as usize)" for n, e in ops) + "]);"
    return ASM.sub(one, s)


def sdk(build, vm, harness=True, exec_=False, modules=None):
    """mozak-sdk with `std` and `stdread`, for the host or as for the VM. For
    the VM, `target_os = "mozakvm"` becomes a feature that is on, the ecall
    instruction a call to the harness; the linker-level entry point (global_asm,
    __start, the panic handler) and the registration of the allocator are dropped."""
    unit = "sdk_vm" if vm else "sdk_native"
    if not os.path.exists(os.path.join(build, "stubs", "rkyv")):
        stubs(build, "rkyv", "rkyv_derive", "serde-hex")
        shutil.copytree(os.path.join(VERIF, "stubs", "plonky2-sdk"), os.path.join(build, "stubs", "plonky2"))
    d = os.path.join(build, unit + ("_exec" if exec_ else ""))
    copy_src("sdk/src", os.path.join(d, "src"))
    for root, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            p = os.path.join(root, f)
            s = re.sub(r"(?m)^#!\[cfg_attr\([^\n]*restricted_std[^\n]*$", "", strip_lints(read(p)))
            s = s.replace('target_os = "mozakvm"', 'feature = "mozakvm"')
            s = re.sub(r"(pub trait \w+ = )\?Sized \+ ", r"\1", s)  # not accepted any more, meant nothing
            if vm:
                s = sdk_asm(s)
                s = re.sub(r"#\[global_allocator\]\s*static [^;]*;", "", s)
                s = re.sub(r"(?:core::arch::)?global_asm!\s*\(.*?\n\);", "const _: () = ();", s, flags=re.S)
                s = re.sub(r"#\[no_mangle\]\s*", "", s)
                s = re.sub(r"(?m)^mod alloc;", "pub(crate) mod alloc;", s)
                if "asm!" in s:
                    raise LostAnchor(f"an asm! of {f} is not an ecall")
            write(p, s)
    lib = os.path.join(d, "src", "lib.rs")
    if harness:
        shutil.copytree(os.path.join(VERIF, "units", unit, "vp"), os.path.join(d, "src", "vp"))
        shutil.copytree(os.path.join(VERIF, "units", "sdk"), os.path.join(d, "src", "vp", "common"))
        only_modules(os.path.join(d, "src", "vp"), [] if exec_ else modules)
        write(lib, read(lib) + "\n" + ("" if vm else "#[cfg(kani)]\n") + "mod vp;\n")
        if exec_:
            add_exec(os.path.join(d, "src"), unit, "mozak_sdk")
    patch = {"array-concat": "array-concat-0.5.3", "array-util": "array-util-1.0.2", "vec-entries": "vec-entries-1.0.0", "arrayvec": "arrayvec-0.7.6"}
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "mozak-sdk"
version = "0.2.0"
edition = "2021"
[dependencies]
array-concat = "0.5.3"
array-util = "1.0.2"
once_cell = {{ version = "1.19", default-features = false, features = ["race"] }}
rkyv = {{ path = "../stubs/rkyv", default-features = false, features = ["pointer_width_32", "alloc", "bytecheck"] }}
rkyv_derive = {{ path = "../stubs/rkyv_derive" }}
vec-entries = "1.0"
hex = "0.4"
plonky2 = {{ path = "../stubs/plonky2", default-features = false }}
rand = "0.8"
rand_chacha = "0.3"
serde = {{ version = "1.0", features = ["derive", "rc"] }}
serde-hex = {{ path = "../stubs/serde-hex" }}
serde_json = "1.0"
[features]
default = ["std", "stdread"{', "mozakvm"' if vm else ''}]
std = ["plonky2/std"]
stdread = []
trace = []
mozakvm = []
[profile.dev]
debug = 0
[patch.crates-io]
""" + "".join(f'{k} = {{ path = "{R6F}/{v}" }}\n' for k, v in patch.items()) + f"""[workspace]
{LINTS}""")
    return d


def sdk_native(build, harness=True, **kw):
    return sdk(build, False, harness, **kw)


def sdk_vm(build, harness=True, **kw):
    return sdk(build, True, harness, **kw)


UNITS = {"sdk_native": sdk_native, "sdk_vm": sdk_vm, "runner": runner, "circuits": circuits}
