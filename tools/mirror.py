#!/usr/bin/env python3
"""Lays out a mirror of the crate in /repo that can be built here, with one extra module.

Every source file is a symlink into /repo's working tree.  Regenerated are Cargo.toml (build
script and the binaries that cannot be linked here taken out, one binary `vharness` added) and
src/lib.rs (the two modules that cannot be compiled here taken out: packaged_acornlib needs
build.rs, server needs it in turn; `pub mod verif` with the harness added).  The harness
modules are the ones asked for, so that a change that breaks the interface one of them uses
does not take the others down.
"""
import hashlib, os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEFT_OUT = ("packaged_acornlib", "server")
SUPPORT = ("terms", "models")   # harness modules without checks of their own
# a child module put at the end of the mirrored copy of a source file, for a harness module that
# has to call private functions of that file
HOOKS = {
    "c16": {
        "prover/proof.rs": "pub mod verif_hook {\n    use super::*;\n    pub fn reorder(s: &mut Vec<ConcreteStep>, k: &KernelContext) { reorder_concrete_steps_by_unit_support(s, k) }\n}\n",
        "certificate.rs": """pub mod verif_hook {
    use super::*;
    /// claims and other steps, tagged; reordered as before certificate serialization
    pub fn reorder(steps: Vec<(CertificateStep, Option<Clause>)>, k: &KernelContext) -> Vec<(CertificateStep, Option<Clause>)> {
        let mut v: Vec<PreparedCertificateStep> = steps.into_iter().map(|(step, boolean_reduction_source)| PreparedCertificateStep { step, boolean_reduction_source }).collect();
        Certificate::reorder_late_claim_supports(&mut v, k);
        v.into_iter().map(|p| (p.step, p.boolean_reduction_source)).collect()
    }
}
""",
    },
}
BINS = ("acorn", "profile_ide_save", "profile_reprove", "profile_scorer", "profile_check",
        "profile_load", "profile_memory")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def link_all(src, dst, skip):
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src)) - set(skip)
    for n in os.listdir(dst):
        p = os.path.join(dst, n)
        if os.path.islink(p) and (n not in names or os.readlink(p) != os.path.join(src, n)):
            os.unlink(p)
    for n in names:
        p = os.path.join(dst, n)
        if os.path.lexists(p) and not os.path.islink(p):
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        if not os.path.lexists(p):
            os.symlink(os.path.join(src, n), p)


def binary(out):
    return "vharness_" + os.path.basename(out)


def digest():
    """content of all sources: a changed text is rebuilt whatever its time stamp says"""
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(HERE, "harness")):
        for d, ds, fs in sorted(os.walk(top)):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    with open(os.path.join(d, f), "rb") as g:
                        h.update(f.encode() + g.read())
    return h.hexdigest()[:24]


def build(out, modules):
    link_all(REPO, out, {".git", "target", "src", "Cargo.toml", "Cargo.lock", "build.rs", "acornlib"})
    hooks = {p: t for x in modules for p, t in HOOKS.get(x, {}).items()}
    link_all(os.path.join(REPO, "src"), os.path.join(out, "src"),
             {"lib.rs", "tests", "bin", "server", "server.rs", "packaged_acornlib.rs"} | {p.split("/")[0] for p in hooks})
    for path, text in hooks.items():
        d, f = os.path.split(path)
        if d:
            at = os.path.join(out, "src", d)
            if os.path.islink(at):
                os.unlink(at)
            link_all(os.path.join(REPO, "src", d), at, {f})
        with open(os.path.join(REPO, "src", path)) as g:
            write(os.path.join(out, "src", path), g.read() + "\n" + text)
    # a package name of its own: cargo tells mirrors apart by name only
    name = "acorn-" + re.sub(r"\W", "-", os.path.basename(out)).replace("_", "-")
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        t = f.read()
    t = t.replace('name = "acorn"', 'name = "%s"' % name, 1)
    if not re.search(r"^\[lib\]", t, flags=re.M):
        t += "\n[lib]\n"
    t = re.sub(r"^\[lib\]\n(?:name = .*\n)?", "[lib]\nname = \"acorn\"\n", t, flags=re.M)
    t = re.sub(r"^default-run = .*\n", "", t, flags=re.M)
    t = t.replace("[package]\n", "[package]\nbuild = false\nautobins = false\n", 1)
    for n in BINS:
        t = re.sub(r'^\[\[bin\]\]\nname = "%s"\n(?:[^\[\n].*\n)*' % n, "", t, flags=re.M)
    t += '\n[[bin]]\nname = "%s"\npath = "src/vharness.rs"\ntest = false\n\n[workspace]\n' % binary(out)
    write(os.path.join(out, "Cargo.toml"), t)
    with open(os.path.join(REPO, "Cargo.lock")) as f:
        write(os.path.join(out, "Cargo.lock"), f.read().replace('name = "acorn"\n', 'name = "%s"\n' % name, 1))
    with open(os.path.join(REPO, "src/lib.rs")) as f:
        t = f.read()
    t = re.sub(r"^(?:pub(?:\([a-z]+\))? )?mod (?:%s);\n" % "|".join(LEFT_OUT), "", t, flags=re.M)
    t = re.sub(r"^#\[cfg\(test\)\]\nmod tests;\n", "", t, flags=re.M)
    write(os.path.join(out, "src/lib.rs"), t + "\npub mod verif;\n// sources: %s\n" % digest())
    write(os.path.join(out, "src/vharness.rs"), "fn main() { acorn::verif::main() }\n")
    h = os.path.join(HERE, "harness")
    m = '#![allow(dead_code, unused_imports)]\n#[path = "%s/base.rs"]\npub mod base;\n' % h
    for x in modules:
        m += '#[path = "%s/%s.rs"]\npub mod %s;\n' % (h, x, x)
    m += "pub fn main() {\n    std::thread::Builder::new().stack_size(4 << 30).spawn(go).unwrap().join().unwrap();\n}\nfn go() {\n    let mut b = base::Bench::from_args();\n"
    for x in modules:
        if x not in SUPPORT:
            m += '    if b.wants("%s") { %s::run(&mut b); }\n' % (x, x)
    m += "    b.finish();\n}\n"
    write(os.path.join(out, "src/verif.rs"), m)


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:])
