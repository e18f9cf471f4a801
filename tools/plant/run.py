"""run.py REPO HERE: the crate in REPO, laid out with symlinks in a scratch directory, plus HERE/demo.rs."""
import os, re, shutil, subprocess, sys, tempfile

repo, here = sys.argv[1:3]
out = tempfile.mkdtemp(prefix="vdemo")
try:
    src = os.path.join(out, "src")
    os.makedirs(src)
    for n in os.listdir(os.path.join(repo, "src")):
        if n not in ("lib.rs", "tests", "bin", "server", "server.rs", "packaged_acornlib.rs"):
            os.symlink(os.path.join(repo, "src", n), os.path.join(src, n))
    for n in os.listdir(repo):
        if n not in (".git", "target", "src", "Cargo.toml", "Cargo.lock", "build.rs", "acornlib"):
            os.symlink(os.path.join(repo, n), os.path.join(out, n))
    name = "vdemo-" + re.sub(r"\W", "-", os.path.basename(out)).lower()
    t = open(os.path.join(repo, "Cargo.toml")).read()
    t = re.sub(r"^default-run = .*\n", "", t, flags=re.M).replace('name = "acorn"', 'name = "%s"' % name, 1)
    t = t.replace("[package]\n", "[package]\nbuild = false\nautobins = false\n", 1)
    t = re.sub(r"^\[\[bin\]\]\n(?:[^\[\n].*\n)*", "", t, flags=re.M)
    if not re.search(r"^\[lib\]", t, flags=re.M):
        t += "\n[lib]\n"
    t = re.sub(r"^\[lib\]\n(?:name = .*\n)?", '[lib]\nname = "acorn"\n', t, flags=re.M)
    t += '\n[[bin]]\nname = "%s"\npath = "src/vdemo_main.rs"\ntest = false\n\n[workspace]\n' % name
    open(os.path.join(out, "Cargo.toml"), "w").write(t)
    lock = open(os.path.join(repo, "Cargo.lock")).read()
    open(os.path.join(out, "Cargo.lock"), "w").write(lock.replace('name = "acorn"\n', 'name = "%s"\n' % name, 1))
    lib = open(os.path.join(repo, "src/lib.rs")).read()
    lib = re.sub(r"^(?:pub(?:\([a-z]+\))? )?mod (?:packaged_acornlib|server);\n", "", lib, flags=re.M)
    lib = re.sub(r"^#\[cfg\(test\)\]\nmod tests;\n", "", lib, flags=re.M)
    open(os.path.join(src, "lib.rs"), "w").write(lib + "\npub mod vdemo;\n")
    shutil.copy(os.path.join(here, "demo.rs"), os.path.join(src, "vdemo.rs"))
    open(os.path.join(src, "vdemo_main.rs"), "w").write(
        "fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(acorn::vdemo::demo).unwrap().join().unwrap(); println!(\"ok\"); }\n")
    env = dict(os.environ)
    r = subprocess.run(["cargo", "build", "--locked", "--offline", "--bin", name], cwd=out, env=env, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        sys.exit(3)
    exe = os.path.join(env["CARGO_TARGET_DIR"], "debug", name)
    try:
        sys.exit(1 if subprocess.run([exe], cwd=out, timeout=120).returncode else 0)
    finally:
        for d in ("debug", "debug/deps", "debug/incremental", "debug/.fingerprint"):
            d = os.path.join(env["CARGO_TARGET_DIR"], d)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith((name, name.replace("-", "_"))):
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
finally:
    shutil.rmtree(out)
