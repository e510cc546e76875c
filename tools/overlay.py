"""A buildable copy of /repo's working tree for the crates mux_circuits, parasol_runtime and parasol_cpu.

In /repo itself these crates do not build: mux_circuits/src/data/multiplier-n32-m32, which mul.rs includes, is not
in the repository (it is fetched from elsewhere upstream).  The copy supplies an empty file in its place (so the
32-bit encrypted multiplier is out of reach here) and leaves out dependencies that no source file mentions.  Every
source file is the one in /repo's working tree, so a change there is a change here."""
import filecmp, os, re, shutil

KEEP = ["mux_circuits", "parasol_concurrency", "parasol_cpu", "parasol_cpu_macros", "parasol_runtime",
        "sunscreen_math", "sunscreen_math_macros", "sunscreen_tfhe"]
UNUSED = {"parasol_runtime": ["reqwest", "sysinfo"], "mux_circuits": ["clap"]}
MISSING = "mux_circuits/src/data/multiplier-n32-m32"


def put(dst, data):
    if os.path.exists(dst) and open(dst, "rb").read() == data:
        return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)


def mentions(repo, crate, dep):
    for r, _, fs in os.walk(os.path.join(repo, crate, "src")):
        if "/src/bin" in r:
            continue
        for f in fs:
            if f.endswith(".rs") and dep in open(os.path.join(r, f), errors="replace").read():
                return True
    return False


def prepare(repo, out, _root=None):
    want = set()
    for crate in KEEP:
        for r, ds, fs in os.walk(os.path.join(repo, crate)):
            ds[:] = [d for d in ds if d not in ("target", ".git", "tests", "benches", "examples")
                     or (d == "tests" and "/src" in r) or "test_data" in d]
            rel = os.path.relpath(r, repo)
            if rel.startswith("mux_circuits/src/bin"):
                continue
            for f in fs:
                p = os.path.join(rel, f)
                want.add(p)
                src, dst = os.path.join(repo, p), os.path.join(out, p)
                if f == "Cargo.toml":
                    s = open(src).read()
                    s = "".join(x for x in re.split(r"(?m)^(?=\[)", s)
                                if not re.match(r"\[\[(bench|example|test|bin)\]\]|\[(target\..*\.)?dev-dependencies\]", x))
                    for d in UNUSED.get(crate, []):
                        if not mentions(repo, crate, d):
                            s = re.sub(r"\n%s *=[^\n]*" % d, "", s)
                    put(dst, s.encode())
                elif not (os.path.exists(dst) and filecmp.cmp(src, dst, shallow=False)):
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(src, dst)
    # runner.rs and lib.rs refer to test data by relative path in tests and documentation only
    if not os.path.exists(os.path.join(repo, MISSING)):
        want.add(MISSING)
        put(os.path.join(out, MISSING), b"")
    s = open(os.path.join(repo, "Cargo.toml")).read()
    s = re.sub(r"members = \[.*?\]", "members = [%s]" % ", ".join('"%s"' % k for k in KEEP), s, flags=re.S)
    want.add("Cargo.toml")
    put(os.path.join(out, "Cargo.toml"), s.encode())
    for r, ds, fs in os.walk(out):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), out)
            if p not in want:
                os.remove(os.path.join(r, f))
