"""Command line: builds the exporter, exports the MIR of /repo's working tree, decides one property."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVIDENCE = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))
CRATE = "rusty_network"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def driver():
    """the MIR exporter, compiled when missing or outdated"""
    src = os.path.join(HERE, "driver", "main.rs")
    tag = hashlib.sha256(open(src, "rb").read() + sh(["rustc", "+nightly", "-vV"]).stdout.encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "rnmir-" + tag)
    if not os.path.exists(exe):
        r = sh(["rustc", "+nightly", "-O", src, "-o", exe + ".new"], cwd=BUILD)
        if r.returncode:
            print(r.stdout)
            raise SystemExit("the exporter does not compile")
        os.replace(exe + ".new", exe)
    return exe


def export():
    """MIR of the crate as JSON; returns the path of the library's file"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        target, out = os.path.join(BUILD, "target"), os.path.join(BUILD, "mir")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        # cargo would skip the wrapper for a crate it considers fresh
        for root, dirs, _ in os.walk(target):
            for n in list(dirs):
                if n == CRATE or n.startswith(CRATE + "-"):
                    shutil.rmtree(os.path.join(root, n), ignore_errors=True)
                    dirs.remove(n)
        env = dict(os.environ, RUSTFLAGS="-Zallow-features=rustc_attrs", RUSTUP_TOOLCHAIN="nightly",
                   LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RNMIR_CRATE=CRATE, RNMIR_OUT=out,
                   RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        r = sh(["cargo", "check", "--offline", "--lib", "--bins"], cwd=REPO, env=env)
        lib = os.path.join(out, CRATE + ".lib.json")
        if r.returncode or not os.path.exists(lib):
            print(r.stdout[-4000:])
            raise SystemExit("the crate could not be exported")
        keep = os.path.join(BUILD, "mir-%d.json" % os.getpid())
        shutil.copy(lib, keep)
        return keep


def known():
    """known findings: exact keys 'property=<id> key=<anchor: clause>'"""
    r = set()
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                r.add(l[7:].strip())
    return r


def main(argv):
    from . import mir
    from .kit import Kit, SEED, TIER
    from . import specs
    if len(argv) == 1 and argv[0] == "--setup":
        f = export()
        os.remove(f)
        print("exporter ready")
        return 0
    if len(argv) != 1 or argv[0] not in specs.TABLE:
        print("usage: run.py --setup | " + " | ".join(sorted(specs.TABLE)))
        return 2
    prop = argv[0]
    t0 = time.time()
    path = export()
    try:
        prog = mir.Prog(path)
    finally:
        os.remove(path)
    spec = specs.TABLE[prop]
    K = Kit(prop, prog, 700.0 if TIER == "quick" else 3000.0)
    spec.run(K)
    return report(K, prop, spec, t0)


def report(K, prop, spec, t0):
    from .kit import SEED, TIER
    from . import prove
    n = {"proved": 0, "violated": 0, "undecided": 0}
    for o in K.obs:
        n[o.verdict] += 1
    kn = known()
    new = []
    for o in K.obs:
        if o.verdict == "violated":
            k = "property=%s %s" % (prop, o.key())
            if k in kn:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, o.key(), o.detail))
            else:
                new.append(o)
    lines = []
    for o in K.obs:
        lines.append("%-9s %s%s" % (o.verdict, o.key(), (" -- " + o.detail) if o.verdict != "proved" else ""))
    os.makedirs(EVIDENCE, exist_ok=True)
    rep = os.path.join(EVIDENCE, prop + ".report.txt")
    with open(rep, "w") as f:
        f.write("\n".join(lines) + "\n")
    fns = sorted(K.functions)
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
        "coverage": {
            "explanation": spec.how,
            "obligations": len(K.obs), "discharged": n["proved"],
            "violated": n["violated"], "undecided": n["undecided"],
            "anchors": sorted({o.anchor for o in K.obs}),
            "functions_analysed": len(fns), "functions": fns,
            "integer_goals": prove.STATS["goals"],
            "anchor_seconds": K.stats,
            "samples": [o.key() for o in K.obs[:12]],
            "undecided_obligations": [o.key() + " -- " + o.detail[:300] for o in K.obs if o.verdict == "undecided"],
            "counts": K.counts if hasattr(K, "counts") else {},
        },
        "assumptions": spec.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proved, %d violated, %d undecided; %d functions analysed in %.1f s" %
          (prop, len(K.obs), n["proved"], n["violated"], n["undecided"], len(fns), time.time() - t0))
    for o in K.obs:
        if o.verdict == "undecided":
            print("undecided: %s -- %s" % (o.key(), o.detail[:300]))
    for o in new:
        print("violated: %s -- %s" % (o.key(), o.detail))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0
