"""Builds the compiler driver, runs it on /repo's working tree and loads the resolved program."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("VP_REPO", "/repo")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    """path of the driver binary, rebuilt when its source changed"""
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(out):
        with lock("driver"):
            if not os.path.exists(out):
                tmp = out + ".tmp"
                rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", "--cap-lints", "allow", src, "-o", tmp])
                if rc != 0:
                    raise SystemExit("cannot build the compiler driver:\n" + o)
                os.rename(tmp, out)
    return out


def dump(features=(), crate="http_ntlm", repo=None, tag=None):
    """runs the compiler front end on the working tree; returns the parsed dump"""
    repo = repo or REPO
    tag = tag or ("f-" + "-".join(features) if features else "default")
    drv = driver()
    lockfile = os.path.join(repo, "Cargo.lock")
    if not os.path.exists(lockfile) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lockfile)
    with lock("cargo-" + tag):
        tgt = os.path.join(BUILD, "target-" + tag)
        out = os.path.join(BUILD, "dump-%s-%d.json" % (tag, os.getpid()))
        env = dict(os.environ)
        env.update({"LD_LIBRARY_PATH": sysroot() + "/lib", "RUSTC_WORKSPACE_WRAPPER": drv, "CARGO_TARGET_DIR": tgt,
                    "VP_CRATE": crate, "VP_OUT": out, "RUSTFLAGS": "-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Zalways-encode-mir",
                    "CARGO_INCREMENTAL": "0", "CARGO_TERM_COLOR": "never"})
        for d in ("debug/.fingerprint", "debug/build"):
            p = os.path.join(tgt, d)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith("http-ntlm"):
                        shutil.rmtree(os.path.join(p, n), ignore_errors=True)
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
        if features:
            cmd += ["--features", ",".join(features)]
        rc, o = sh(cmd, cwd=repo, env=env)
        if rc != 0 or not os.path.exists(out):
            raise SystemExit("the compiler front end failed on %s:\n%s" % (repo, o[-4000:]))
        d = json.load(open(out))
        os.unlink(out)
    return Program(d)


def windows_copy(repo=None):
    """a copy of the working tree in which the module for Windows is compiled for this host: its interface declarations
    (the windows crate) type-check everywhere, and nothing is linked or run"""
    repo = repo or REPO
    out = os.path.join(BUILD, "win-%d" % os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(out, "src"))
    lockfile = os.path.join(repo, "Cargo.lock")
    shutil.copy(lockfile if os.path.exists(lockfile) else "/opt/vp/Cargo.lock", os.path.join(out, "Cargo.lock"))
    s = open(os.path.join(repo, "Cargo.toml")).read()
    s = re.sub(r"\[target\.'?cfg\([^\]]*windows[^\]]*\)'?\.dependencies\]\s*\n\s*windows\s*=\s*\{", "[dependencies.windows]\n{", s)
    m = re.search(r"\[dependencies\.windows\]\n\{([^}]*)\}", s)
    if m is None:
        raise SystemExit("the dependency on the Windows interface is not where it was in Cargo.toml")
    body = re.sub(r",\s*(\w+\s*=)", r"\n\1", m.group(1).strip())
    s = s[:m.start()] + "[dependencies.windows]\n" + body + "\n" + s[m.end():]
    open(os.path.join(out, "Cargo.toml"), "w").write(s + "\n[workspace]\n")
    n = 0
    for d, _, fs in os.walk(os.path.join(out, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(d, f)
            t = open(p).read()
            u, k = re.subn(r'#\[cfg\((?:target_family\s*=\s*"windows"|windows|target_os\s*=\s*"windows")\)\]', "", t)
            if k:
                n += k
                open(p, "w").write(u)
    if n == 0:
        raise SystemExit("no part of the crate is for Windows only")
    return out


class Program:
    def __init__(self, d):
        self.d = d
        self.T = d["types"]
        for t in self.T:
            for v in t.get("variants") or []:
                # discriminants arrive as unsigned bit patterns
                if isinstance(v.get("d"), int) and (v["d"] >= 1 << 63 or t.get("path") == "core::cmp::Ordering" and v["d"] >= 128):
                    v["d"] -= 1 << (8 if t.get("path") == "core::cmp::Ordering" else 64 if v["d"] < 1 << 64 else 128)
        self.I = d["insts"]
        self.roots = d["roots"]
        self.consts = {c["path"]: c for c in d["consts"]}
        self.by_s = {}
        for n, t in enumerate(self.T):
            self.by_s.setdefault(t["s"], n)

    def root(self, path=None, name=None, implref=None, selfty=None, trait=None):
        out = []
        for r in self.roots:
            if path is not None and r["path"] != path:
                continue
            if name is not None and r["name"] != name:
                continue
            if implref is not None and r["implref"] != implref:
                continue
            if trait is not None and r["trait"] != trait:
                continue
            if selfty is not None and (r["self"] is None or self.T[r["self"]]["s"] != selfty):
                continue
            out.append(r)
        return out

    def one(self, **kw):
        r = self.root(**kw)
        if len(r) != 1:
            raise KeyError("expected one function for %r, found %d" % (kw, len(r)))
        return r[0]
