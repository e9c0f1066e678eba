#!/usr/bin/env python3
"""Compiles crates of /repo's current working tree (and stub/driver crates of /verif) with rustc directly.

The third-party libraries are the ones the repository's own build left in /opt/vp/ws-target
(read only here; their file names are pinned in crates.json).  Everything that comes from /repo is
recompiled from /repo's sources into a scratch folder on every run.
"""
import concurrent.futures, json, os, subprocess, sys, time, threading, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("AXV_REPO", "/repo")
DEPS = "/opt/vp/ws-target/debug/deps"
TOOLCHAIN = "1.72"

CR = json.load(open(os.path.join(HERE, "crates.json")))
WS, THIRD = CR["ws"], CR["third"]

# crates that the repository's offline build leaves out, compiled here from /repo against stubs of
# the libraries that are not available (see DESIGN.md); 'externs' are names of ws/third/stub crates.
EXTRA = json.load(open(os.path.join(HERE, "extra_crates.json")))


class BuildError(Exception):
    pass


def rustc_path():
    r = subprocess.run(["rustup", "which", "--toolchain", TOOLCHAIN, "rustc"], capture_output=True, text=True)
    p = r.stdout.strip()
    if r.returncode or not p:
        p = "/root/.rustup/toolchains/1.72-x86_64-unknown-linux-gnu/bin/rustc"
    return p


def third_dir():
    """Folder that holds the prebuilt third-party libraries."""
    if all(os.path.exists(os.path.join(DEPS, f)) for f in THIRD.values()):
        return DEPS
    # fall back: build them into a scratch target folder with the repository's own recipe
    alt = os.path.join(VERIF, ".cache", "target")
    deps = os.path.join(alt, "debug", "deps")
    if not all(os.path.exists(os.path.join(deps, f)) for f in THIRD.values()):
        ws = os.path.join(VERIF, ".cache", "ws")
        os.makedirs(ws, exist_ok=True)
        src = open("/opt/vp/mkws.py").read().replace('"/opt/vp/ws"', json.dumps(ws))
        mk = os.path.join(VERIF, ".cache", "mkws.py")
        open(mk, "w").write(src)
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=alt,
                   CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
        subprocess.run(["python3", mk], check=True, env=env)
        for a in (["test", "--workspace", "--exclude", "axon-tools", "--lib", "--bins", "--tests"],
                  ["test", "-p", "axon-tools", "--all-features"]):
            subprocess.run(["cargo"] + a + ["--no-run", "--offline"], cwd=ws, env=env, check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not all(os.path.exists(os.path.join(deps, f)) for f in THIRD.values()):
        raise BuildError("prebuilt third-party libraries are missing")
    return deps


def manifest_dir(path):
    """Folder whose Cargo.toml macros such as ethers' derives resolve: the build's mirror of the workspace."""
    d = os.path.dirname(os.path.dirname(path))
    rel = os.path.relpath(d, REPO)
    m = os.path.join("/opt/vp/ws", rel)
    return m if not rel.startswith("..") and os.path.exists(os.path.join(m, "Cargo.toml")) else d


_GUARD, _LOCKS, _DONE = threading.Lock(), {}, {}


class Builder:
    def __init__(self, out, inject=()):
        self.out = out
        self.inject = inject  # [(file of /repo, file of /verif whose text is appended to a scratch copy of it)]
        os.makedirs(out, exist_ok=True)
        self.deps = third_dir()
        self.rustc = rustc_path()
        self.log = []

    def unit(self, name):
        if name in EXTRA:
            u = dict(EXTRA[name])
            base = REPO if u.get("root", "repo") == "repo" else VERIF
            u["path"] = os.path.join(base, u["src"])
            u["externs"] = {e.split("=")[0]: e.split("=")[-1] for e in u["externs"]}
            return u
        if name in WS:
            w = WS[name]
            ex = {n: (d[1:] if d.startswith("@") else d) for n, d in w["externs"].items()}
            return {"path": os.path.join(REPO, w["src"]), "externs": ex, "features": w["features"], "env": w["env"]}
        return None

    def extern_file(self, ref):
        """ref: crate name (ws / extra / third) or file name of a third-party library"""
        if ref in EXTRA or ref in WS:
            return self.build(ref)
        if ref.endswith(".rlib") or ref.endswith(".so"):
            return os.path.join(self.deps, ref)
        if ref in THIRD:
            return os.path.join(self.deps, THIRD[ref])
        raise BuildError("unknown crate " + ref)

    def build(self, name):
        with _GUARD:
            lock = _LOCKS.setdefault((self.out, name), threading.Lock())
        with lock:  # drivers of one check share the crates they have in common
            if (self.out, name) not in _DONE:
                try:
                    _DONE[(self.out, name)] = (self._build(name), None)
                except BuildError as ex:
                    _DONE[(self.out, name)] = (None, str(ex))
            f, err = _DONE[(self.out, name)]
        if err:
            raise BuildError(err)
        return f

    def _build(self, name):
        u = self.unit(name)
        u["path"] = self.injected(u["path"])
        return self.compile(name, u["path"], u["externs"], u.get("kind", "lib"), u.get("features", []), u.get("env", {}),
                            u.get("cfg", []), u.get("args", []))

    def injected(self, path):
        """a crate with an injection is compiled from a scratch copy of its src folder"""
        d = os.path.dirname(path)
        hits = [(f, t) for f, t in self.inject if os.path.join(REPO, f).startswith(d + "/")]
        if not hits:
            return path
        rel = os.path.relpath(d, REPO)
        dst = os.path.join(self.out, "src", rel)
        if not os.path.exists(dst):
            shutil.copytree(d, dst)
        for f, t in hits:
            with open(os.path.join(dst, os.path.relpath(os.path.join(REPO, f), d)), "a") as o:
                o.write("\n" + open(t).read())
        return os.path.join(dst, os.path.basename(path))

    def compile(self, name, path, externs, kind="lib", features=(), env=None, cfg=(), args=(), opt="0"):
        with concurrent.futures.ThreadPoolExecutor(max(1, len(externs))) as ex:
            resolved = list(ex.map(lambda nr: (nr[0], self.extern_file(nr[1])), externs.items()))
        crate = name
        outf = os.path.join(self.out, {"lib": f"lib{crate}-axv.rlib", "proc-macro": f"lib{crate}-axv.so", "bin": crate}[kind])
        cmd = [self.rustc, "--crate-name", crate, "--edition=2021", path, "--crate-type", kind, "--cap-lints", "allow",
               "-C", "debuginfo=0", "-C", "opt-level=" + opt, "-C", "debug-assertions=on", "-C", "overflow-checks=on",
               "-C", "codegen-units=16", "-L", "dependency=" + self.deps, "-L", "dependency=" + self.out]
        if kind == "bin":
            cmd += ["-o", outf]
        else:
            cmd += ["-C", "metadata=axv", "-C", "extra-filename=-axv", "--out-dir", self.out]
        if kind == "proc-macro":
            cmd += ["--extern", "proc_macro"]
        for f in features:
            cmd += ["--cfg", f]
        for f in cfg:
            cmd += ["--cfg", f]
        for n, f in resolved:
            cmd += ["--extern", f"{n}={f}"]
        cmd += list(args)
        # native libraries built by dependencies' build scripts
        e = dict(os.environ)
        e.update({"CARGO_PKG_NAME": name, "CARGO_PKG_VERSION": "0.1.0", "CARGO_MANIFEST_DIR": manifest_dir(path.replace(os.path.join(self.out, "src"), REPO)),
                  "CARGO_CRATE_NAME": crate, "CARGO_PKG_VERSION_MAJOR": "0", "CARGO_PKG_VERSION_MINOR": "1", "CARGO_PKG_VERSION_PATCH": "0"})
        e.update(env or {})
        e.pop("RUSTC_WRAPPER", None)
        t = time.time()
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=self.out)
        self.log.append((name, round(time.time() - t, 2), r.returncode))
        if r.returncode:
            raise BuildError(f"rustc failed on {name}:\n{r.stderr[-6000:]}")
        return outf


if __name__ == "__main__":
    out = sys.argv[1]
    b = Builder(out)
    for n in sys.argv[2:]:
        try:
            print(b.build(n))
        except BuildError as ex:
            print(ex)
            sys.exit(1)
    print(b.log)
