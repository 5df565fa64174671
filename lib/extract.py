"""Obtain the type-checked program of /repo/cinereus (MIR, resolved callees) as JSON.

Mirrors the crate into a scratch workspace (git-only dev-dependencies left out, nothing put in their
place), runs `cargo +nightly check` with the mirdump driver as RUSTC_WORKSPACE_WRAPPER once per feature
configuration, and loads the dumps.  Nothing is executed from the crate itself."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
GIT_DEP = re.compile(r"^\s*([\w-]+)\s*=\s*\{[^}]*\bgit\s*=[^}]*\}\s*$")


class ExtractError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=_env(), check=True,
                                  capture_output=True, text=True).stdout.strip()
    return _sysroot


def driver():
    """Path of the compiled driver, (re)built when its source changed."""
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read() + sysroot().encode()).hexdigest()[:16]
    out = os.path.join(CACHE, "mirdump-" + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "+nightly", "--edition", "2024", "-O", "-A", "warnings", src, "-o", tmp],
                           env=_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractError("driver does not build:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _clean_manifest(text, gone):
    out = []
    for line in text.splitlines():
        name = re.match(r"^\s*([\w-]+)(?:\.workspace)?\s*=", line)
        if GIT_DEP.match(line) or (name and name[1] in gone and re.search(r"workspace\s*=\s*true", line)):
            continue
        out.append(line)
    return "\n".join(out) + "\n"


def mirror(dst):
    root = _read(f"{REPO}/Cargo.toml").decode()
    member = _read(f"{REPO}/cinereus/Cargo.toml").decode()
    gone = {m[1] for line in (root + "\n" + member).splitlines() if (m := GIT_DEP.match(line))}
    new_root = re.sub(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["cinereus"]', _clean_manifest(root, gone), count=1)
    os.makedirs(dst + "/cinereus", exist_ok=True)
    with open(dst + "/Cargo.toml", "w") as f:
        f.write(new_root)
    shutil.copy(f"{REPO}/Cargo.lock", dst + "/Cargo.lock")
    for d, dirs, files in os.walk(f"{REPO}/cinereus"):
        dirs[:] = [x for x in dirs if x not in ("target", ".git")]
        for f in files:
            src = os.path.join(d, f)
            to = os.path.join(dst, os.path.relpath(src, REPO))
            os.makedirs(os.path.dirname(to), exist_ok=True)
            if src == f"{REPO}/cinereus/Cargo.toml":
                with open(to, "w") as g:
                    g.write(_clean_manifest(member, gone))
            else:
                with open(to, "wb") as g:
                    g.write(_read(src))


def dump_cinereus(features=()):
    """Type-check the current cinereus sources with the given features; return the parsed dump."""
    drv = driver()
    scratch = tempfile.mkdtemp(prefix="verif-mir-")
    try:
        ws = scratch + "/ws"
        mirror(ws)
        out = scratch + "/dump.json"
        env = _env()
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["MIRDUMP_CRATE"] = "cinereus"
        env["MIRDUMP_OUT"] = out
        env["RUSTFLAGS"] = "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Awarnings"
        env["CARGO_TARGET_DIR"] = scratch + "/target"
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "-p", "cinereus", "-q"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, cwd=ws, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise ExtractError("cargo check failed for features %s:\n%s" % (list(features), r.stderr[-4000:]))
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

STUBS = os.path.join(VERIF, "stubs")
DEPS = {
    "hotmeal": '[dependencies]\ncinereus = {{ path = "../cinereus" }}\nrapidhash = "1"\n'
               'facet = {{ path = "{s}/facet" }}\nfacet-error = {{ path = "{s}/facet-error" }}\nsmallvec = {{ path = "{s}/smallvec" }}\n'
               'html5ever = {{ path = "{s}/html5ever" }}\ntendril = {{ path = "{s}/tendril" }}\ncompact_str = {{ path = "{s}/compact_str" }}\n'
               'tracing = {{ version = "0.1", optional = true }}\n[features]\ntracing = ["dep:tracing"]\n',
    "hotmeal-server": '[dependencies]\nhotmeal = {{ path = "../hotmeal" }}\nfacet = {{ path = "{s}/facet" }}\n'
                      'facet-postcard = {{ path = "{s}/facet-postcard" }}\ntracing = {{ version = "0.1", optional = true }}\n'
                      '[features]\nroam = []\ntracing = ["dep:tracing", "hotmeal/tracing"]\n',
    "hotmeal-wasm": '[dependencies]\nhotmeal = {{ path = "../hotmeal" }}\nfacet-json = {{ path = "{s}/facet-json" }}\n'
                    'facet-postcard = {{ path = "{s}/facet-postcard" }}\njs-sys = {{ path = "{s}/js-sys" }}\nsmallvec = {{ path = "{s}/smallvec" }}\n'
                    'tracing = "0.1"\nwasm-bindgen = {{ path = "{s}/wasm-bindgen" }}\nwasm-tracing = {{ path = "{s}/wasm-tracing" }}\n'
                    'web-sys = {{ path = "{s}/web-sys" }}\n',
}


def mirror_upper(dst, last="hotmeal-wasm"):
    """hotmeal, hotmeal-server and hotmeal-wasm next to cinereus, their unavailable dependencies replaced by signatures (stubs/)."""
    mirror(dst)
    crates = [c for c in DEPS if c in ("hotmeal", last)]
    p = dst + "/Cargo.toml"
    with open(p) as f:
        s = f.read()
    with open(p, "w") as f:
        f.write(s.replace('members = ["cinereus"]', 'members = ["cinereus", %s]' % ", ".join('"%s"' % c for c in crates), 1))
    os.unlink(dst + "/Cargo.lock")
    for c in crates:
        deps = DEPS[c]
        shutil.copytree(f"{REPO}/{c}/src", f"{dst}/{c}/src")
        with open(f"{dst}/{c}/Cargo.toml", "w") as f:
            f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2024"\n[lib]\n' % c + deps.format(s=STUBS))


def dump_upper(crate, features=()):
    """The parsed dump of hotmeal, hotmeal-server or hotmeal-wasm (crate name with a dash)."""
    drv = driver()
    scratch = tempfile.mkdtemp(prefix="verif-mir-")
    try:
        ws = scratch + "/ws"
        mirror_upper(ws, crate)
        out = scratch + "/dump.json"
        env = _env()
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["MIRDUMP_CRATE"] = crate.replace("-", "_")
        env["MIRDUMP_OUT"] = out
        env["RUSTFLAGS"] = "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Awarnings"
        env["CARGO_TARGET_DIR"] = scratch + "/target"
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "-p", crate, "-q"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, cwd=ws, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise ExtractError("cargo check of %s failed for features %s:\n%s" % (crate, list(features), r.stderr[-6000:]))
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    import sys
    d = dump_upper(sys.argv[2], tuple(sys.argv[3:])) if sys.argv[2:3] and sys.argv[2] in DEPS else dump_cinereus(tuple(sys.argv[2:]))
    with open(sys.argv[1], "w") as f:
        json.dump(d, f)
    print(len(d["bodies"]), "bodies", len(d["types"]), "types")
