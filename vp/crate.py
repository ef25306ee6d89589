"""Writes a harness crate around /repo's current sources.

/repo's own manifests cannot be loaded offline (bondrewd names a private registry), so two wrapper
manifests are derived from them on every run: same sources (by path, in place), same dependencies and
features, with bondrewd-derive taken from the working tree."""
import json
import os
import shutil
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
PKG = "verif-harness"
FULL = ("derive", "dyn_fns", "hex_fns")
NOSTD = "-std"  # in a feature list: without the default features
WRAP = False    # build the macro as release builds do: its own arithmetic wraps instead of panicking


def value(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(value, v)) + "]"
    return json.dumps(v)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def wrapper(member, path):
    m = tomllib.load(open(f"{REPO}/{member}/Cargo.toml", "rb"))
    p = m["package"]
    deps = {}
    for n, d in m.get("dependencies", {}).items():
        if n == "bondrewd-derive":
            d = {"path": "../bd", "optional": True}
        deps[n] = d
    lib = dict(m.get("lib", {}))
    lib["path"] = f"{REPO}/{member}/src/lib.rs"
    out = f"[package]\nname = {value(p['name'])}\nversion = {value(p['version'])}\nedition = {value(p['edition'])}\n\n[lib]\n"
    out += "".join(f"{k} = {value(v)}\n" for k, v in lib.items())
    out += "\n[dependencies]\n" + "".join(f"{k} = {value(v)}\n" for k, v in deps.items())
    out += "\n[features]\n" + "".join(f"{k} = {value(v)}\n" for k, v in m.get("features", {}).items())
    put(path, out)
    return p["name"], p["version"]


def write(root, files, features=FULL, extra_deps=""):
    """files: {relative path: text} of the harness package"""
    h = os.path.join(root, "h")
    nb, vb = wrapper("bondrewd", os.path.join(root, "bw", "Cargo.toml"))
    nd, vd = wrapper("bondrewd-derive", os.path.join(root, "bd", "Cargo.toml"))
    lock = open(os.path.join(HERE, "crate", "Cargo.lock")).read()
    lock = lock.replace('name = "h"', f'name = "{PKG}"')
    put(os.path.join(h, "Cargo.lock"), lock)
    over = "".join(f"\n[profile.{p}.build-override]\noverflow-checks = false\ndebug-assertions = false\n" for p in ("dev", "release")) if WRAP else ""
    put(os.path.join(h, "Cargo.toml"), f"""[package]
name = "{PKG}"
version = "0.1.0"
edition = "2021"

[dependencies]
bondrewd = {{ path = "../bw", features = {json.dumps([f for f in features if f != NOSTD])}{', default-features = false' if NOSTD in features else ''} }}
{extra_deps}
[lints.rust]
unexpected_cfgs = "allow"
warnings = "allow"

[profile.dev]
debug = "line-tables-only"
incremental = false

[profile.release]
incremental = false
{over}
[workspace]
""")
    keep = set()
    for rel, text in files.items():
        put(os.path.join(h, rel), text)
        keep.add(os.path.join(h, rel))
    for d, _, fs in os.walk(os.path.join(h, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if p not in keep:
                os.remove(p)
    return h


def drop(root):
    shutil.rmtree(root, ignore_errors=True)
