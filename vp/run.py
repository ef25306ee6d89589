#!/usr/bin/env python3
"""Driver: decides one property with Kani's compiler (MIR of the macro-generated code -> goto program) and
CBMC (bit-precise symbolic execution + SAT), and replays every counterexample natively.

  run.py <property> [--tier quick|thorough] [--list] [--keep]
  run.py --replay <file>

exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: no verdict (tool failure, timeout)."""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import crate  # noqa: E402

WORK = os.environ.get("VP_WORK", os.path.join(ROOT, "work"))
KANI = None
LOCK = threading.Lock()
MEM = 7 << 30
CBMC_FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --nan-check "
              "--no-self-loops-to-assumptions --no-pointer-primitive-check --object-bits 16 "
              "--sat-solver cadical --slice-formula --unwinding-assertions --drop-unused-functions").split()
PRELUDE = '''#![allow(warnings)]
#[macro_export] macro_rules! ck { ($c:expr, $m:expr) => { if !($c) { panic!($m) } } }
'''


class Fail(Exception):
    """no verdict"""


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.update(kw)
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def sh(cmd, cwd=None, timeout=600, e=None, lim=False):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, preexec_fn=limits if lim else None)
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode(errors="replace") + "\n[timeout]"
    return p.returncode, p.stdout.decode(errors="replace")


def kani_home():
    c = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*")))
    if not c:
        raise Fail("kani is not installed")
    return c[-1]


# ---------------------------------------------------------------- crates
def shard_files(cases, harnesses):
    mods = "".join(f"mod {c.mod};\n" for c in cases)
    out = PRELUDE + mods + "#[cfg(kani)]\nmod proofs {\nuse super::*;\n"
    for name, checks in harnesses:
        out += f"#[kani::proof]\nfn {name}() {{\nlet mut ok = true;\n"
        for k in checks:
            k.line = out.count("\n") + 1
            out += f"{{ let i: [u8; {k.k}] = kani::any(); ok &= {k.path}(&i).is_some(); }}\n"
        out += "kani::cover!(ok);\n}\n"
    out += "}\nfn main() {}\n"
    files = {"src/main.rs": out}
    for c in cases:
        files[f"src/{c.mod}.rs"] = c.src
    return files


def replay_files(case):
    arms = ""
    for k in case.checks:
        arms += f'"{k.path}" => {{ let mut a = [0u8; {k.k}]; for (x, y) in a.iter_mut().zip(b.iter()) {{ *x = *y; }} {k.path}(&a).is_some() }}\n'
    main = PRELUDE + f"mod {case.mod};\n" + '''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let b: Vec<u8> = (0..a[2].len() / 2).map(|j| u8::from_str_radix(&a[2][2 * j..2 * j + 2], 16).unwrap()).collect();
    let r = match a[1].as_str() {
''' + arms + '''_ => panic!("no such check"),
    };
    println!("check passed ({})", if r { "admissible input" } else { "inadmissible input" });
}
'''
    return {"src/main.rs": main, f"src/{case.mod}.rs": case.src}


def feats(case):
    return tuple(getattr(case, "features", None) or crate.FULL)


def native(case, prop):
    """build the replay binary of one case; (ok, output, {profile: path})"""
    root = os.path.join(WORK, prop, "replay", case.mod)
    h = crate.write(root, replay_files(case), feats(case))
    tgt = os.path.join(WORK, prop, "replay", "target")
    out = ""
    bins = {}
    for prof, fl in (("dev", []), ("release", ["--release"])):
        rc, o = sh(["cargo", "build", "--offline"] + fl, cwd=h, e=env(CARGO_TARGET_DIR=tgt), timeout=600)
        if rc:
            return False, o, {}
        src = os.path.join(tgt, "debug" if prof == "dev" else "release", crate.PKG)
        dst = os.path.join(root, prof)
        shutil.copy2(src, dst)
        bins[prof] = dst
    return True, out, bins


# ---------------------------------------------------------------- goto pipeline
def parse_results(txt):
    """(failed [(id, text)], cover [(id, satisfied)], counts by class)"""
    failed, covers, counts = [], [], {}
    for m in re.finditer(r"^\[(.*)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", txt, re.M):
        pid, line, desc, st = m.groups()
        cls = re.sub(r"\.\d+$", "", pid).rsplit(".", 1)[-1]
        if cls == "cover":
            covers.append((pid, st == "FAILURE"))
            continue
        if cls == "reachability_check":
            continue
        counts[cls] = counts.get(cls, 0) + 1
        if st != "SUCCESS":
            failed.append((pid, desc, st))
    return failed, covers, counts


def fnum(txt, key):
    return sum(float(x) for x in re.findall(re.escape(key) + r": ([0-9.eE+-]+)s", txt))


def solve(goto, mangled, unwind, timeout, tmp):
    """link, instrument and run CBMC on one harness"""
    b = os.path.join(KANI, "bin")
    a = tmp + ".a"
    for s in ([f"{b}/goto-cc", goto, "--function", mangled, "-o", a],
              [f"{b}/goto-instrument", "--add-library", "--no-malloc-may-fail", a, a],
              [f"{b}/goto-instrument", "--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", ".*", a, a]):
        rc, o = sh(s, timeout=300, lim=True)
        if rc:
            return dict(status="error", out=o[-2000:], goto=a)
    t = time.time()
    rc, o = sh([f"{b}/cbmc"] + CBMC_FLAGS + ["--unwind", str(unwind), a, "--verbosity", "8"], timeout=timeout, lim=True)
    wall = time.time() - t
    failed, covers, counts = parse_results(o)
    res = dict(goto=a, wall=wall, failed=failed, covers=covers, counts=counts,
               solver=fnum(o, "Runtime Solver"), symex=fnum(o, "Runtime Symex"),
               vccs=sum(int(x) for x in re.findall(r"Generated (\d+) VCC", o)),
               remaining=sum(int(x) for x in re.findall(r"(\d+) remaining after simplification", o)))
    if rc not in (0, 10) or not counts:
        res["status"] = "error"
        res["out"] = o[-1500:]
    elif any(st != "FAILURE" for _, _, st in failed):
        res["status"] = "error"
        res["out"] = str(failed[:3])
    else:
        res["status"] = "failed" if failed else "ok"
    return res


def trace_input(goto, pid, unwind, timeout):
    """bytes of every `let i: [u8; K] = kani::any()` of the counterexample for property `pid`, in order"""
    b = os.path.join(KANI, "bin")
    rc, o = sh([f"{b}/cbmc"] + CBMC_FLAGS + ["--unwind", str(unwind), goto, "--verbosity", "4", "--trace", "--property", pid],
               timeout=timeout, lim=True)
    return o


# ---------------------------------------------------------------- main flow
def balance(items, n, weight):
    bins = [[0, []] for _ in range(n)]
    for it in sorted(items, key=weight, reverse=True):
        m = min(bins, key=lambda x: x[0])
        m[0] += weight(it)
        m[1].append(it)
    return [b for _, b in bins if b]


class Runner:
    def __init__(self, prop, tier, spec, keep=False):
        self.prop, self.tier, self.spec, self.keep = prop, tier, spec, keep
        self.dir = os.path.join(WORK, prop)
        self.t0 = time.time()
        self.violations = []      # (case, check, bytes hex or None, message)
        self.unconfirmed = []
        self.findings = {}
        self.stats = dict(harnesses=0, cbmc_properties={}, vccs=0, vccs_after_simplification=0, solver_s=0.0,
                          symex_s=0.0, cbmc_wall_s=0.0, covers=0, covers_satisfied=0)
        self.jobs = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 8)))

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def prepare(self):
        for n, c in enumerate(self.spec.cases):
            c.build(f"c{n}")
        self.cases = self.spec.cases
        crate.drop(self.dir)
        os.makedirs(self.dir)
        self.refused = []
        if any(c.refusable for c in self.cases):
            self.probe()
        plain = [c for c in self.cases if not c.finding]
        found = [c for c in self.cases if c.finding]
        wt = lambda c: 4 + sum(k.k for k in c.checks)
        sets = sorted({feats(c) for c in plain}, key=len, reverse=True)
        self.shards = []
        for fs in sets:
            g = [c for c in plain if feats(c) == fs]
            self.shards += balance(g, max(1, self.spec.shards // len(sets)), wt)
        self.harn = []           # per shard: [(name, checks)]
        for s in self.shards:
            ks = [k for c in s for k in c.checks]
            tot = sum(4 + k.k for k in ks)
            n = max(1, min(len(ks), -(-tot // self.spec.per_harness)))
            self.harn.append([(f"h{j}", g) for j, g in enumerate(balance(ks, n, lambda k: 4 + k.k))])
        if found:
            self.shards[0] = self.shards[0] + found if self.shards else found
            if not self.harn:
                self.harn.append([])
            assert len({feats(c) for c in self.shards[0]}) == 1
            for c in found:
                for k in c.checks:
                    self.harn[0].append((f"z{len(self.harn[0])}", [k]))
        self.bymod = {c.mod: c for c in self.cases}

    def probe(self):
        """let the derive decide which of the refusable declarations it accepts; only those are encoded"""
        root = os.path.join(self.dir, "probe")
        todo = [c for c in self.cases if c.refusable]
        while todo:
            files = {"src/main.rs": PRELUDE + "".join(f"mod {c.mod};\n" for c in todo) + "fn main() {}\n"}
            for c in todo:
                files[f"src/{c.mod}.rs"] = "use bondrewd::*;\n" + c.decl_src
            h = crate.write(root, files)
            rc, o = sh(["cargo", "check", "--offline", "--message-format", "short"], cwd=h, timeout=600, e=env(CARGO_TARGET_DIR=os.path.join(root, "target")))
            if not rc:
                break
            bad = set(re.findall(r"^src/(c\d+)\.rs:\d+:\d+: error", o, re.M))
            if not bad:
                raise Fail("probe failed:\n" + o[-3000:])
            self.refused += [c for c in todo if c.mod in bad]
            todo = [c for c in todo if c.mod not in bad]
        gone = {c.mod for c in self.refused}
        self.cases = [c for c in self.cases if c.mod not in gone]
        self.log(f"{len(gone)} declarations refused by the derive, {len(todo)} refusable ones accepted")

    def kani_build(self, n):
        root = os.path.join(self.dir, f"s{n}")
        h = os.path.join(root, "h")
        tgt = os.path.join(root, "target")
        rc, o = sh(["cargo", "kani", "--only-codegen", "--no-assertion-reach-checks", "--target-dir", tgt],
                   cwd=h, timeout=self.spec.build_timeout, e=env())
        return rc, o, tgt

    def build(self):
        # dependencies once, then one copy per shard
        seeds = {}
        for s in self.shards:
            if feats(s[0]) in seeds:
                continue
            seed = seeds[feats(s[0])] = os.path.join(self.dir, f"seed{len(seeds)}")
            crate.write(seed, {"src/main.rs": PRELUDE + "use bondrewd::*;\n#[cfg(kani)]\n#[kani::proof]\nfn h() {}\nfn main() {}\n"}, feats(s[0]))
            rc, o = sh(["cargo", "kani", "--only-codegen", "--target-dir", os.path.join(seed, "target")], cwd=os.path.join(seed, "h"), timeout=600)
            if rc:
                raise Fail("bondrewd does not build under kani:\n" + o[-3000:])
        self.log("dependencies built")

        def one(n):
            root = os.path.join(self.dir, f"s{n}")
            seed = seeds[feats(self.shards[n][0])]
            for d in ("bd", "bw"):
                shutil.copytree(os.path.join(seed, d), os.path.join(root, d), copy_function=shutil.copy2)
            crate.write(root, shard_files(self.shards[n], self.harn[n]), feats(self.shards[n][0]))
            shutil.copytree(os.path.join(seed, "target"), os.path.join(root, "target"), copy_function=shutil.copy2, symlinks=True)
            return self.kani_build(n)
        with cf.ThreadPoolExecutor(min(self.jobs, 8)) as ex:
            res = list(ex.map(one, range(len(self.shards))))
        bad = False
        for n, (rc, o, _) in enumerate(res):
            if rc:
                bad = True
                self.compile_error(n, o)
        if bad:
            return None
        tasks = []
        for n, (_, _, tgt) in enumerate(res):
            metas = [m for m in glob.glob(tgt + "/**/*.kani-metadata.json", recursive=True) if "verif" in os.path.basename(m)]
            metas.sort(key=os.path.getmtime)
            got = {}
            for m in metas:
                for h in json.load(open(m))["proof_harnesses"]:
                    got[h["pretty_name"].split("::")[-1]] = (h["mangled_name"], h["goto_file"])
            for name, checks in self.harn[n]:
                if name not in got:
                    raise Fail(f"harness {name} of shard {n} was not generated")
                mangled, sym = got[name]
                out = sym.replace(".symtab.out", ".out")
                if not os.path.exists(out):
                    raise Fail(f"no goto program for {name}: {out}")
                tasks.append((n, name, checks, mangled, out))
        return tasks

    def compile_error(self, n, out):
        """which declarations the macro rejected (or whose generated code does not compile)"""
        mods = {}
        for blk in re.split(r"\n(?=error)", out):
            if not blk.startswith("error"):
                continue
            m = re.search(r"--> src/(c\d+)\.rs", blk)
            if m:
                mods.setdefault(m.group(1), blk[:1500])
        if not mods:
            raise Fail("harness build failed:\n" + out[-4000:])
        for mod, blk in list(mods.items())[:3]:
            c = self.bymod[mod]
            ok, o, _ = native(c, self.prop)
            if ok:
                raise Fail("builds natively but not under kani: " + blk)
            self.violations.append((c, None, None, "documented declaration does not compile: " + blk.split("\n")[0], blk))

    def run(self):
        global KANI
        KANI = kani_home()
        self.prepare()
        self.log(f"{len(self.cases)} declarations, {sum(len(c.checks) for c in self.cases)} checks, "
                 f"{sum(map(len, self.harn))} harnesses in {len(self.shards)} crates")
        tasks = self.build()
        if tasks is not None:
            self.log("encoded; solving")
            self.solve_all(tasks)
        return self.finish()

    def solve_all(self, tasks):
        tmp = os.path.join(self.dir, "goto")
        os.makedirs(tmp, exist_ok=True)

        def one(t):
            n, name, checks, mangled, out = t
            return t, solve(out, mangled, self.spec.unwind, self.spec.timeout, os.path.join(tmp, f"{n}_{name}"))
        errs = []
        bad = []
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            for t, r in ex.map(one, tasks):
                n, name, checks, mangled, out = t
                if r["status"] == "error":
                    errs.append((t, r))
                    continue
                s = self.stats
                s["harnesses"] += 1
                for k, v in r["counts"].items():
                    s["cbmc_properties"][k] = s["cbmc_properties"].get(k, 0) + v
                s["vccs"] += r["vccs"]
                s["vccs_after_simplification"] += r["remaining"]
                s["solver_s"] += r["solver"]
                s["symex_s"] += r["symex"]
                s["cbmc_wall_s"] += r["wall"]
                s["covers"] += len(r["covers"])
                s["covers_satisfied"] += sum(1 for _, x in r["covers"] if x)
                isf = self.bymod[checks[0].mod].finding
                if r["status"] == "failed":
                    bad.append((t, r))
                elif not r["covers"] or not all(x for _, x in r["covers"]):
                    errs.append((t, dict(out="vacuous: no admissible input reaches the end of " + name)))
                elif not isf:
                    os.remove(r["goto"])
        self.log(f"solved: {self.stats['harnesses']} harnesses, {len(bad)} with counterexamples, {len(errs)} without verdict")
        self.errs = errs
        limit = 8
        todo = []
        if os.environ.get("VP_SURVEY"):
            seen = {}
            for t, r in bad:
                for pid, desc, _ in r["failed"]:
                    fn = pid.rsplit(".", 2)[0]
                    m = fn.split("::")[0]
                    c = self.bymod.get(m)
                    seen.setdefault((c.tag if c else "?", fn), []).append(re.sub(r": byte \d+", "", desc))
            for (tag, fn), d in sorted(seen.items()):
                print("SURVEY", tag, fn, sorted(set(d))[:3])
            for t, r in errs:
                print("SURVEY-ERR", t[1], [k.path for k in t[2]][:5], r.get("out", "")[-300:])
            self.errs = errs
            return
        for t, r in bad:
            if not self.bymod[t[2][0].mod].finding:
                limit -= 1
                if limit < 0:
                    continue
            todo.append((t, r))
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            list(ex.map(lambda x: self.confirm(*x), todo))

    def confirm(self, t, r):
        n, name, checks, mangled, out = t
        done = set()
        for pid, desc, _ in r["failed"]:
            if len(done) >= 2:
                break
            fn = pid.rsplit(".", 2)[0]
            if fn in done:
                continue
            done.add(fn)
            o = trace_input(r["goto"], pid, self.spec.unwind, self.spec.timeout)
            vals = self.trace_values(o, name, checks)
            own = [k for k in checks if k.path == fn]
            if own and not any(k is own[0] for k, _ in vals):
                vals.append((own[0], '00' * own[0].k))
            hit = False
            for k, hexs in vals:
                c = self.bymod[k.mod]
                msg = self.replay(c, k, hexs)
                if msg:
                    hit = True
                    self.report(c, k, hexs, msg, pid, desc)
                    break
            if not hit:
                self.unconfirmed.append((name, pid, desc))

    def report(self, c, k, hexs, msg, pid, desc):
        if c.finding:
            self.findings.setdefault(c.finding, (c, k, hexs, msg))
            return
        if any(v[1] is k for v in self.violations):
            return
        self.violations.append((c, k, hexs, msg, f"{pid}: {desc}"))

    def trace_values(self, o, name, checks):
        """input bytes of the checks of the harness that appear in the trace; the failing check first"""
        got = {}
        order = []
        for m in re.finditer(r"^State \d+ file src/main\.rs function proofs::%s line (\d+) thread \d+\n-+\n  i(.*)$" % name, o, re.M):
            line, rest = int(m.group(1)), m.group(2)
            if line not in got:
                got[line] = {}
                order.append(line)
            x = re.match(r"\[(\d+)l?\]=(\d+)", rest)
            if x:
                got[line][int(x.group(1))] = int(x.group(2)) & 255
                continue
            x = re.match(r"=\{(.*?)\}", rest)
            if x:
                for j, v in enumerate(x.group(1).split(",")):
                    got[line][j] = int(re.sub(r"[^0-9]", "", v) or 0) & 255
        first = checks[0].line
        vals = []
        for line in reversed(order):
            k = checks[line - first] if 0 <= line - first < len(checks) else None
            if k:
                vals.append((k, bytes(got[line].get(j, 0) for j in range(k.k)).hex()))
        return vals

    def replay(self, c, k, hexs):
        with LOCK:
          if not hasattr(c, "bins"):
            ok, o, bins = native(c, self.prop)
            if not ok:
                raise Fail("replay build failed:\n" + o[-2000:])
            c.bins = bins
        msgs = {}
        for prof, b in c.bins.items():
            rc, o = sh([b, k.path, hexs], timeout=60)
            if rc == 101 or rc < 0:
                m = re.search(r"panicked at (.*?)\n(.*)", o)
                msgs[prof] = (m.group(2) + " at " + m.group(1)) if m else o[-300:]
        if not msgs:
            return None
        return "; ".join(f"[{p}] {m}" for p, m in msgs.items())

    # ------------------------------------------------------------ output
    def finish(self):
        rdir = os.path.join(ROOT, "replays")
        code = 0
        lines = []
        known = load_known()
        for fid, (c, k, hexs, msg) in self.findings.items():
            what = known.get(fid, {}).get("what", msg)
            lines.append(f"KNOWN-FINDING: property={self.prop} {fid}: {what}")
        for c, k, hexs, msg, more in self.violations:
            os.makedirs(rdir, exist_ok=True)
            tagp = re.sub(r"[^A-Za-z0-9_]+", "_", f"{c.tag}_{k.name if k else 'compile'}")[:60]
            path = os.path.join(rdir, f"{self.prop}_{tagp}.json")
            json.dump(dict(property=self.prop, declaration=c.decl_src, check=k.path if k else None,
                           exercises=k.what if k else "compilation", input_hex=hexs, observed=msg, detail=more,
                           module=c.src, how="python3 /verif/vp/run.py --replay " + path, k=k.k if k else 0, mod=c.mod, features=feats(c)),
                      open(path, "w"), indent=1)
            lines.append(f"VIOLATION property={self.prop} replay={path}")
            lines.append(f"  {msg}")
            lines.append("  " + c.decl_src.replace("\n", "\n  ")[:1500])
            code = 1
        errs = getattr(self, "errs", [])
        if not code and (errs or self.unconfirmed):
            code = 2
            for t, r in errs[:5]:
                lines.append(f"NO-VERDICT harness {t[1]} ({', '.join(k.path for k in t[2])[:300]}): {r.get('out','')[-600:]}")
            for u in self.unconfirmed[:5]:
                lines.append(f"NO-VERDICT counterexample did not reproduce natively: {u}")
        for l in lines:
            print(l, flush=True)
        self.evidence(len(self.violations), code)
        self.log(f"exit {code}")
        if not self.keep:
            crate.drop(self.dir)
        return code

    def evidence(self, nviol, code):
        cases = [c for c in self.cases if not c.finding]
        decls = {hashlib.sha1(re.sub(r"\s+", " ", c.decl_src).encode()).hexdigest() for c in cases}
        what = {}
        for c in cases:
            for k in c.checks:
                w = re.sub(r"(read|write|read_slice|write_slice)_\w+", r"\1_<field>", k.what)
                what[w] = what.get(w, 0) + 1
        s = self.stats
        samples = []
        step = max(1, len(cases) // 6)
        for c in cases[::step][:6]:
            samples.append(dict(declaration=c.decl_src, checks=[k.what for k in c.checks],
                                symbolic_input_bytes=max([k.k for k in c.checks] or [0])))
        cov = dict(programs=len(decls), disagreements_checked=sum(len(c.checks) for c in cases), samples=samples,
                   explanation=self.spec.explanation, functions_encoded=what, bounds=self.spec.bounds,
                   unwind=self.spec.unwind, harnesses_decided=s["harnesses"],
                   cbmc_properties_discharged=s["cbmc_properties"], vccs=s["vccs"],
                   vccs_after_simplification=s["vccs_after_simplification"],
                   reachability_witnesses=f"{s['covers_satisfied']}/{s['covers']}",
                   solver_s=round(s["solver_s"], 3), symex_s=round(s["symex_s"], 3), cbmc_wall_s=round(s["cbmc_wall_s"], 1),
                   declarations_refused_by_the_derive=len(self.refused),
                   counterexamples_confirmed=nviol, known_findings=sorted(self.findings), exit=code)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                  level=self.spec.level, coverage=cov, assumptions=self.spec.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=nviol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w"), indent=1)


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {x["id"]: x for x in json.load(open(p)).get("findings", [])}


def replay_file(path):
    r = json.load(open(path))
    class K:
        pass
    c, k = K(), K()
    k.path, k.k = r["check"] or "", r["k"]
    c.features = r.get("features")
    c.mod, c.src, c.checks = r["mod"], r["module"], ([k] if r["check"] else [])
    import props
    crate.WRAP = props.build(r["property"], "quick", 1).wrap if r["property"] in props.PROPS else False
    ok, o, bins = native(c, "replay_" + r["property"])
    if not ok:
        print(o[-3000:])
        print("does not compile")
        return 1
    if not r["check"]:
        print("compiles")
        return 0
    rc = 0
    for p, b in bins.items():
        x, o = sh([b, k.path, r["input_hex"]])
        print(p, "exit", x, o)
        rc |= x != 0
    return 1 if rc else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--keep", action="store_true", default=bool(os.environ.get("VP_KEEP")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    import props
    try:
        spec = props.build(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        crate.WRAP = spec.wrap
        return Runner(a.prop, a.tier, spec, a.keep).run()
    except Fail as e:
        print("NO-VERDICT", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
