"""Builds the real crates from /repo's working tree and compiles obligation crates against them."""
import json
import os
import subprocess
import time

REPO = os.environ.get("VC_REPO", "/repo")
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"

DERIVE = """[package]
name="bondrewd-derive"
version="0.4.2"
edition="2021"
[lib]
proc-macro=true
path="%s/bondrewd-derive/src/lib.rs"
[dependencies]
proc-macro2="1"
quote="1"
syn="1"
convert_case="0.6"
[features]
default=["part_eq_enums"]
dyn_fns=[]
hex_fns=[]
part_eq_enums=[]
"""
LIB = """[package]
name="bondrewd"
version="0.2.1"
edition="2021"
[lib]
path="%s/bondrewd/src/lib.rs"
[dependencies]
bondrewd-derive={path="../bondrewd-derive",optional=true}
[features]
default=["std"]
derive=["bondrewd-derive"]
dyn_fns=["bondrewd-derive/dyn_fns"]
hex_fns=["bondrewd-derive/hex_fns"]
std=[]
"""
USER = """[package]
name="h"
version="0.1.0"
edition="2021"
[lib]
[dependencies]
bondrewd={path="../bondrewd",features=[%s]}
[workspace]
[profile.dev.build-override]
opt-level=1
"""


class BuildError(Exception):
    pass


def env(work):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = e.get("VC_TOOLCHAIN") or TOOLCHAIN
    e["CARGO_TARGET_DIR"] = os.path.join(work, "target")
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    return e


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


class Deps:
    """the crates under contract, built from the working tree"""

    def __init__(self, work, features=("derive", "dyn_fns", "hex_fns"), sub="ws"):
        self.work = work
        self.features = list(features)
        t = time.time()
        ws = os.path.join(work, sub)
        write(ws + "/bondrewd-derive/Cargo.toml", DERIVE % REPO)
        write(ws + "/bondrewd/Cargo.toml", LIB % REPO)
        write(ws + "/h/Cargo.toml", USER % ",".join('"%s"' % f for f in features))
        write(ws + "/h/src/lib.rs", "")
        self.env = env(work)
        have = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
        if self.env["RUSTUP_TOOLCHAIN"].split("-")[0] not in have:
            self.env.pop("RUSTUP_TOOLCHAIN")
        r = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "-q"], cwd=ws + "/h", env=self.env, capture_output=True, text=True)
        self.rlib = None
        self.host = {}  # the libraries the macro itself uses
        for l in r.stdout.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "bondrewd":
                for f in j["filenames"]:
                    if f.endswith(".rlib"):
                        self.rlib = f
            elif j.get("reason") == "compiler-artifact" and "lib" in j["target"]["kind"]:
                for f in j["filenames"]:
                    if f.endswith(".rlib"):
                        self.host[j["target"]["name"].replace("-", "_")] = f
        if r.returncode != 0 or not self.rlib:
            msgs = []
            for l in r.stdout.splitlines():
                try:
                    j = json.loads(l)
                    if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                        msgs.append(j["message"]["rendered"])
                except ValueError:
                    pass
            raise BuildError("cargo build failed\n" + "\n".join(msgs)[:3000] + r.stderr[-3000:])
        self.seconds = time.time() - t

    def rustc(self, src, out, emit, opt, extra=(), limit=240):
        """-> (ok, [diagnostic]) ; diagnostics are rustc JSON errors"""
        deps = os.path.dirname(self.rlib)
        cmd = ["timeout", "-k", "5", str(max(1, int(limit))), "prlimit", "--as=12000000000", "rustc", "--edition", "2021", src, "--extern", "bondrewd=" + self.rlib, "-L", "dependency=" + deps,
               "--error-format=json", "--cap-lints=warn", "-A", "warnings", "-C", "codegen-units=1", "-C", "opt-level=%s" % opt,
               "-C", "overflow-checks=on", "-C", "debug-assertions=off", "--emit=" + emit, "-o", out] + list(extra)
        r = subprocess.run(cmd, env=self.env, capture_output=True, text=True)
        errs = []
        for l in r.stderr.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                if r.returncode != 0:
                    errs.append({"message": l, "spans": [], "rendered": l, "level": "error", "code": None})
                continue
            if j.get("level") in ("error", "error: internal compiler error"):
                errs.append(j)
        if r.returncode in (124, 137):
            why = "rustc did not finish in %d s" % limit
            errs.append({"message": why, "spans": [], "rendered": why, "level": "error", "code": None, "late": True})
        return r.returncode == 0, errs

    def llvm(self, src, out, opt=3, limit=240):
        return self.rustc(src, out, "llvm-ir", opt, ["--crate-type", "cdylib", "-C", "panic=abort", "--cfg", "vc_ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], limit)

    def binary(self, src, out):
        return self.rustc(src, out, "link", 0, ["--crate-type", "bin"])


def span_lines(diag):
    """source lines of the outermost macro call sites of a diagnostic"""
    out = []
    for s in diag.get("spans", []):
        while s.get("expansion"):
            s = s["expansion"]["span"]
        out.append((s.get("is_primary", True), s["file_name"], s["line_start"]))
    if not out:
        for c in diag.get("children", []):
            out += span_lines(c)
    prim = [x for x in out if x[0]]
    return prim or out
