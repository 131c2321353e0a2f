"""Loop-free functions that Verus cannot take, proved by Kani over their whole domain on the extracted text."""
import os
import shutil
import subprocess
import sys
import time

from rustx import Fn, Lost, Source, strip_item

CARGO = """[package]
name = "kx"
version = "0.1.0"
edition = "2018"
[workspace]
"""


def rel_text(ctx):
    src = ctx.srcs["src/instruction.rs"]
    f = Fn(src.find("fn decode_from_raw").text)
    inner = Source(f.text[f.toks[f.ibody].b:f.toks[f.iend].a], "decode_from_raw")
    out = []
    for nm in ("rel16", "rel8"):
        out.append(inner.find("fn " + nm).text)
    out.append("""
#[cfg(kani)]
#[kani::proof]
fn check_rel16() { let x: i32 = kani::any(); kani::assume(0 <= x && x < 65536);
    assert!(rel16(x) == if x < 32768 { x } else { x - 65536 }); kani::cover!(true); }
#[cfg(kani)]
#[kani::proof]
fn check_rel8() { let x: i32 = kani::any(); kani::assume(0 <= x && x < 256);
    assert!(rel8(x) == if x < 128 { x } else { x - 256 }); kani::cover!(true); }
""")
    return "\n".join(out), ["check_rel16", "check_rel8"], [
        "rel16 (src/instruction.rs: decode_from_raw::rel16, by Kani)", "rel8 (src/instruction.rs: decode_from_raw::rel8, by Kani)"]


def color_text(ctx):
    src = ctx.srcs["src/img.rs"]
    body = src.find("impl Color", "fn scale_channels").text
    return "#[derive(Clone, Copy)]\npub struct Color { pub red: u8, pub green: u8, pub blue: u8, pub alpha: u8 }\nimpl Color {\n" + body + "\n}\n" + """
#[cfg(kani)]
#[kani::proof]
fn check_scale() {
    let c = Color { red: kani::any(), green: kani::any(), blue: kani::any(), alpha: kani::any() };
    let r = c.scale_channels(15);
    let four = |x: u8| ((30 * x as u32 + 255) / 510) as u8;
    assert!(r.red == four(c.red) && r.green == four(c.green) && r.blue == four(c.blue) && r.alpha == four(c.alpha));
    kani::cover!(true);
}
""", ["check_scale"], ["Color::scale_channels (src/img.rs, with max 15, by Kani)"]


TARGETS = {"rel": rel_text, "color": color_text}


def run(ctx, name):
    res = {"unit": "kani:" + name, "status": "ok", "failed": [], "tool": [], "functions": [], "obligations": 0,
           "discharged": 0, "wall": 0.0, "cmd": "", "output": ""}
    t0 = time.time()
    try:
        text, harnesses, fns = TARGETS[name](ctx)
    except Exception as e:
        res["status"] = "tool"
        res["tool"].append("extraction: %s" % e)
        return res
    d = os.path.join(ctx.work, "kani_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO)
    open(os.path.join(d, "src/lib.rs"), "w").write("#![allow(dead_code)]\n" + text)
    env = dict(ctx.env)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "--offline"] if False else ["cargo", "kani"]
    res["cmd"] = " ".join(cmd)
    try:
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = ""
    res["output"] = out[-6000:]
    res["wall"] = time.time() - t0
    res["functions"] = fns
    cur = None
    verdict = {}
    import re
    for line in out.splitlines():
        m = re.match(r"Checking harness (\S+?)\.\.\.", line)
        if m:
            cur = m.group(1).split("::")[-1]
        m = re.match(r"VERIFICATION:- (\w+)", line)
        if m and cur:
            verdict[cur] = m.group(1)
    for h in harnesses:
        res["obligations"] += 1
        v = verdict.get(h)
        if v == "SUCCESSFUL":
            res["discharged"] += 1
        elif v == "FAILED":
            res["failed"].append({"function": h, "origin": fns[harnesses.index(h)], "obligation": "Kani proof harness failed",
                                  "at": "", "also": []})
        else:
            res["tool"].append("no verdict for %s: %s" % (h, out[-300:]))
    res["status"] = "failed" if res["failed"] else "tool" if res["tool"] else "ok"
    return res
