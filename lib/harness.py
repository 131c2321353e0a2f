"""Builds and runs the concrete harness: a scratch copy of /repo's crate with the
harness files added as modules, so that it calls the current code."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "spec"))
import isatab  # noqa: E402


def isa_rust():
    """The ISA table as Rust (reference encoder, decoder, constructors)."""
    o = ["// generated from spec/isatab.py", "use crate::instruction::Instr;", "pub type I = Instr<i32, u8>;",
         "pub static FORMS: &[(&str, &[&str])] = &["]
    for n, (k, _) in isatab.FORMS.items():
        o.append('    ("%s", &[%s]),' % (n, ", ".join('"%s"' % x for x in k)))
    o.append("];")
    o.append("pub fn range(k: &str) -> (i32, i32) { match k {")
    for k, (a, b) in isatab.RANGE.items():
        o.append('    "%s" => (%d, %d),' % (k, a, b))
    o.append('    _ => unreachable!() } }')
    o.append("pub fn ref_encode(f: usize, o: [i32; 3]) -> Vec<u8> { match f {")
    import re
    def conv(e):
        """operands first reduced to non-negative, so that `/` and `%` agree with Euclid's"""
        return re.sub(r"o(\d)", r"((o[\1] + 65536) % 65536)", e)
    for i, (n, (k, fs)) in enumerate(isatab.FORMS.items()):
        o.append("    %d => vec![%s]," % (i, ", ".join("(%s) as u8" % conv(x) for x in fs)))
    o.append("    _ => unreachable!() } }")
    o.append("pub fn make(f: usize, o: [i32; 3]) -> I { match f {")
    for i, (n, (k, fs)) in enumerate(isatab.FORMS.items()):
        a = ", ".join("o[%d]%s" % (x, " as u8" if kk == "ri" else "") for x, kk in enumerate(k))
        o.append("    %d => Instr::%s%s," % (i, n, "(%s)" % a if k else ""))
    o.append("    _ => unreachable!() } }")
    o.append("pub fn parts(i: &I) -> (usize, [i32; 3]) { match i {")
    for i, (n, (k, fs)) in enumerate(isatab.FORMS.items()):
        pat = "(%s)" % ", ".join("p%d" % x for x in range(len(k))) if k else ""
        vals = ["*p%d%s" % (x, " as i32" if kk == "ri" else "") for x, kk in enumerate(k)] + ["0"] * (3 - len(k))
        o.append("    Instr::%s%s => (%d, [%s])," % (n, pat, i, ", ".join(vals)))
    o.append("} }")
    t = isatab.table()
    o.append("pub static OPCODE: [i16; 256] = [%s];" % ", ".join(
        str(list(isatab.FORMS).index(t[x])) if x in t else "-1" for x in range(256)))
    o.append("pub static LEN: &[usize] = &[%s];" % ", ".join(str(len(fs)) for _, fs in isatab.FORMS.values()))
    # reference decoder: invert the formulas bit by bit is what the table's formulas give: search per operand kind
    o.append("""/// what the bytes decode to, or None when they end before the instruction does
pub fn ref_decode(b: &[u8]) -> Option<(usize, [i32; 3])> {
    if b.is_empty() { return None; }
    let f = OPCODE[b[0] as usize];
    if f < 0 { return None; }
    let f = f as usize;
    if b.len() < LEN[f] { return None; }
    let b0 = b[0] as i32;
    let b1 = *b.get(1).unwrap_or(&0) as i32;
    let b2 = *b.get(2).unwrap_or(&0) as i32;
    let s8 = |x: i32| if x < 128 { x } else { x - 256 };
    let s16 = |x: i32| if x < 32768 { x } else { x - 65536 };
    let o = match f {""")
    for i, (n, (k, fs)) in enumerate(isatab.FORMS.items()):
        o.append("        %d => [%s], // %s" % (i, ", ".join(_inverse(n, k, fs)), n))
    o.append("        _ => unreachable!(),\n    };\n    Some((f, o))\n}")
    return "\n".join(o) + "\n"


def _inverse(n, kinds, fs):
    """Rust expressions of the operands in terms of b0..b2; written per operand kind."""
    out = []
    for x, k in enumerate(kinds):
        where = [q for q, f in enumerate(fs) if "o%d" % x in f]
        if k == "i8":
            out.append("b%d" % where[0])
        elif k == "ri":
            out.append("b0 %% 4")
            out[-1] = "b0 % 4"
        elif k == "b3":
            out.append("b0 % 8")
        elif k == "r8":
            out.append("s8(b%d)" % where[0])
        elif k == "r16":
            out.append("s16(b1 + 256 * b2)")
        elif k == "a16":
            out.append("256 * b1 + b2")
        elif k == "a12":
            out.append("2048 * (b0 / 16 % 2) + 256 * (b0 % 8) + b1")
        elif k == "d9":
            low = [q for q in where if q > 0][0]
            bit = "b0 / 16 % 2" if "16 * (o%d / 256)" % x in fs[0] else "b0 % 2"
            out.append("256 * (%s) + b%d" % (bit, low))
    return out + ["0"] * (3 - len(kinds))


class Built:
    def __init__(self, exe, work):
        self.exe, self.work = exe, work


def build(repo, work, prop, env, extra_mods=()):
    """Returns (Built, None) or (None, reason)."""
    crate = os.path.join(work, "hx")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(crate)
    for x in os.listdir(repo):
        if x in ("target", ".git", "tests", "libwaterbear", "local"):
            continue
        s = os.path.join(repo, x)
        d = os.path.join(crate, x)
        if os.path.isdir(s):
            shutil.copytree(s, d, ignore=shutil.ignore_patterns("target", ".git"))
        else:
            shutil.copy(s, d)
    gen = os.path.join(crate, "vh_isa.rs")
    open(gen, "w").write(isa_rust())
    h = os.path.join(VERIF, "harness")
    lib = os.path.join(crate, "src/lib.rs")
    t = open(lib).read()
    t += '\n#[path = "%s"]\npub mod vh_isa;\n#[path = "%s"]\npub mod vh_core;\n#[path = "%s"]\npub mod vh_prop;\n' % (
        gen, os.path.join(h, "core.rs"), os.path.join(h, prop.lower() + ".rs"))
    for name, path in [("vh_model", "model.rs")] + list(extra_mods):
        t += '#[path = "%s"]\npub mod %s;\n' % (os.path.join(h, path), name)
    open(lib, "w").write(t)
    open(os.path.join(crate, "src/main.rs"), "w").write("fn main() { waterbear::vh_core::main() }\n")
    cargo = os.path.join(crate, "Cargo.toml")
    t = open(cargo).read()
    t += "\n[profile.dev]\nopt-level = 1\noverflow-checks = true\ndebug-assertions = true\ndebug = false\n\n[workspace]\n"
    open(cargo, "w").write(t)
    tgt = os.path.join(work, "hx-target")
    try:
        p = subprocess.run(["cargo", "build", "-q", "--offline"], cwd=crate,
                           env=dict(env, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "harness: build took more than 600 s"
    if p.returncode != 0:
        return None, "harness: does not build against this source: " + p.stdout[-1500:]
    return Built(os.path.join(tgt, "debug/waterbear"), work), None


def run(b, prop, seed, tier, budget, timeout):
    d = os.path.join(b.work, "cases")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t0 = time.time()
    cmd = [b.exe, prop, str(seed), tier, d, str(budget)]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = p.stdout.decode(errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace")
        rc = "timeout"
    rep = None
    for line in out.splitlines():
        if line.startswith("VHREPORT "):
            rep = json.loads(line[9:])
    wall = time.time() - t0
    if rep is None:
        # the process died: the last case is on disk
        case = ""
        for f in ("case.s", "case.txt"):
            q = os.path.join(d, f)
            if os.path.exists(q):
                case = open(q, errors="replace").read()[:20000]
                break
        if "VHCRASH" in out or not case or (rc == "timeout"):
            return None, "harness: no report (exit %s) %s" % (rc, out[-300:]), wall
        rep = {"cases": 0, "distinct_nontrivial": 0, "exhaustive": False, "rule": "", "samples": [],
               "failures": [{"what": "does not terminate" if "VHHANG" in out else "the process died (%s)" % rc, "input": case,
                             "expected": "a result or an error", "actual": "exit %s" % rc}]}
    return rep, None, wall
