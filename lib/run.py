"""Runs the check of one property and writes its evidence."""
import concurrent.futures
import fcntl
import importlib
import json
import os
import re
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for d in ("lib", "contracts", "spec"):
    p = os.path.join(VERIF, d)
    if p not in sys.path:
        sys.path.insert(0, p)

import derive  # noqa: E402
import harness  # noqa: E402
import kani  # noqa: E402
import vunit  # noqa: E402
from props import PROPS  # noqa: E402
from rustx import Lost, Source  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


def cargo_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTC_WRAPPER", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


class Ctx:
    def __init__(self, work):
        self.work = work
        self.env = cargo_env()
        self.srcs = {}
        self._gen = None
        for root in ("src", "waterbear-instruction-derive/src"):
            for f in sorted(os.listdir(os.path.join(REPO, root))):
                if f.endswith(".rs"):
                    n = root + "/" + f
                    self.srcs[n] = LazySource(os.path.join(REPO, n), n)

    def gen(self):
        if self._gen is None:
            self._gen = derive.generate(REPO, self.work, self.env, self.srcs["src/instruction.rs"])
        return self._gen


class LazySource:
    """Parsed on first use, so that an unparsable file only affects the units that need it."""

    def __init__(self, path, name):
        self.path, self.name, self._s = path, name, None

    def __getattr__(self, k):
        s = self.__dict__.get("_s")
        if s is None:
            try:
                s = Source(open(self.path).read(), self.name)
            except Lost:
                raise
            except Exception as e:
                raise Lost("%s: cannot be parsed: %s" % (self.name, e))
            self.__dict__["_s"] = s
        return getattr(s, k)


class GenProxy:
    def __init__(self, ctx):
        self.ctx = ctx

    def find(self, *a):
        return self.ctx.gen().find(*a)


def run_unit(ctx, modname, fname, threads):
    """-> dict describing the unit's outcome"""
    res = {"unit": fname if fname != "build" else modname, "status": "ok", "failed": [], "tool": [], "functions": [],
           "assumed": [], "rewrites": [], "dropped": [], "trusted": [], "obligations": 0, "discharged": 0,
           "smt_ms": 0, "wall": 0.0, "twins": 0, "cmd": "", "output": "", "limited": []}
    try:
        m = importlib.import_module(modname)
        u = getattr(m, fname)(ctx.srcs, GenProxy(ctx))
        text, spans = u.render()
        vtext, vspans = u.render(vacuity=True)
    except Lost as e:
        res["status"] = "tool"
        res["tool"].append("extraction: %s" % e)
        return res
    except Exception as e:  # an edit that the extraction did not foresee
        res["status"] = "tool"
        res["tool"].append("extraction: %s: %s" % (type(e).__name__, e))
        res["output"] = traceback.format_exc()
        return res
    base = os.path.join(ctx.work, "%s_%s" % (modname, fname))
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(vunit.run_verus, text, spans, base + ".rs", threads)
        b = ex.submit(vunit.run_verus, vtext, vspans, base + "_vac.rs", threads, None, 600, 0)
        r, v = a.result(), b.result()
    res.update(wall=max(r.wall, v.wall), smt_ms=r.smt_ms, cmd=r.cmd, output=r.output, assumed=u.assumed,
               rewrites=u.rewrites, dropped=u.dropped)
    # a closure without a contract says nothing about its result: the contracts do not fit such a function
    bare = {u.label(p): p.bare_closures() for p in u.functions() if p.mode == "verify"}
    for f in r.failed:
        if bare.get(f["function"]):
            r.tool.append("%s: %s, in a function with a closure that has no contract: `%s`" % (
                f["function"], f["obligation"], " ".join(bare[f["function"]][0].split())[:120]))
    res["failed"], res["tool"] = [f for f in r.failed if not bare.get(f["function"])], r.tool
    res["limited"] = sorted(x for x in r.limited if x)
    res["obligations"] = getattr(r, "verified", 0) + getattr(r, "errors", 0)
    res["discharged"] = getattr(r, "verified", 0)
    res["functions"] = sorted({"%s (%s)" % (p.f.name, p.origin) for p in u.functions() if p.mode == "verify"})
    res["trusted"] = trusted(text)
    # must-fail twins
    want = {s[2] for s in vspans if s[3] == "vac"}
    got = {f["function"] for f in v.failed} | {x for x in v.limited}
    res["twins"] = len(want)
    if v.tool and not v.failed:
        if not r.tool:
            res["tool"].append("must-fail twins: " + v.tool[0])
    else:
        vac = sorted(want - got)
        if vac and not res["failed"]:
            res["tool"].append("vacuous contracts: " + ", ".join(vac))
    if res["obligations"] == 0 and not res["tool"]:
        res["tool"].append("no obligations were generated")
    res["status"] = "failed" if res["failed"] else ("tool" if res["tool"] else "ok")
    return res


def trusted(text):
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:broadcast\s+)?(?:proof\s+|spec\s+|uninterp\s+)*(?:fn|struct|enum)\s+\w+|impl[^{]*)", text):
        out.append("external_body: " + " ".join(m.group(1).split()))
    for m in re.finditer(r"assume_specification[^;{]*", text):
        out.append(" ".join(m.group(0).split())[:160])
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append(m.group(1))
    for m in re.finditer(r"axiom fn (\w+)", text):
        out.append("axiom: " + m.group(1))
    return sorted(set(out))


def replay_file(pid, n, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    json.dump(data, open(p, "w"), indent=1)
    return p


def known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    for line in open(p):
        m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[pid]
    build = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
    os.makedirs(build, exist_ok=True)
    lock = open(os.path.join(build, "lock-" + pid), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    work = os.path.join(build, pid)
    os.makedirs(work, exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    ctx = Ctx(work)
    budget = spec.get("budget", 20) * (12 if tier == "thorough" else 1)

    def do_harness():
        if not spec.get("harness", True):
            return None, None, 0
        b, why = harness.build(REPO, work, pid, ctx.env)
        if b is None:
            return None, why, 0
        return harness.run(b, pid, seed, tier, budget, budget * 3 + 200)

    units = spec.get("units", [])
    # the derive driver is shared by the units; build it before they start
    if spec.get("derive"):
        try:
            ctx.gen()
        except Exception as e:
            ctx._gen_error = str(e)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        h = ex.submit(do_harness)
        us = [ex.submit(run_unit, ctx, m, f, 4) for m, f in units]
        ks = [ex.submit(kani.run, ctx, k) for k in spec.get("kani", [])]
        ur = [u.result() for u in us]
        kr = [k.result() for k in ks]
        rep, hwhy, hwall = h.result()
    decide(pid, tier, seed, spec, ur, kr, rep, hwhy, hwall, t0, ev)
    return decide.code


def decide(pid, tier, seed, spec, ur, kr, rep, hwhy, hwall, t0, ev):
    decide.code = 0
    failed = [dict(f, unit=u["unit"]) for u in ur for f in u["failed"]]
    failed += [dict(f, unit=k["unit"]) for k in kr for f in k["failed"]]
    tool = ["%s: %s" % (u["unit"], t) for u in ur for t in u["tool"]] + ["%s: %s" % (k["unit"], t) for k in kr for t in k["tool"]]
    lines = []
    nviol = 0
    fails = list(rep["failures"]) if rep else []
    kn = known(pid)
    for key, text in kn:
        hit = [f for f in fails if f["what"] == key]
        fails = [f for f in fails if f["what"] != key]
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))
        _ = hit
    cmd = "VERIF_SEED=%d python3 check.py %s %s" % (seed, pid, tier)
    if fails:
        f = fails[0]
        p = replay_file(pid, 1, {"property": pid, "kind": "failing input, run against the real code", "input": f,
                                 "more": fails[1:], "failed_obligations": failed[:20], "rerun": cmd})
        print("%s: input: %s" % (f["what"], f["input"][:2000]))
        print("  expected: %s\n  actual:   %s" % (f["expected"][:500], f["actual"][:500]))
        for o in failed[:5]:
            print("failed obligation: %s: %s: %s" % (o["function"], o["obligation"], o["at"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        nviol = len(fails)
        decide.code = 1
    elif failed:
        if rep and rep.get("exhaustive") and spec.get("complete"):
            print("NOTE property=%s: %d obligations not discharged, but the complete enumeration of the property's "
                  "domain found no violation: the contracts do not fit this source" % (pid, len(failed)))
            tool.append("obligations not discharged: " + "; ".join("%s: %s" % (o["function"], o["obligation"]) for o in failed[:10]))
        else:
            p = replay_file(pid, 1, {"property": pid, "kind": "failed proof obligation, no failing input found",
                                     "failed_obligations": failed[:40],
                                     "verifier_output": "\n".join(u["output"] for u in ur)[:20000], "rerun": cmd})
            for o in failed[:10]:
                print("failed obligation: %s (%s): %s: %s" % (o["function"], o.get("origin"), o["obligation"], o["at"]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
            nviol = len(failed)
            decide.code = 1
    proved = not failed and not tool and (ur or kr)
    if tool and decide.code == 0:
        for t in tool[:6]:
            print("NOTE property=%s not decided by proof on this source: %s" % (pid, t[:400]))
        print("NOTE property=%s: the bounded stand-in decides (%s)" % (
            pid, "%d cases, no violation" % rep["cases"] if rep else "not available: %s" % hwhy))
    if rep is None and hwhy:
        print("NOTE property=%s %s" % (pid, hwhy[:600]))
    assumptions = sorted({a for u in ur for a in u["assumed"]} | set(spec.get("assume", [])))
    for u in ur:
        assumptions += ["%s: %s" % (u["unit"], t) for t in u["trusted"]]
        assumptions += ["%s: extraction drops: %s" % (u["unit"], t) for t in u["dropped"]]
        assumptions += ["%s: mechanical rewriting: %s" % (u["unit"], t) for t in u["rewrites"]]
    cov = {
        "obligations": sum(u["obligations"] for u in ur) + sum(k["obligations"] for k in kr),
        "discharged": sum(u["discharged"] for u in ur) + sum(k["discharged"] for k in kr),
        "checker_cmd": "; ".join([u["cmd"] for u in ur if u["cmd"]] + [k["cmd"] for k in kr if k["cmd"]]) or "none",
        "trusted_base": ["Verus 0.2026.09.13 and Z3", "the extraction in lib/rustx.py", "rustc"] +
                        (["Kani 0.68 and CBMC"] if kr else []) + spec.get("trusted", []),
        "functions_under_contract": sorted({f for u in ur for f in u["functions"]} | {f for k in kr for f in k["functions"]}),
        "must_fail_twins": sum(u["twins"] for u in ur),
        "solver_ms": sum(u["smt_ms"] for u in ur),
        "units": [{k: u[k] for k in ("unit", "status", "obligations", "discharged", "smt_ms", "wall", "twins", "tool")} for u in ur] +
                 [{k: u[k] for k in ("unit", "status", "obligations", "discharged", "wall", "tool")} for u in kr],
        "not_proved": spec.get("unproved", []),
        "decided_by": "proof" if proved else "bounded search",
    }
    if rep:
        cov["bounded_search"] = {"evaluations": rep["cases"], "distinct_nontrivial": rep["distinct_nontrivial"],
                                 "rule": rep["rule"], "samples": rep["samples"], "exhaustive": rep["exhaustive"],
                                 "wall_s": round(hwall, 2),
                                 "note": "labelled bounded: run against the real code, not counted as proved"}
        cov["evaluations"] = rep["cases"]
        cov["distinct_nontrivial"] = rep["distinct_nontrivial"]
        cov["rule"] = rep["rule"]
        cov["samples"] = rep["samples"]
    level = "proof" if proved else "exploration" if rep else "other"
    if level == "other":
        cov["explanation"] = "; ".join(tool + [hwhy or ""])[:2000]
    if spec.get("level") and level == "proof":
        level = spec["level"]
        cov["explanation"] = spec.get("explanation", "")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol},
              open(ev, "w"), indent=1)
    print("property=%s tier=%s: %d of %d obligations discharged in %d functions, %d must-fail twins; %s; %.0f s" % (
        pid, tier, cov["discharged"], cov["obligations"], len(cov["functions_under_contract"]), cov["must_fail_twins"],
        "bounded search: %d cases" % rep["cases"] if rep else "no bounded search", time.time() - t0))
    for x in lines:
        print(x)
