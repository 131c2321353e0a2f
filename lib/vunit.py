"""A proof unit: one Verus file generated from the current source text.

A unit is a sequence of labelled parts: specification text (hand written,
in contracts/), items extracted from /repo, lemmas, and functions from
/repo with their contracts.  It is rendered twice:

  verify   every function and lemma is checked against its contract;
  vacuity  every function is replaced by its contract alone, and a twin
           `f__vac` with the same body, the same preconditions and the
           postcondition `false` is checked instead: it must FAIL.  A twin
           that verifies means contradictory preconditions or assumptions.
"""
import copy
import json
import os
import re
import subprocess
import time

from rustx import Fn, Lost  # noqa: F401

VERUS = "verus"


class Part:
    __slots__ = ("text", "label", "kind", "origin")

    def __init__(self, text, label, kind, origin=None):
        self.text, self.label, self.kind, self.origin = text, label, kind, origin


class FnPart:
    def __init__(self, f, origin, impl, req, ens, dec, mode, attrs, ret, vac_impl, vac, extra, props):
        self.f, self.origin, self.impl, self.req, self.ens, self.dec = f, origin, impl, req, ens, dec
        self.mode, self.attrs, self.ret, self.vac_impl, self.vac = mode, attrs, ret, vac_impl, vac
        self.extra = extra
        self.props = props

    def bare_closures(self):
        """Closures of the function that carry no contract: nothing is known about what they return."""
        f, n = self.f, []
        T = f.toks
        for a, b, ba, bk in f.closures:
            if T[ba].s in ("->", "requires", "ensures"):
                continue
            if any(x <= T[a].a < y for x, y, _ in f.reps):
                continue
            if a >= 2 and T[a - 2].s == "map_err":
                continue
            n.append(f.text[T[a].a:T[bk].a])
        return n

    def clauses(self, ens):
        out = []
        if self.req:
            out.append("    requires\n" + "".join("        %s,\n" % r for r in self.req))
        if ens:
            out.append("    ensures\n" + "".join("        %s,\n" % r for r in ens))
        if self.dec:
            out.append("    decreases %s,\n" % self.dec)
        if self.extra:
            out.append(self.extra)
        return "".join(out)

    def wrapped(self, txt, impl):
        return "%s {\n%s\n}\n" % (impl, txt) if impl else txt + "\n"

    def full(self, ens=None, rename=None, external=False):
        f = copy.deepcopy(self.f)
        if self.ret and f.ret is not None:
            f.name_ret(self.ret)
        if rename:
            f.rename(rename)
        c = self.clauses(self.ens if ens is None else ens)
        if c:
            f.spec(c)
        # a twin has to fail; running out of resources counts as failing, so it gets few
        attrs = "".join("#[%s]\n" % (re.sub(r"rlimit\(\d+\)", "rlimit(5)", a) if rename else a) for a in self.attrs)
        if external:
            return "#[verifier::external_body]\n" + f.signature_only()
        return attrs + f.render()


class Unit:
    def __init__(self, name):
        self.name = name
        self.parts = []
        self.rewrites = []      # documented mechanical rewritings
        self.assumed = []       # assumed contracts / trusted items
        self.dropped = []       # what the extraction leaves out
        self.group = None

    # -- building ------------------------------------------------------
    def raw(self, text, label="spec"):
        self.parts.append(Part(text.rstrip() + "\n\n", label, "raw"))

    def item(self, text, origin):
        self.parts.append(Part(text.rstrip() + "\n\n", origin, "item", origin))

    def lemma(self, text):
        m = re.search(r"\bproof\s+fn\s+(\w+)", text)
        self.parts.append(Part(text.rstrip() + "\n\n", m.group(1), "lemma"))

    def lemmas(self, text):
        """Several lemmas, each starting at column 0 with an optional attribute."""
        chunks = re.split(r"(?m)^(?=(?:#\[[^\n]*\]\n)*(?:broadcast )?proof fn )", text)
        for c in chunks:
            if c.strip():
                if "proof fn" in c:
                    self.lemma(c)
                else:
                    self.raw(c)

    def fn(self, f, origin, impl=None, req=(), ens=(), dec=None, mode="verify", attrs=(), ret="r",
           vac_impl=None, vac=True, extra="", props=()):
        self.parts.append(FnPart(f, origin, impl, list(req), list(ens), dec, mode, list(attrs), ret,
                                 vac_impl or impl, vac, extra, list(props)))

    def open(self, text):
        self.parts.append(Part(text + "\n", "impl", "open"))

    def close(self):
        self.parts.append(Part("}\n\n", "impl", "close"))

    @staticmethod
    def label(p):
        return (re.sub(r"^impl\s*", "", p.impl) + "::" if p.impl else "") + p.f.name

    # -- rendering -----------------------------------------------------
    def render(self, vacuity=False):
        out, spans, pos = [], [], 0

        def emit(text, label, kind, origin=None):
            nonlocal pos
            b = len(text.encode())
            spans.append((pos, pos + b, label, kind, origin))
            out.append(text)
            pos += b

        emit("#![allow(unused)]\n#![allow(non_camel_case_types)]\n#![allow(non_snake_case)]\nuse vstd::prelude::*;\n"
             "verus! {\n", "prelude", "raw")
        twins = []
        in_group = False
        for p in self.parts:
            if isinstance(p, Part):
                if p.kind == "open":
                    in_group = True
                t = p.text
                if p.kind == "close":
                    in_group = False
                if vacuity and p.kind == "lemma":
                    k = re.search(r"(?m)^(broadcast )?proof fn", t).start()
                    t = t[:k] + "#[verifier::external_body]\n" + t[k:]
                emit(t, p.label, p.kind, p.origin)
                continue
            label = self.label(p)
            if p.mode == "assume" or vacuity:
                emit(p.wrapped(p.full(external=True), None if in_group else p.impl), label, "assumed", p.origin)
                if vacuity and p.mode != "assume" and p.vac:
                    twins.append(p)
            else:
                emit(p.wrapped(p.full(), None if in_group else p.impl), label, "fn", p.origin)
        for p in twins:
            label = p.f.name + "__vac"
            emit(p.wrapped(p.full(ens=["false"], rename=label), p.vac_impl),
                 (re.sub(r"^impl\s*", "", p.vac_impl) + "::" if p.vac_impl else "") + label, "vac", p.origin)
        emit("} // verus!\nfn main() {}\n", "end", "raw")
        return "".join(out), spans

    def functions(self):
        return [p for p in self.parts if isinstance(p, FnPart)]


OBLIG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division by zero|possible bit shift|decreases not satisfied|requires not satisfied|"
    r"termination|bitvector|bit.vector|split (assertion|precondition|postcondition) failure|cannot prove|could not prove|"
    r"unreachable|index out of|ensures not satisfied|failed this|loop ensures|recursive", re.I)
LIMIT = re.compile(r"resource limit|rlimit|not supported|unsupported|timed out|could not prove termination", re.I)


class Result:
    def __init__(self):
        self.tool = []        # tool-limit messages
        self.failed = []      # dicts: function, origin, obligation, at
        self.functions = []   # dicts: name, mode, ms, success
        self.wall = 0.0
        self.smt_ms = 0
        self.cmd = ""
        self.output = ""
        self.limited = set()


def run_verus(text, spans, path, threads=4, rlimit=None, timeout=600, errors=3):
    r = Result()
    with open(path, "w") as fh:
        fh.write(text)
    cmd = [VERUS, path, "--output-json", "--time-expanded", "--multiple-errors", str(errors),
           "--num-threads", str(threads)]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += ["--", "--error-format=json"]
    r.cmd = " ".join(cmd)
    t0 = time.time()
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=os.path.dirname(path), env=env)
    except subprocess.TimeoutExpired:
        r.tool.append("verus: no answer in %d s" % timeout)
        r.wall = time.time() - t0
        return r
    except OSError as e:
        r.tool.append("verus: %s" % e)
        return r
    r.wall = time.time() - t0
    data = text.encode()
    rendered = []
    for line in p.stderr.decode(errors="replace").splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            if line.strip():
                rendered.append(line)
            continue
        if d.get("level") not in ("error", "error: internal compiler error"):
            continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        rendered.append(d.get("rendered") or msg)
        prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        # the function that was being checked: where the return or the call is, not where the clause is
        rest = [x for x in d["spans"] if not x["is_primary"]]
        order = rest + prim if "postcondition" in msg else prim + rest
        label = origin = None
        for sp in order:
            for a, b, lb, kind, og in spans:
                if a <= sp["byte_start"] < b and kind in ("fn", "lemma", "vac"):
                    label, origin = lb, og
                    break
            if label:
                break
        texts = []
        for s in prim + [s for s in d["spans"] if s not in prim]:
            t = data[s["byte_start"]:s["byte_end"]].decode(errors="replace")
            texts.append(" ".join(t.split())[:300])
        if LIMIT.search(msg) or not OBLIG.search(msg):
            r.tool.append("%s: %s%s" % (label, msg, " at `%s`" % texts[0] if texts else ""))
            if label:
                r.limited.add(label)
        else:
            r.failed.append({"function": label, "origin": origin, "obligation": msg,
                             "at": texts[0] if texts else "", "also": texts[1:]})
    r.output = "\n".join(rendered)
    try:
        js = json.loads(p.stdout.decode(errors="replace"))
        vr = js.get("verification-results", {})
        for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                r.functions.append({"name": fb["function"].split("::", 1)[-1], "mode": fb.get("mode:") or fb.get("mode"),
                                    "ms": fb["time-micros"] / 1000.0, "success": fb["success"]})
            r.smt_ms += m.get("time", 0)
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        if not vr.get("success") and not r.failed and not r.tool:
            r.tool.append("verus: failed without a diagnostic: " + p.stderr.decode(errors="replace")[-500:])
    except ValueError:
        if not r.tool:
            r.tool.append("verus: no JSON output: " + p.stderr.decode(errors="replace")[-500:])
    if p.returncode != 0 and not r.failed and not r.tool:
        r.tool.append("verus: exit %d" % p.returncode)
    return r
