"""Contracts of the instruction encoder and decoder (C01, C02).

The encoder, size and raw decoder are generated by the derive macro from
the bit patterns of the enum; on every run the macro's own code is built
into a driver and applied to the enum in the current source, so that the
text verified is the text rustc compiles.
"""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "spec"))
import isatab as isa  # noqa: E402
from rustx import Fn, Lost, Source, join, lex, match_arms, match_close, norm, strip_item  # noqa: E402
from vunit import Unit  # noqa: E402

I = "Instr<i32, u8>"


def var(n, used=True):
    return "o%d" % n if used else "_"


def arm(name, used):
    kinds, _ = isa.FORMS[name]
    if not kinds:
        return "Instr::%s" % name
    return "Instr::%s(%s)" % (name, ", ".join("o%d" % k if k in used else "_" for k in range(len(kinds))))


def as_int(formula, n):
    for k in range(n):
        formula = formula.replace("o%d" % k, "(o%d as int)" % k)
    return formula


def enc_of(name, vals):
    return "enc_%s(%s)" % (name, ", ".join("%s as int" % v for v in vals))


def rng_req(name, rng=None):
    kinds, _ = isa.FORMS[name]
    r = rng or isa.RANGE
    return ", ".join("%d <= o%d <= %d" % (r[k][0], n, r[k][1]) for n, k in enumerate(kinds))


def ty(k):
    return "u8" if k == "ri" else "i32"


def spec_text(generic_len=True):
    """Spec functions over the instruction enum, from the ISA table."""
    out = []
    out.append("spec fn ilen<Ex, IM>(i: Instr<Ex, IM>) -> nat { match i {")
    for n, (kinds, fs) in isa.FORMS.items():
        out.append("    %s => %d," % (arm(n, ()), len(fs)))
    out.append("} }\n")
    for fname, rng in (("wf", isa.RANGE), ("wf_raw", isa.RAW)):
        out.append("spec fn %s(i: %s) -> bool { match i {" % (fname, I))
        for n, (kinds, fs) in isa.FORMS.items():
            c = " && ".join("%d <= o%d <= %d" % (rng[k][0], x, rng[k][1]) for x, k in enumerate(kinds)) or "true"
            out.append("    %s => %s," % (arm(n, range(len(kinds))), c))
        out.append("} }\n")
    for n, (kinds, fs) in isa.FORMS.items():
        bs = ", ".join("((%s) as u8)" % f for f in fs)
        out.append("#[verifier::opaque]\nspec fn enc_%s(%s) -> Seq<u8> { seq![%s] }" % (
            n, ", ".join("o%d: int" % k for k in range(len(kinds))), bs))
    out.append("spec fn enc(i: %s) -> Seq<u8> { match i {" % I)
    for n, (kinds, fs) in isa.FORMS.items():
        out.append("    %s => %s," % (arm(n, range(len(kinds))), enc_of(n, ["o%d" % k for k in range(len(kinds))])))
    out.append("} }\n")
    t = isa.table()
    out.append("/// documented length of the instruction that starts with opcode b; 0 if unassigned")
    out.append("#[verifier::opaque]\nspec fn oplen(b: u8) -> nat {")
    by = {}
    for o in range(256):
        by.setdefault(len(isa.FORMS[t[o]][1]) if o in t else 0, []).append(o)
    first = True
    for ln, ops in sorted(by.items()):
        # ranges
        rs, k = [], 0
        while k < len(ops):
            j = k
            while j + 1 < len(ops) and ops[j + 1] == ops[j] + 1:
                j += 1
            rs.append("%d <= b <= %d" % (ops[k], ops[j]) if j > k else "b == %d" % ops[k])
            k = j + 1
        if ln == max(by):
            continue
        out.append("    %sif %s { %d }" % ("" if first else "else ", " || ".join(rs), ln))
        first = False
    out.append("    else { %d }\n}\n" % max(by))
    return "\n".join(out)


ENC_LEMMAS = """
/// No two in-range instructions have encodings of which one starts with the other.
proof fn enc_injective(i: Instr<i32, u8>, j: Instr<i32, u8>, s: Seq<u8>, t: Seq<u8>)
    requires wf(i), wf(j), enc(i) + s == enc(j) + t,
    ensures i == j,
{
    let x = enc(i) + s;
    enc_opcode(i);
    enc_opcode(j);
    assert(x[0] == enc(i)[0] && x[0] == enc(j)[0]);
    assert(ilen(i) == ilen(j));
    assert(enc(i) =~= x.subrange(0, ilen(i) as int));
    assert(enc(j) =~= x.subrange(0, ilen(i) as int));
    inj_cases(i, j);
}
"""


DEC_OK = """
/// what the raw decoder returns for non-empty bytes
#[verifier::opaque]
spec fn dec_ok(bytes: Seq<u8>, r: Option<Instr<i32, u8>>) -> bool {
    let n = oplen(bytes[0]);
    &&& r is Some <==> (n >= 1 && n <= bytes.len())
    &&& r is Some ==> wf_raw(r->0) && ilen(r->0) == n && enc(r->0) == bytes.subrange(0, n as int)
}
"""


def opform_text():
    t = isa.table()
    idx = {n: k for k, n in enumerate(isa.FORMS)}
    out = ["spec fn form(i: Instr<i32, u8>) -> int { match i {"]
    for n in isa.FORMS:
        out.append("    %s => %d," % (arm(n, ()), idx[n]))
    out.append("} }")
    out.append("#[verifier::opaque]\nspec fn opform(b: u8) -> int {")
    k = 0
    while k < 256:
        j = k
        while j + 1 < 256 and t.get(j + 1) == t.get(k):
            j += 1
        v = idx[t[k]] if k in t else -1
        out.append("    %s%s { %d }" % ("else " if k else "", "if b <= %d" % j if j < 255 else "", v))
        k = j + 1
    out.append("}")
    return "\n".join(out)


def basic_lemmas():
    """Per form: length and opcode of the encoding; then by cases."""
    idx = {n: k for k, n in enumerate(isa.FORMS)}
    out = []
    for n, (kinds, fs) in isa.FORMS.items():
        ps = ", ".join("o%d: int" % k for k in range(len(kinds)))
        vs = ", ".join("o%d" % k for k in range(len(kinds)))
        req = rng_req(n, isa.RAW) if kinds else ""
        # both the in-range and the raw operand give the same opcode
        lo = ", ".join("%d <= o%d <= %d" % (isa.RANGE[k][0], x, isa.RAW[k][1]) for x, k in enumerate(kinds))
        out.append("proof fn op_%s(%s)\n%s    ensures enc_%s(%s).len() == %d, opform(enc_%s(%s)[0]) == %d, "
                   "oplen(enc_%s(%s)[0]) == %d,\n{ reveal(enc_%s); reveal(opform); reveal(oplen); }\n" % (
                       n, ps, "    requires %s,\n" % lo if lo else "", n, vs, len(fs), n, vs, idx[n], n, vs, len(fs), n))
    out.append("""proof fn enc_opcode(i: Instr<i32, u8>)
    requires wf(i) || wf_raw(i),
    ensures enc(i).len() == ilen(i), 1 <= ilen(i) <= 3, oplen(enc(i)[0]) == ilen(i), opform(enc(i)[0]) == form(i),
{
    match i {""")
    for n, (kinds, fs) in isa.FORMS.items():
        out.append("        %s => op_%s(%s)," % (arm(n, range(len(kinds))), n,
                                                 ", ".join("o%d as int" % k for k in range(len(kinds)))))
    out.append("    }\n}\n")
    return "\n".join(out)


def inj_lemmas():
    """Injectivity: the opcode determines the form, and within a form the bytes determine the operands."""
    out = []
    for n, (kinds, fs) in isa.FORMS.items():
        if not kinds:
            continue
        K = range(len(kinds))
        out.append("proof fn inj_%s(%s)\n    requires %s, %s, enc_%s(%s) == enc_%s(%s),\n    ensures %s,\n{" % (
            n, ", ".join(["o%d: int" % k for k in K] + ["p%d: int" % k for k in K]),
            rng_req(n), rng_req(n).replace("o", "p"),
            n, ", ".join("o%d" % k for k in K), n, ", ".join("p%d" % k for k in K),
            ", ".join("o%d == p%d" % (k, k) for k in K)))
        out.append("    reveal(enc_%s);" % n)
        for q in range(len(fs)):
            for v in "op":
                out.append("    assert(enc_%s(%s)[%d] == ((%s) as u8));" % (
                    n, ", ".join("%s%d" % (v, k) for k in K), q, fs[q].replace("o", v)))
        out.append("}\n")
    out.append("""proof fn inj_cases(i: Instr<i32, u8>, j: Instr<i32, u8>)
    requires wf(i), wf(j), enc(i) == enc(j),
    ensures i == j,
{
    enc_opcode(i);
    enc_opcode(j);
    match i {""")
    for n, (kinds, fs) in isa.FORMS.items():
        K = range(len(kinds))
        if not kinds:
            out.append("        %s => { assert(j is %s); }" % (arm(n, ()), n))
        else:
            out.append("        %s => { assert(j is %s); if let Instr::%s(%s) = j { inj_%s(%s); } }" % (
                arm(n, K), n, n, ", ".join("p%d" % k for k in K), n,
                ", ".join(["o%d as int" % k for k in K] + ["p%d as int" % k for k in K])))
    out.append("    }\n}\n")
    return "\n".join(out)


def wrap_lemmas():
    """Sign extension does not change the bytes."""
    out = ["spec fn sext(x: int, m: int) -> int { if x < m / 2 { x } else { x - m } }\n"]
    cases = []
    for n, (kinds, fs) in isa.FORMS.items():
        if not any(k in ("r8", "r16") for k in kinds):
            continue
        K = range(len(kinds))
        w = ["sext(o%d, %d)" % (x, 256 if k == "r8" else 65536) if k in ("r8", "r16") else "o%d" % x
             for x, k in enumerate(kinds)]
        out.append("proof fn wrap_%s(%s)\n    requires %s,\n    ensures enc_%s(%s) == enc_%s(%s),\n"
                   "{ reveal(enc_%s); assert(enc_%s(%s) =~= enc_%s(%s)); }\n" % (
                       n, ", ".join("o%d: int" % k for k in K), rng_req(n, isa.RAW),
                       n, ", ".join(w), n, ", ".join("o%d" % k for k in K),
                       n, n, ", ".join(w), n, ", ".join("o%d" % k for k in K)))
        cases.append("        %s => wrap_%s(%s)," % (arm(n, K), n, ", ".join("o%d as int" % k for k in K)))
    return "\n".join(out), "\n".join(cases)


def enum_item(src):
    it = src.find("enum Instr")
    # drop the macro-only attributes; the variants stay as written
    return strip_item(it.text)


def inner(toks):
    return " ".join(t.s for t in toks)


def encode_fn(gen):
    """The generated encoder; each arm calls a lemma, generated from the arm's own byte expressions,
    that those bytes are the documented ones."""
    lemmas = []
    f = Fn(gen.find("impl Instr<i32,u8>", "fn encode").text)
    T = f.toks
    m = next(i for i in range(f.ibody, f.iend) if T[i].s == "match")
    op = next(i for i in range(m, f.iend) if T[i].s == "{")
    for (p0, p1), guard, (b0, b1) in match_arms(T, op):
        name = T[p0 + 2].s
        if name not in isa.FORMS:
            raise Lost("encode: unknown form " + name)
        kinds, fs = isa.FORMS[name]
        vs = [t.s for t in T[p0 + 3:p1] if t.k == "id"]
        if T[b0].s != "vec" or T[b0 + 2].s != "[":
            raise Lost("encode: arm of %s is not a vec! literal" % name)
        c = match_close(T, b0 + 2)
        exprs, s, d = [], b0 + 3, 0
        i = b0 + 3
        while i < c:
            if T[i].s in "([":
                i = match_close(T, i)
            elif T[i].s == ",":
                exprs.append((s, i))
                s = i + 1
            i += 1
        if s < c:
            exprs.append((s, c))
        if len(exprs) != len(fs) or len(vs) != len(kinds):
            continue   # the postcondition fails by itself
        texts = []
        proofs = []
        for (a, b), fo in zip(exprs, fs):
            toks, k = [], a
            while k < b:
                if T[k].s == "*" and k + 1 < b and T[k + 1].s in vs and T[k - 1].s in ("(", "+", "|", "&", "[", ","):
                    toks.append(("o%d" % vs.index(T[k + 1].s), None))
                    k += 2
                    continue
                toks.append((T[k].s, T[k]))
                k += 1
            toks = join(toks)
            texts.append(toks)
            used = [n for n in range(len(kinds)) if "o%d" % n in fo or "o%d" % n in toks]
            if used:
                rq = ", ".join("%d <= o%d <= %d" % (isa.RANGE[kinds[n]][0], n, isa.RANGE[kinds[n]][1]) for n in used)
                proofs.append("    assert((%s) as int == (%s)) by (bit_vector) requires %s;" % (
                    toks, as_int(fo, len(kinds)), rq))
        lemmas.append("proof fn encode_%s(%s)\n%s    ensures seq![%s] == %s,\n{\n    reveal(enc_%s);\n%s\n    "
                      "assert(seq![%s] =~= %s);\n}\n" % (
                          name, ", ".join("o%d: %s" % (n, ty(k)) for n, k in enumerate(kinds)),
                          "    requires %s,\n" % rng_req(name) if kinds else "",
                          ", ".join(texts), enc_of(name, ["o%d" % k for k in range(len(kinds))]), name,
                          "\n".join(proofs), ", ".join(texts),
                          enc_of(name, ["o%d" % k for k in range(len(kinds))])))
        f.ins(T[b0].a, "{ proof { encode_%s(%s); } let vx_v = " % (name, ", ".join("*" + v for v in vs)), 3)
        f.ins(T[b1 - 1].b, "; proof { assert(vx_v@ =~= seq![%s]); } vx_v }" % ", ".join(
            f.text[T[a].a:T[b - 1].b] for a, b in exprs), -3)
    return f, "\n".join(lemmas)


def decode_raw_fn(gen):
    """The generated raw decoder; or-patterns with guards are desugared (listed), and each
    arm calls a lemma, generated from the arm's own expressions, that its operands give back the bytes."""
    lemmas, arms = [], []
    f = Fn(gen.find("impl Instr<i32,u8>", "fn decode_raw").text)
    T = f.toks
    m = next(i for i in range(f.ibody, f.iend) if T[i].s == "match")
    op = next(i for i in range(m, f.iend) if T[i].s == "{")
    f.ins(T[m].a, "let vx_s = %s;\nlet vx_len = bytes.len();\n" % f.text[T[m + 1].a:T[op - 1].b], -2)
    f.rep(T[m + 1].a, T[op - 1].b, "vx_s")
    for (p0, p1), guard, (b0, b1) in match_arms(T, op):
        pats = [t.s for t in T[p0:p1] if t.k == "num"]
        if not pats:
            continue
        if guard:
            f.rep(T[p0].a, T[p1 - 1].b, "vx_b")
            f.ins(T[guard[0]].a, "(%s) && (" % " || ".join("vx_b == %s" % p for p in pats), 3)
            g = re.sub(r"bytes\s*\.\s*len\s*\(\s*\)", "vx_len", f.text[T[guard[0]].a:T[guard[1] - 1].b])
            f.rep(T[guard[0]].a, T[guard[1] - 1].b, g + ")")
        if T[b0].s != "{":
            continue
        # let NAME = EXPR ; ...  Some ( Instr :: NAME ( .. ) )
        lets, k = [], b0 + 1
        while T[k].s == "let":
            e = k
            while T[e].s != ";":
                e += 1
            lets.append((T[k + 1].s, k + 3, e))
            k = e + 1
        if T[k].s != "Some":
            continue
        name = T[k + 4].s
        if name not in isa.FORMS:
            raise Lost("decode_raw: unknown form " + name)
        kinds, fs = isa.FORMS[name]
        if len(lets) != len(kinds):
            continue
        def bv(a, b):
            out, q = [], a
            while q < b:
                if T[q].s == "bytes" and T[q + 1].s == "[":
                    out.append(("v" + T[q + 2].s.replace("usize", ""), None))
                    q += 4
                else:
                    out.append((T[q].s, T[q]))
                    q += 1
            return join(out)

        nv = 1 + max([0] + [int(x) for l in lets for x in
                            [T[q + 2].s.replace("usize", "") for q in range(l[1], l[2]) if T[q].s == "bytes"]])
        if nv > len(fs):
            continue
        exprs = [bv(a, b) for _, a, b in lets]
        req = "(%s)" % " || ".join("v0 == %s" % p for p in pats)
        proof = []
        for n, kd in enumerate(kinds):
            lo, hi = isa.RAW[kd]
            proof.append("    assert(%d <= %s <= %d) by (bit_vector) requires %s;" % (lo, "(%s)" % exprs[n], hi, req))
        for q, fo in enumerate(fs):
            g = fo
            for n in range(len(kinds)):
                g = g.replace("o%d" % n, "((%s) as int)" % exprs[n])
            proof.append("    assert((%s) == v%d as int) by (bit_vector) requires %s;" % (g, q, req))
        names = [l[0] for l in lets]
        inst = "Instr::%s%s" % (name, "(%s)" % ", ".join(names) if kinds else "")
        vp = ["bytes: Seq<u8>"] + ["%s: %s" % (x, ty(k)) for x, k in zip(names, kinds)]
        eqs = ["%s == %s" % (x, re.sub(r"\[\s*(\d)usize\s*\]", r"[\1]", f.text[T[a].a:T[b - 1].b])) for x, a, b in lets]
        lemmas.append("proof fn decode_%s(%s)\n    requires bytes.len() >= %d, %s, %s,\n    ensures dec_ok(bytes, Some(%s)),\n"
                      "{\n    reveal(dec_ok); reveal(enc_%s); reveal(oplen);\n%s\n%s\n    "
                      "assert(enc(%s) =~= seq![%s]);\n    assert(bytes.subrange(0, %d) =~= seq![%s]);\n}\n" % (
                          name, ", ".join(vp), len(fs), req.replace("v0", "bytes[0]"),
                          ", ".join(eqs), inst, name,
                          "\n".join("    let v%d = bytes[%d];" % (q, q) for q in range(len(fs))),
                          "\n".join(proof), inst, ", ".join("v%d" % q for q in range(len(fs))),
                          len(fs), ", ".join("v%d" % q for q in range(len(fs)))))
        # the arm's body becomes a function of its own, under the arm's pattern and guard
        body = f.text[T[b0].a:T[b1 - 1].b]
        cut = T[k].a - T[b0].a
        g = f.text[T[guard[0]].a:T[guard[1] - 1].b] if guard else "true"
        g = re.sub(r"bytes\s*\.\s*len\s*\(\s*\)", "bytes@.len()", g).replace("usize", "")
        arms.append(("fn decode_arm_%s(bytes: &[u8]) -> Option<Instr<i32, u8>> %sproof { decode_%s(%s); }\n%s" % (
            name, body[:cut], name, ", ".join(["bytes@"] + names), body[cut:]),
            [req.replace("v0", "bytes@[0]"), g]))
        f.rep(T[b0].a, T[b1 - 1].b, "decode_arm_%s(bytes)" % name)
    # arms without operands are bare expressions; the last arm is the rejection
    none = []
    for (p0, p1), guard, (b0, b1) in match_arms(T, op):
        pats = [t.s for t in T[p0:p1] if t.k == "num"]
        if pats:
            g = f.text[T[guard[0]].a:T[guard[1] - 1].b].replace("bytes . len ( )", "len").replace("bytes.len()", "len") if guard else "true"
            none.append("!((%s) && (%s))" % (" || ".join("b == %s" % p for p in pats), g))
            if T[b0].s == "Some" and T[b0 + 4].s in isa.FORMS and not isa.FORMS[T[b0 + 4].s][0]:
                name = T[b0 + 4].s
                fs = isa.FORMS[name][1]
                lemmas.append("proof fn decode_%s(bytes: Seq<u8>)\n    requires bytes.len() >= 1, %s,\n    ensures dec_ok(bytes, Some(Instr::%s)),\n"
                              "{ reveal(dec_ok); reveal(enc_%s); reveal(oplen); assert(enc_%s() =~= seq![bytes[0]]); "
                              "assert(bytes.subrange(0, 1) =~= seq![bytes[0]]); }\n" % (
                                  name, " || ".join("bytes[0] == %s" % p for p in pats), name, name, name))
                f.ins(T[b0].a, "{ proof { decode_%s(bytes@); } " % name, 3)
                f.ins(T[b1 - 1].b, " }", -3)
        elif T[b0].s == "None":
            f.ins(T[b0].a, "{ proof { decode_none(bytes@, bytes@[0], bytes@.len() as int); } ", 3)
            f.ins(T[b1 - 1].b, " }", -3)
    lemmas.append("proof fn decode_none(bytes: Seq<u8>, b: u8, len: int)\n    requires bytes.len() == len, len >= 1, b == bytes[0],\n%s    ensures dec_ok(bytes, None),\n"
                  "{ reveal(dec_ok); reveal(oplen); }\n" % "".join("        %s,\n" % x for x in none))
    return f, "\n".join(lemmas), arms


def add_types(u, srcs):
    src = srcs["src/instruction.rs"]
    u.item(enum_item(src), "src/instruction.rs: enum Instr")
    u.raw(spec_text())


def c_size(u, gen, mode="verify"):
    f = Fn(gen.find("impl<Ex,IM>Instr<Ex,IM>", "fn size").text)
    u.fn(f, "waterbear-instruction-derive/src/lib.rs (generated): Instr::size", impl="impl<Ex, IM> Instr<Ex, IM>",
         ens=["r == ilen(*self)"], mode=mode)


def c_encode(u, gen, mode="verify"):
    f = Fn(gen.find("impl Instr<i32,u8>", "fn encode").text)
    if mode == "verify":
        f, lem = encode_fn(gen)
        u.lemmas(lem)
    u.fn(f, "waterbear-instruction-derive/src/lib.rs (generated): Instr::encode", impl="impl Instr<i32, u8>",
         req=["wf(*self)"], ens=["r@ == enc(*self)"], mode=mode, attrs=["verifier::rlimit(200)", "verifier::spinoff_prover"])


def c_decode_raw(u, gen, mode="verify"):
    f = Fn(gen.find("impl Instr<i32,u8>", "fn decode_raw").text)
    if mode == "verify":
        f, lem, arms = decode_raw_fn(gen)
        u.lemmas(lem)
        for text, req in arms:
            u.fn(Fn(text), "waterbear-instruction-derive/src/lib.rs (generated): Instr::decode_raw, one arm",
                 req=["bytes@.len() >= 1"] + req, ens=["dec_ok(bytes@, r)"])
    u.fn(f, "waterbear-instruction-derive/src/lib.rs (generated): Instr::decode_raw", impl="impl Instr<i32, u8>",
         req=["bytes@.len() >= 1"],
         ens=["dec_ok(bytes@, r)"],
         mode=mode, attrs=["verifier::rlimit(200)", "verifier::spinoff_prover"])


def c_decode(u, src, mode="verify"):
    f = Fn(src.find("impl Instr<i32,u8>", "fn decode").text)
    if mode == "verify":
        for k, (a, b, ba, bk) in enumerate(f.closures):
            T = f.toks
            ps = [t.s for t in T[a + 1:b]]
            if len(ps) != 1:
                raise Lost("decode: closure")
            f.closure(k, "|%s: Instr<i32, u8>| -> (vx_r: Instr<i32, u8>) requires wf_raw(%s) "
                      "ensures wf(vx_r), enc(vx_r) == enc(%s), ilen(vx_r) == ilen(%s)" % ((ps[0],) * 4))
        f.body_start("proof { reveal(dec_ok); }")
    u.fn(f, "src/instruction.rs: Instr::decode", impl="impl Instr<i32, u8>",
         req=["bytes@.len() >= 1"],
         ens=["r is Some <==> (oplen(bytes@[0]) >= 1 && oplen(bytes@[0]) <= bytes@.len())",
              "r is Some ==> wf(r->0) && ilen(r->0) == oplen(bytes@[0])",
              "r is Some ==> enc(r->0) == bytes@.subrange(0, oplen(bytes@[0]) as int)"],
         mode=mode)


def c_decode_from_raw(u, src, mode="verify"):
    f = Fn(src.find("fn decode_from_raw").text)
    if mode == "verify":
        # the two nested helpers become assumed contracts here; Kani proves them (see rel helpers)
        inner_src = Source(f.text[f.toks[f.ibody].b:f.toks[f.iend].a], "decode_from_raw")
        for nm, bits in (("rel16", 16), ("rel8", 8)):
            it = inner_src.find("fn " + nm)
            base = f.toks[f.ibody].b
            g = Fn(it.text)
            g.name_ret("r")
            m = 1 << bits
            g.spec("    ensures (0 <= rel < %d) ==> r as int == (if rel < %d { rel as int } else { rel - %d }),\n" % (m, m // 2, m))
            f.rep(base + it.start, base + it.end, "")
            u.raw("#[verifier::external_body]\n" + g.signature_only(), "assumed")
            u.assumed.append("decode_from_raw::%s: contract assumed by Verus (mem::transmute), proved by Kani "
                             "over its whole domain on the extracted text" % nm)
        f.replace("use crate::instruction::Instr::*;", "use Instr::*;")
        T = f.toks
        # the last `match` of the body is the result expression
        m = max(i for i in range(f.ibody, f.iend) if T[i].s == "match")
        f.ins(T[m].a, "let vx_ret = ", -1)
        lem, cases = wrap_lemmas()
        u.lemmas(lem)
        f.ins(T[m].a, "let ghost vx_in = instr;\n", -2)
        f.ins(T[f.iend].a, ";\nproof { match vx_in {\n%s\n        _ => {}\n} }\nvx_ret\n" % cases, -5)
    u.fn(f, "src/instruction.rs: decode_from_raw",
         req=["wf_raw(instr)"], ens=["wf(r)", "enc(r) == enc(instr)", "ilen(r) == ilen(instr)"], mode=mode,
         attrs=["verifier::rlimit(200)", "verifier::spinoff_prover"])


ROUNDTRIP = """
/// C02, first half: decoding an encoding followed by anything gives the instruction back.
fn c02_roundtrip(i: Instr<i32, u8>, bytes: &[u8], rest: Ghost<Seq<u8>>) -> Option<Instr<i32, u8>>
    requires wf(i), bytes@ == enc(i) + rest@,
    ensures r == Some(i),
{
    proof {
        enc_opcode(i);
        assert(bytes@[0] == enc(i)[0]);
    }
    let r = Instr::<i32, u8>::decode(bytes);
    proof {
        let j = r->0;
        enc_opcode(j);
        let n = ilen(j) as int;
        assert(bytes@ =~= enc(j) + bytes@.subrange(n, bytes@.len() as int));
        enc_injective(i, j, rest@, bytes@.subrange(n, bytes@.len() as int));
    }
    r
}
"""


def build_enc(srcs, gen):
    u = Unit("isa_enc")
    add_types(u, srcs)
    c_size(u, gen)
    c_encode(u, gen)
    u.rewrites.append("encode: each arm's vec! is bound to a name before it is returned")
    u.dropped += ["doc comments, visibility and attributes", "derives of Instr (Debug, Eq, Ord, Hash, Clone)"]
    return u


def build(srcs, gen):
    u = Unit("isa")
    add_types(u, srcs)
    u.raw(opform_text())
    u.raw(DEC_OK)
    u.lemmas(basic_lemmas())
    u.lemmas(inj_lemmas())
    u.lemmas(ENC_LEMMAS)
    c_size(u, gen)
    c_encode(u, gen)
    c_decode_raw(u, gen)
    c_decode_from_raw(u, srcs["src/instruction.rs"])
    c_decode(u, srcs["src/instruction.rs"])
    u.fn(Fn(ROUNDTRIP.split("///", 1)[1].split("\n", 1)[1].split("    requires")[0] +
            ROUNDTRIP[ROUNDTRIP.index("\n{"):]), "contracts/isa.py: c02_roundtrip (ghost caller)",
         req=["wf(i)", "bytes@ == enc(i) + rest@"], ens=["r == Some(i)"])
    u.rewrites.append("decode_raw: `A | B if g =>` becomes `x if (x == A || x == B) && (g) =>`, and the scrutinee and `bytes.len()` are bound to names first (Verus has no or-pattern with guard)")
    u.rewrites.append("decode_raw: each match arm's block becomes a function decode_arm_X of `bytes`, under the arm's pattern and guard")
    u.rewrites.append("encode, decode_raw, decode_from_raw: the body's value is bound to a name before it is returned")
    u.dropped += ["doc comments, visibility and attributes", "derives of Instr (Debug, Eq, Ord, Hash, Clone)"]
    return u
