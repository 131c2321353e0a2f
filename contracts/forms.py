"""Contracts of the choice of an instruction form (C19)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import asm  # noqa: E402
import core  # noqa: E402
import isa as isac  # noqa: E402
import isatab  # noqa: E402
from rustx import Fn, Lost, lex, match_arms, match_close, split_top  # noqa: E402,F401
from vunit import Unit  # noqa: E402

PAR = "src/parser.rs"
ARGTYPE = {"i8": "Imm", "d9": "D9", "ri": "IM", "b3": "B3", "r8": "R8", "r16": "R16", "a12": "A12", "a16": "A16"}


def mnemonics():
    """mnemonic -> its forms, in the order of the table."""
    out = {}
    for n in isatab.FORMS:
        out.setdefault(n.split("_")[0].lower(), []).append(n)
    return out


def operand(kind):
    return {"i8": "Imm", "ri": "IM"}.get(kind, "Ex")


def spec_text():
    names = list(mnemonics())
    out = []
    fits, chosen, listed, known = [], [], [], []
    for i, m in enumerate(names):
        fs = mnemonics()[m]
        body = []
        ch = []
        for f in fs:
            kinds = isatab.FORMS[f][0]
            c = "a.len() == %d" % len(kinds) + "".join(" && a[%d] is %s" % (k, operand(x)) for k, x in enumerate(kinds))
            body.append("(%s)" % c)
            pat = ("(%s)" % ", ".join("x%d" % k for k in range(len(kinds)))) if kinds else ""
            eq = " && ".join({"Imm": "x%d == a[%d]->Imm_0", "Ex": "x%d == a[%d]->Ex_0", "IM": "x%d == a[%d]->IM_1"}[operand(x)] % (k, k)
                             for k, x in enumerate(kinds)) or "true"
            ch.append("(%s && match i { Instr::%s%s => %s, _ => false })" % (c, f, pat, eq))
        fl = [isatab.FORMS[f][0] for f in fs if isatab.FORMS[f][0]]
        ls = ["t.len() == %d" % len(fl)] + ["(%s)" % " || ".join("form_is(t[%d]@, seq![%s])" % (k, ", ".join("ArgType::" + ARGTYPE[x] for x in ks)) for k in range(len(fl)))
                                           for ks in fl]
        # no operands: no forms are listed, or the empty one
        if not fl:
            ls = ["(t.len() == 0 || (t.len() == 1 && t[0]@.len() == 0))"]
        out.append("#[verifier::opaque]\nspec fn fits_%s(a: Seq<Arg>) -> bool { %s }" % (m, " || ".join(body)))
        out.append("/// C19: the form of %s, with the operands in order\n#[verifier::opaque]\nspec fn chosen_%s(a: Seq<Arg>, i: Instr<Expr, IndirectionMode>) -> bool {\n    %s\n}"
                   % (m, m, "\n    || ".join(ch)))
        out.append("#[verifier::opaque]\nspec fn forms_%s(t: Seq<Vec<ArgType>>) -> bool { %s }" % (m, " && ".join(ls)))
        fits.append("w == %d && fits_%s(a)" % (i, m))
        chosen.append("w == %d && chosen_%s(a, i)" % (i, m))
        listed.append("w == %d && forms_%s(t)" % (i, m))
    return "\n".join(out) + """
spec fn form_is(t: Seq<ArgType>, k: Seq<ArgType>) -> bool { t =~= k }
/// C19: the operands fit a form of the mnemonic
spec fn fits(w: u32, a: Seq<Arg>) -> bool { %s }
spec fn chosen(w: u32, a: Seq<Arg>, i: Instr<Expr, IndirectionMode>) -> bool { %s }
spec fn forms(w: u32, t: Seq<Vec<ArgType>>) -> bool { %s }
spec fn known(w: u32) -> bool { w < %d }
""" % (" || ".join("(%s)" % x for x in fits), " || ".join("(%s)" % x for x in chosen), " || ".join("(%s)" % x for x in listed), len(names))


def words_text(words):
    """The index of a text among the literals of the table and of the code, first come."""
    sp = "".join("if s == \"%s\"@ { %du32 } else " % (w, i) for i, w in enumerate(words))
    ex = "".join("if vx_same(s, \"%s\") { %du32 } else " % (w, i) for i, w in enumerate(words))
    return """
/// the index of a mnemonic
spec fn word(s: Seq<char>) -> u32 { %s{ u32::MAX } }
#[verifier::external_body]
fn vx_same(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }
fn vx_word(s: &str) -> (r: u32)
    ensures r == word(s@),
{ %s{ u32::MAX } }
/// a slice by its length
pub enum VxArgs<'a> { N0, N1(&'a Arg), N2(&'a Arg, &'a Arg), N3(&'a Arg, &'a Arg, &'a Arg), N4(&'a Arg, &'a Arg, &'a Arg, &'a Arg), More(&'a Arg, &'a Arg, &'a Arg, &'a Arg) }
fn vx_args<'a>(a: &'a [Arg]) -> (r: VxArgs<'a>)
    ensures match r {
        VxArgs::N0 => a@.len() == 0,
        VxArgs::N1(x) => a@.len() == 1 && *x == a@[0],
        VxArgs::N2(x, y) => a@.len() == 2 && *x == a@[0] && *y == a@[1],
        VxArgs::N3(x, y, z) => a@.len() == 3 && *x == a@[0] && *y == a@[1] && *z == a@[2],
        VxArgs::N4(x, y, z, u) => a@.len() == 4 && *x == a@[0] && *y == a@[1] && *z == a@[2] && *u == a@[3],
        VxArgs::More(x, y, z, u) => a@.len() > 4 && *x == a@[0] && *y == a@[1] && *z == a@[2] && *u == a@[3],
    },
{
    match a.len() {
        0 => VxArgs::N0,
        1 => VxArgs::N1(&a[0]),
        2 => VxArgs::N2(&a[0], &a[1]),
        3 => VxArgs::N3(&a[0], &a[1], &a[2]),
        4 => VxArgs::N4(&a[0], &a[1], &a[2], &a[3]),
        _ => VxArgs::More(&a[0], &a[1], &a[2], &a[3]),
    }
}
""" % (sp, ex)


def desugar(u, f, words):
    """Patterns that Verus does not have: a text literal becomes its index, a slice pattern a constructor by its length,
    and the expression that is matched is converted in the same way."""
    T = f.toks
    for m in range(f.ibody, f.iend):
        if T[m].k != "id" or T[m].s != "match":
            continue
        op = m + 1
        while T[op].s != "{":
            op = match_close(T, op) + 1 if T[op].s in "([" else op + 1
        scr = [(m + 1, op)]
        if T[m + 1].s == "(" and match_close(T, m + 1) == op - 1:
            scr = split_top(T, m + 2, op - 1)
        need = [None] * len(scr)
        for (p0, p1), guard, body in match_arms(T, op):
            for a, b in split_top(T, p0, p1, "|"):
                parts = [(a, b)]
                if len(scr) > 1:
                    if b - a == 1 and T[a].s == "_":
                        continue
                    if T[a].s != "(" or match_close(T, a) != b - 1:
                        raise Lost("%s: pattern" % f.name)
                    parts = split_top(T, a + 1, b - 1)
                if len(parts) != len(scr):
                    raise Lost("%s: pattern" % f.name)
                for k, (x, y) in enumerate(parts):
                    if T[x].k == "str":
                        if y - x != 1:
                            raise Lost("%s: text pattern" % f.name)
                        w = T[x].s[1:-1]
                        if w not in words:
                            words.append(w)
                        f.rep(T[x].a, T[x].b, "%du32" % words.index(w))
                        need[k] = "vx_word"
                    elif T[x].s == "[":
                        if match_close(T, x) != y - 1:
                            raise Lost("%s: slice pattern" % f.name)
                        els = [(c, d) for c, d in split_top(T, x + 1, y - 1) if d > c]
                        rest = bool(els) and T[els[-1][0]].s == ".."
                        if rest:
                            els = els[:-1]
                        if len(els) > 4 or any(T[q].s == ".." for c, d in els for q in range(c, d)):
                            raise Lost("%s: slice pattern" % f.name)
                        ps = [f.text[T[c].a:T[d - 1].b] for c, d in els]
                        alts = ["N%d" % n for n in range(len(els), 5)] + ["More"] if rest else ["N%d" % len(els)]
                        tx = []
                        for al in alts:
                            n = 4 if al == "More" else int(al[1])
                            q = ps + ["_"] * (n - len(ps))
                            tx.append("VxArgs::%s%s" % (al, "(%s)" % ", ".join(q) if q else ""))
                        f.rep(T[x].a, T[y - 1].b, "(%s)" % " | ".join(tx) if len(tx) > 1 else tx[0])
                        need[k] = "vx_args"
        for (a, b), n in zip(scr, need):
            if n:
                f.ins(T[a].a, n + "(")
                f.ins(T[b - 1].b, ")")
    return words


def params(text, n):
    """The function and the names of its parameters; a parameter named like the function is renamed (Verus)."""
    f = Fn(text)
    T = f.toks
    k = next(i for i in range(len(T)) if T[i].s == "fn")
    o = next(i for i in range(k, len(T)) if T[i].s == "(")
    out = []
    for a, b in split_top(T, o + 1, match_close(T, o)):
        if a + 1 < b and T[a].k == "id" and T[a + 1].s == ":":
            out.append(T[a].s)
    if len(out) != n:
        raise Lost("%s: parameters" % f.name)
    if f.name in out:
        for i in range(k + 2, len(T)):
            if T[i].k == "id" and T[i].s == f.name and T[i - 1].s not in (".", "::"):
                f.rep(T[i].a, T[i].b, "vx_" + f.name)
        out = ["vx_" + x if x == f.name else x for x in out]
    return f, out


def types(u, srcs):
    a, e = srcs["src/ast.rs"], srcs["src/expression.rs"]
    core.ev_types(u, srcs)
    isac.add_types(u, srcs)
    u.raw(asm.FOREIGN, "assumed")
    u.dropped.append("the contents of foreign types (PathBuf, io::Error, ImageError, Token, Location)")
    core.items(u, e, "enum Arg")
    core.items(u, a, "enum ArgType", "enum ByteValue", "enum IncludeHeader", "enum SpriteType", "enum IncludeType", "enum Directive", "enum Statement")
    core.items(u, srcs[PAR], "enum ParseError")
    core.clones(u, "Arg", "ArgType")
    u.raw(asm.OWNED, "assumed")


def build(srcs, gen):
    u = Unit("forms")
    types(u, srcs)
    p = srcs[PAR]
    words = list(mnemonics())
    mk = Fn(p.find("fn make_instr").text)
    desugar(u, mk, words)
    ex = Fn(gen.find("impl<Ex,IM>Instr<Ex,IM>", "fn exists").text)
    desugar(u, ex, words)
    u.raw(spec_text())
    u.raw(words_text(words))
    u.rewrites.append("make_instr, Instr::exists: text patterns are patterns of the index of the text among the literals, slice patterns are constructors by "
                      "length; the expressions that are matched are converted by vx_word and vx_args, whose contracts are proved")
    u.assumed.append("comparison of texts (vx_same)")
    fi, (a, b) = params(p.find("fn instr").text, 2)
    u.fn(fi, "src/parser.rs: instr", ens=["r == Ok::<Option<Statement>, ParseError>(Some(Statement::Instr(%s, %s)))" % (a, b)])
    fw, (a, b, c) = params(p.find("fn wrong_args").text, 3)
    u.fn(fw, "src/parser.rs: wrong_args",
         ens=["r is Err && match r->Err_0 { ParseError::WrongInstructionArgs(s, n, t) => s == %s && n@ == %s@ && t@ == %s@, _ => false }" % (a, b, c)])
    mk.body_start("    " + " ".join("reveal(fits_%s); reveal(chosen_%s); reveal(forms_%s);" % (m, m, m) for m in mnemonics()))
    u.fn(mk, "src/parser.rs: make_instr",
         ens=["match r { Ok(s) => match s { Some(Statement::Instr(sp, i)) => sp == span && chosen(word(name@), args@, i), _ => false }, Err(_) => true }",
              "match r { Err(x) => !fits(word(name@), args@) && match x { ParseError::WrongInstructionArgs(sp, n, t) => sp == span && n@ == name@ && known(word(name@)), "
              "ParseError::UnknownInstruction(sp) => sp == span && !known(word(name@)), _ => false }, Ok(_) => true }",
              "match r { Err(ParseError::WrongInstructionArgs(sp, n, t)) => forms(word(name@), t@), _ => true }"])
    u.open("impl<Ex, IM> Instr<Ex, IM> {")
    u.fn(ex, "derive: Instr::exists", impl="impl<Ex, IM> Instr<Ex, IM>", ens=["r == known(word(name@))"])
    u.close()
    return u
