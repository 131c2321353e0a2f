"""Contracts of the reading of statements (C21, C18)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import core  # noqa: E402
import exprs  # noqa: E402
import forms  # noqa: E402
import isa as isac  # noqa: E402
import isatab  # noqa: E402
import literals  # noqa: E402
import stmts  # noqa: E402
from rustx import Fn, Lost, lex, match_close, norm, split_top, strip_item  # noqa: E402,F401
from vunit import Unit  # noqa: E402

PAR, LEX, AST, INS = "src/parser.rs", "src/lexer.rs", "src/ast.rs", "src/instruction.rs"

SPEC = """
pub uninterp spec fn wf(p: &ExprParser) -> bool;
pub open spec fn begins_dot(n: Seq<char>) -> bool { n.len() > 0 && n[0] == '.' }
pub open spec fn begins_with(n: Seq<char>, p: Seq<char>) -> bool { p.len() <= n.len() && n.take(p.len() as int) == p }
pub open spec fn ind(k: K) -> Option<IndirectionMode> {
    match k { K::R0 => Some(IndirectionMode::R0), K::R1 => Some(IndirectionMode::R1), K::R2 => Some(IndirectionMode::R2), K::R3 => Some(IndirectionMode::R3), _ => None }
}
/// what stands at p, or that the line ends there
pub open spec fn nx(s: Seq<K>, p: int) -> K { if 0 <= p < s.len() { s[p] } else { K::Eol } }
/// an operand as a value
pub open spec fn arg_v(a: Arg) -> V {
    match a { Arg::IM(_, m) => V::Ind(m), Arg::Imm(e) => V::Imm(tree(e)), Arg::Ex(e) => V::Ex(tree(e)), Arg::MacroArg(_, n) => V::Ex(T::Arg(n@)) }
}
pub open spec fn arg_ok(a: Arg) -> bool { match a { Arg::Ex(e) => !(tree(e) is Arg), _ => true } }
pub open spec fn args_v(s: Seq<Arg>) -> Seq<V> { s.map(|i: int, a: Arg| arg_v(a)) }
pub open spec fn args_ok(s: Seq<Arg>) -> bool { forall|i: int| 0 <= i < s.len() ==> arg_ok(#[trigger] s[i]) }
/// C21: the value at p: an operand (1), a value of .byte (2), or an expression
pub open spec fn item(kd: int, s: Seq<K>, p: int) -> Option<(V, int)> {
    if kd == 1 && ind(nx(s, p)) is Some { Some((V::Ind(ind(nx(s, p))->0), p + 1)) }
    else if kd == 1 && nx(s, p) == K::Hash { match reads(s, 0, p + 1) { Some((t, q)) => Some((V::Imm(t), q)), None => None } }
    else if kd == 2 && nx(s, p) is String { Some((V::Str(encode_utf8(nx(s, p)->String_0)), p + 1)) }
    else { match reads(s, 0, p) { Some((t, q)) => Some((V::Ex(t), q)), None => None } }
}
/// values with commas between them, to the end of the line
pub open spec fn rest(kd: int, s: Seq<K>, p: int, acc: Seq<V>) -> Option<Seq<V>>
    decreases s.len() - p
{
    if p >= s.len() { Some(acc) } else if s[p] != K::Comma { None }
    else { match item(kd, s, p + 1) { Some((v, q)) => if p < q <= s.len() { rest(kd, s, q, acc.push(v)) } else { None }, None => None } }
}
pub open spec fn list(kd: int, s: Seq<K>, p: int) -> Option<Seq<V>> {
    if p >= s.len() { Some(Seq::empty()) } else { match item(kd, s, p) { Some((v, q)) => rest(kd, s, q, seq![v]), None => None } }
}
/// what is read: the first words, the values, and where it ends
pub type Said = Option<(Seq<K>, Seq<V>, int)>;
/// an instruction, or the call of a macro
#[verifier::opaque]
pub open spec fn instr_at(s: Seq<K>, p: int) -> Said {
    match nx(s, p) {
        K::Name(n) => if known(word(n)) || !begins_dot(n) { match list(1, s, p + 1) { Some(vs) => Some((seq![K::Name(n)], vs, s.len() as int)), None => None } } else { None },
        _ => None,
    }
}
pub open spec fn listed(kd: int, n: Seq<char>, s: Seq<K>, p: int) -> Said {
    match list(kd, s, p + 1) { Some(vs) => if vs.len() > 0 { Some((seq![K::Name(n)], vs, s.len() as int)) } else { None }, None => None }
}
pub open spec fn sized(n: Seq<char>, s: Seq<K>, p: int) -> Said {
    match (nx(s, p + 1), nx(s, p + 2)) { (K::Number(x, _), K::String(t)) => Some((seq![K::Name(n)], seq![V::Sized(x, encode_utf8(t))], p + 3)), _ => None }
}
pub open spec fn org_at(n: Seq<char>, s: Seq<K>, p: int) -> Said {
    match nx(s, p + 1) { K::Number(x, _) => Some((seq![K::Name(n)], seq![V::Num(x)], p + 2)), _ => None }
}
pub open spec fn cnop_at(n: Seq<char>, s: Seq<K>, p: int) -> Said {
    match reads(s, 0, p + 1) {
        Some((t, q)) => if nx(s, q) == K::Comma { match reads(s, 0, q + 1) { Some((u, k)) => Some((seq![K::Name(n)], seq![V::Ex(t), V::Ex(u)], k)), None => None } } else { None },
        None => None,
    }
}
pub open spec fn dir_name(n: Seq<char>) -> bool { n == ".byte"@ || n == ".org"@ || n == ".word"@ || n == ".text"@ || n == ".string"@ || n == ".cnop"@ }
#[verifier::opaque]
pub open spec fn dir_at(n: Seq<char>, s: Seq<K>, p: int) -> Said {
    if n == ".byte"@ { listed(2, n, s, p) } else if n == ".org"@ { org_at(n, s, p) } else if n == ".word"@ { listed(0, n, s, p) }
    else if n == ".text"@ || n == ".string"@ { sized(n, s, p) } else if n == ".cnop"@ { cnop_at(n, s, p) } else { None }
}
/// a name for a value
pub open spec fn named_at(n: Seq<char>, s: Seq<K>, p: int) -> Said {
    if nx(s, p + 1) == K::Name("equ"@) || nx(s, p + 1) == K::Equals {
        match reads(s, 0, p + 2) { Some((t, q)) => Some((seq![K::Name(n), nx(s, p + 1)], seq![V::Ex(t)], q)), None => None }
    } else { None }
}
/// C21: the statement that begins at p
#[verifier::opaque]
pub open spec fn stmt(s: Seq<K>, p: int) -> Said {
    match nx(s, p) {
        K::Name(n) =>
            if nx(s, p + 1) == K::Colon { Some((seq![K::Name(n), K::Colon], Seq::empty(), p + 2)) }
            else if !begins_dot(n) && nx(s, p + 1) != K::Name("equ"@) && nx(s, p + 1) != K::Equals { instr_at(s, p) }
            else if dir_name(n) { dir_at(n, s, p) }
            else if begins_dot(n) && p + 1 >= s.len() { Some((seq![K::Name(n), K::Colon], Seq::empty(), p + 1)) }
            else { named_at(n, s, p) },
        _ => None,
    }
}
pub struct Stmt { pub head: Seq<K>, pub values: Seq<V> }
/// C21: the statements of a line: one, or a label and an instruction
pub open spec fn line_of(s: Seq<K>) -> Option<Seq<Stmt>> {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match stmt(s, 0) {
            Some((h, vs, q)) =>
                if q >= s.len() { Some(seq![Stmt { head: h, values: vs }]) }
                else if h.len() == 2 && h[1] == K::Colon {
                    match instr_at(s, q) { Some((h2, vs2, _)) => Some(seq![Stmt { head: h, values: vs }, Stmt { head: h2, values: vs2 }]), None => None }
                } else { None },
            None => None,
        }
    }
}
/// the first words and the values of a statement, macro calls included
pub open spec fn first(st: Statement) -> Seq<K> { match st { Statement::MacroCall(_, n, _) => seq![K::Name(n@)], _ => head(st) } }
pub open spec fn then(st: Statement) -> Seq<V> { match st { Statement::MacroCall(_, _, a) => args_v(a@), _ => values(st) } }
pub open spec fn is_said(st: Statement, x: Stmt) -> bool { first(st) == x.head && then(st) == x.values && call_ok(st) }
/// only what is not an instruction is the call of a macro
pub open spec fn call_ok(st: Statement) -> bool { match st { Statement::MacroCall(_, n, _) => !known(word(n@)) && !begins_dot(n@), _ => true } }
pub open spec fn told(s: Seq<Statement>, l: Seq<Stmt>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < s.len() ==> is_said(#[trigger] s[i], l[i]) }
/// no form of the instruction takes these operands
#[verifier::opaque]
pub open spec fn misfit(h: Seq<K>, vs: Seq<V>) -> bool { h.len() == 1 && h[0] is Name && known(word(h[0]->Name_0)) && exists|a: Seq<Arg>| #[trigger] args_v(a) == vs && args_ok(a) && !fits(word(h[0]->Name_0), a) }
pub open spec fn misfits(x: Said) -> bool { match x { Some((h, vs, _)) => misfit(h, vs), None => true } }
pub open spec fn line_misfits(s: Seq<K>) -> bool {
    match stmt(s, 0) { None => s.len() > 0, Some((h, vs, q)) => misfit(h, vs) || (q < s.len() && (line_of(s) is None || misfits(instr_at(s, q)))) }
}
pub open spec fn include_at(s: Seq<K>, p: int) -> bool { nx(s, p) == K::Name(".include"@) && nx(s, p + 1) != K::Colon }
"""

AT = """
proof fn at_words(t: Seq<Token>)
    requires lexed(t),
    ensures forall|i: int| 0 <= i < t.len() ==> nx(words(t), i) == (if (#[trigger] t[i]).token_type is EOF { K::Eol } else { kind(t[i].token_type) }),
        words(t).len() <= t.len() <= words(t).len() + 1, words(t).len() < t.len() <==> t.len() > 0 && t.last().token_type is EOF,
{
    reveal(words);
    assert forall|i: int| 0 <= i < t.len() implies nx(words(t), i) == (if (#[trigger] t[i]).token_type is EOF { K::Eol } else { kind(t[i].token_type) }) by {
        if i < t.len() - 1 { assert(t.drop_last()[i] == t[i]); }
    }
}
"""

LEMMAS = """
proof fn further(s: Seq<K>, q: int, p: int)
    requires 0 <= p, 0 <= q,
    ensures match reads(s, q, p) { Some((t, k)) => p < k <= s.len(), None => true },
{ if p < s.len() { sound(s, q, p); } }
proof fn words_dot()
    ensures forall|n: Seq<char>| #[trigger] begins_with(n, "."@) == begins_dot(n),
        begins_dot(".byte"@), begins_dot(".org"@), begins_dot(".word"@), begins_dot(".text"@), begins_dot(".string"@), begins_dot(".cnop"@), begins_dot(".include"@), !dir_name(".include"@),
        ".byte"@ != ".org"@, ".byte"@ != ".word"@, ".byte"@ != ".text"@, ".byte"@ != ".string"@, ".byte"@ != ".cnop"@,
        ".org"@ != ".word"@, ".org"@ != ".text"@, ".org"@ != ".string"@, ".org"@ != ".cnop"@, ".word"@ != ".text"@, ".word"@ != ".string"@, ".word"@ != ".cnop"@,
        ".text"@ != ".string"@, ".text"@ != ".cnop"@, ".string"@ != ".cnop"@,
{
    reveal_strlit("."); reveal_strlit(".byte"); reveal_strlit(".org"); reveal_strlit(".word"); reveal_strlit(".text"); reveal_strlit(".string"); reveal_strlit(".cnop"); reveal_strlit(".include");
    assert forall|n: Seq<char>| #[trigger] begins_with(n, "."@) == begins_dot(n) by {
        if begins_with(n, "."@) { assert(n.take(1)[0] == n[0]); }
        if begins_dot(n) { assert(n.take(1) =~= "."@); }
    }
    assert(".byte"@[1] == 'b' && ".org"@[1] == 'o' && ".word"@[1] == 'w' && ".text"@[1] == 't' && ".string"@[1] == 's' && ".cnop"@[1] == 'c' && ".include"@[1] == 'i');
}
"""

STD = """
pub trait VxStarts {
    spec fn chars(&self) -> Seq<char>;
    fn vx_starts_with(&self, p: &str) -> (r: bool)
        ensures r == begins_with(self.chars(), p@);
}
impl VxStarts for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
}
impl VxStarts for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
}
/// `t.bytes().collect()`
#[verifier::external_body]
fn vx_bytes(t: &String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(t@),
{ unimplemented!() }
impl ByteValue {
    #[verifier::external_body]
    pub fn span(&self) -> Span { unimplemented!() }
}
impl Arg {
    #[verifier::external_body]
    pub fn span(&self) -> Span { unimplemented!() }
}
"""

PRED = {
    "is_colon": "== K::Colon", "is_equ": "== K::Equals", "is_name": "is Name", "is_string": "is String", "is_hash": "== K::Hash", "is_num": "is Number",
    "is_macro_ident": "is MacroIdent", "is_macro_label": "is MacroLabel",
}
TEXTS = {"has_name": "kind({t}.token_type) == K::Name({x}@)", "has_macro_name": "kind({t}.token_type) == K::MacroIdent({x}@)",
         "name_starts_with": "match kind({t}.token_type) {{ K::Name(vx_n) => begins_with(vx_n, {x}@), _ => false }}",
         "macro_label_starts_with": "match kind({t}.token_type) {{ K::MacroLabel(vx_n) => begins_with(vx_n, {x}@), _ => false }}"}


def says(m, t, x=None):
    """What the predicate m of a token t says."""
    if m in TEXTS:
        return TEXTS[m].format(t=t, x=x)
    if m == "is_eof":
        return "%s.token_type is EOF" % t
    if m == "is_indirection_mode":
        return "ind(kind(%s.token_type)) is Some" % t
    if m == "is_local_label_name":
        return "match kind(%s.token_type) { K::Name(vx_n) => begins_with(vx_n, \".\"@), _ => false }" % t
    if m == "is_local_macro_label":
        return "match kind(%s.token_type) { K::MacroLabel(vx_n) => begins_with(vx_n, \".\"@), _ => false }" % t
    if m in PRED:
        return "kind(%s.token_type) %s" % (t, PRED[m])
    raise Lost("predicate " + m)


def predicates(f):
    """`|tok| tok.has_name("x")` and the like get the contract of the method they call."""
    T = f.toks
    for n, (a, b, ba, bk) in enumerate(f.closures):
        ps = [t.s for t in T[a + 1:b]]
        if len(ps) != 1:
            continue
        x = ps[0]
        body = [t.s for t in T[ba:bk]]
        if body[:2] == [x, "."] and len(body) > 3 and body[3] == "(" and match_close(T, ba + 3) == bk - 1:
            m = body[2]
            arg = f.text[T[ba + 3].b:T[bk - 1].a]
            if m == "starts_with":
                f.closure(n, "|%s: &str| -> (vx_b: bool) ensures vx_b == begins_with(%s@, %s@)" % (x, x, arg))
            elif m == "clone":
                f.closure(n, "|%s: &Token| -> (vx_b: Token) ensures vx_b == *%s" % (x, x))
            elif m == "token_type":
                f.closure(n, "|%s: &Token| -> (vx_b: TokenType) ensures vx_b == %s.token_type" % (x, x))
            else:
                f.closure(n, "|%s: &Token| -> (vx_b: bool) ensures vx_b == (%s)" % (x, says(m, x, arg)))
        elif body == [x, ".", "token_type", "(", ")", ".", "clone", "(", ")"]:
            f.closure(n, "|%s: &Token| -> (vx_b: TokenType) ensures vx_b == %s.token_type" % (x, x))
        elif body == ["ByteValue", "::", "Expr", "(", x, ")"]:
            f.closure(n, "|%s: Expr| -> (vx_b: ByteValue) ensures vx_b == ByteValue::Expr(%s)" % (x, x))


def texts(f):
    """Calls of str that Verus has no contract for."""
    T = f.toks
    for i in range(f.ibody, f.iend):
        s = [t.s for t in T[i:i + 8]]
        if s[1:] == [".", "bytes", "(", ")", ".", "collect", "("] and T[i].k == "id":
            f.rep(T[i].a, T[i + 8].b, "vx_bytes(&%s)" % s[0])
        if s[:3] == [".", "starts_with", "("]:
            f.rep(T[i + 1].a, T[i + 1].b, "vx_starts_with")


def generic(text):
    """`check: fn(&T) -> bool` becomes a type parameter."""
    m = re.search(r"\bfn (\w+)\s*\(([^)]*?)(\w+): fn\((&\w+)\) -> bool\)", text)
    if not m:
        raise Lost("a parameter that is a predicate")
    return text[:m.start()] + "fn %s<VxF: Fn(%s) -> bool>(%s%s: VxF)" % (m.group(1), m.group(4), m.group(2), m.group(3)) + text[m.end():], m.group(3)


def plain_types(text):
    return re.sub(r"(?m)^\s*use crate::lexer::TokenType::\*;\s*$", "", text)


def typed(f, *names):
    """The constructors that `use` brought into scope."""
    T = f.toks
    for i in range(f.ibody, f.iend):
        if T[i].s in names and T[i + 1].s == "(" and T[i - 1].s in ("{", ",", "}", "|"):
            f.rep(T[i].a, T[i].b, "TokenType::" + T[i].s)


def tokens_and_stream(u, srcs, more=False):
    p, l = srcs[PAR], srcs[LEX]
    u.raw(STD, "assumed")
    u.assumed.append("str::starts_with; str::bytes().collect() gives the UTF-8 bytes; ByteValue::span and Arg::span: no contract (positions)")
    u.rewrites.append("parameters of type fn(&Token) -> bool and fn(&str) -> bool become parameters of a type that is Fn; starts_with and bytes().collect() are "
                      "called by other names with a contract; `name == n` of texts is vx_same")
    I = "impl Token"
    u.open("impl lexer::Token {")
    tk = lambda n: l.find(I, "fn " + n).text
    V = dict(impl=I, vac_impl="impl lexer::Token")
    for n in ("is_colon", "is_equ", "is_name", "is_string", "is_eof", "is_hash", "is_indirection_mode") + (("is_macro_label", "is_local_label_name", "is_local_macro_label") if more else ()):
        f = Fn(plain_types(tk(n)) if n.startswith("is_local") or n == "is_macro_label" else tk(n))
        if "use crate" in tk(n) and n.startswith(("is_local", "is_macro")):
            texts(f)
            typed(f, "Name", "MacroLabel")
        u.fn(f, LEX + ": Token::" + n, ens=["r == (%s)" % says(n, "self")], **V)
    for n in ("has_name", "name_starts_with") + (("has_macro_name",) if more else ()):
        f, (x,) = forms.params(tk(n), 1)
        texts(f)
        if n != "name_starts_with":
            T = f.toks
            for i in range(f.ibody, f.iend):
                if T[i].s == "==" and T[i - 1].k == T[i + 1].k == "id":
                    f.rep(T[i - 1].a, T[i + 1].b, "vx_same(%s, %s)" % (T[i - 1].s, T[i + 1].s))
        f.body_start("proof { words_dot(); }")
        u.fn(f, LEX + ": Token::" + n, ens=["r == (%s)" % says(n, "self", x)], **V)
    f = Fn(tk("get_name"))
    u.fn(f, LEX + ": Token::get_name", ens=["match r { Some(n) => kind(self.token_type) == K::Name(n@), None => !(kind(self.token_type) is Name) }"], **V)
    t, x = generic(tk("name_matching"))
    u.fn(Fn(t), LEX + ": Token::name_matching", req=["forall|vx_t: &str| #[trigger] call_requires(%s, (vx_t,))" % x],
         ens=["match kind(self.token_type) { K::Name(vx_n) => exists|vx_t: &str| vx_t@ == vx_n && #[trigger] call_ensures(%s, (vx_t,), r), _ => !r }" % x], **V)
    u.close()
    I = "impl<'a> TokenStream<'a>"
    g = lambda n: p.find(I.replace(" T", "T"), "fn " + n).text
    u.open(I + " {")
    t, x = generic(g("check_at"))
    C = "(self.pos + %s < self.tokens@.len() ==> call_ensures(%s, (&self.tokens@[self.pos + %s],), r)) && (self.pos + %s >= self.tokens@.len() ==> !r)"
    RQ = "forall|vx_t: &Token| #[trigger] call_requires(%s, (vx_t,))"
    u.fn(Fn(t), PAR + ": TokenStream::check_at", impl=I, req=["ok(*self)", "pos <= 1", RQ % x], ens=[C % ("pos", x, "pos", "pos")])
    t, x = generic(g("check"))
    u.fn(Fn(t), PAR + ": TokenStream::check", impl=I, req=["ok(*self)", RQ % x], ens=[C % ("0", x, "0", "0")])
    f = Fn(g("is_empty"))
    f.body_start("proof { at_words(self.tokens@); }")
    u.fn(f, PAR + ": TokenStream::is_empty", impl=I, req=["fs(*self)"], ens=["r == (self.pos >= ws(*self).len())"])
    F = ["same_stream(*final(self), *old(self))", "ok(*final(self))"]
    for n, k, pat in (("read_string", "String", "(_, vx_s) => nx(ws(*old(self)), old(self).pos as int) == K::String(vx_s@)"),
                      ("read_number", "Number", "(_, vx_n, vx_r) => vx_n >= 0 && nx(ws(*old(self)), old(self).pos as int) == K::Number(vx_n as int, radix_of(vx_r))"),
                      ("read_name", "Name", "(_, vx_s) => nx(ws(*old(self)), old(self).pos as int) == K::Name(vx_s@)")) + (
                          (("read_macro_name", "MacroIdent", "(_, vx_s) => nx(ws(*old(self)), old(self).pos as int) == K::MacroIdent(vx_s@)"),) if more else ()):
        f = Fn(plain_types(g(n)))
        typed(f, k)
        f.body_start("proof { at_words(self.tokens@); }")
        u.fn(f, PAR + ": TokenStream::" + n, impl=I, req=["ok(*old(self))", "lexed(old(self).tokens@)"],
             ens=F + ["final(self).pos >= old(self).pos", "match r { Ok(vx_x) => final(self).pos == old(self).pos + 1 && match vx_x { %s }, "
                      "Err(_) => !(nx(ws(*old(self)), old(self).pos as int) is %s) }" % (pat, k)])
    u.close()


def op_lemmas():
    out = []
    names = list(forms.mnemonics())
    for m in names:
        out.append("proof fn op_%s(a: Seq<Arg>, i: Instr<Expr, IndirectionMode>)\n    requires chosen_%s(a, i),\n"
                   "    ensures mnemonic(i) == \"%s\"@, operands(i) == args_v(a),\n{ reveal(chosen_%s); reveal(mnemonic); reveal(operands); assert(operands(i) =~= args_v(a)); }" % (m, m, m, m))
    out.append("/// the instruction that make_instr chooses has this mnemonic and these operands\nproof fn op_any(n: Seq<char>, a: Seq<Arg>, i: Instr<Expr, IndirectionMode>)\n"
               "    requires chosen(word(n), a, i),\n    ensures known(word(n)), mnemonic(i) == n, operands(i) == args_v(a),\n{\n    reveal(chosen); reveal(known);\n"
               + "\n".join("    if word(n) == %d { assert(n == \"%s\"@) by { reveal(word); } op_%s(a, i); }" % (k, m, m) for k, m in enumerate(names)) + "\n}")
    return "\n".join(out)


def hidden(text, *names):
    for n in names:
        t = text.replace("\npub open spec fn %s(" % n, "\n#[verifier::opaque]\npub open spec fn %s(" % n)
        assert t != text, n
        text = t
    return text


def types(u, srcs, spans=None):
    exprs.types(u, srcs, spans)
    u.raw("use vstd::utf8::*;\nuse vstd::string::*;\nuse vstd::std_specs::option::*;\nuse vstd::std_specs::result::*;")
    u.item(re.sub(r"^(pub )?", "pub ", isac.enum_item(srcs[INS]), count=1), INS + ": enum Instr")
    core.items(u, srcs[AST], "enum ByteValue", "enum IncludeHeader", "enum SpriteType", "enum IncludeType", "enum Directive", "enum Statement")
    u.lemmas(exprs.LEMMAS)
    u.lemmas(exprs.COMPLETE)
    u.raw("/// the token that a word is read as\npub uninterp spec fn named(n: Seq<char>) -> K;")
    u.raw(exprs.PRINT_SPEC)
    u.raw(hidden(stmts.value_spec(), "mnemonic", "operands", "fine_instr"))
    u.raw("/// stands for the expression parser\n#[verifier::external_body]\npub struct ExprParser { x: u8 }", "assumed")
    core.items(u, srcs[PAR], "struct Parser")
    words = list(forms.mnemonics())
    u.raw(hidden(forms.spec_text().replace("\nspec fn", "\npub open spec fn"), "fits", "chosen", "forms", "known"))
    u.raw(hidden(forms.words_text(words).replace("\nspec fn", "\npub open spec fn"), "word").replace("(r: u32)\n    ensures r == word(s@),\n{", "(r: u32)\n    ensures r == word(s@),\n{ proof { reveal(word); }"))
    u.raw(SPEC)
    u.lemmas(LEMMAS)
    u.lemmas(op_lemmas())


PARSE = "match r {{ Ok(vx_e) => {ok}, Err(_) => {err} }}"


def list_fn(p, name, item, ty):
    """parse_list for one of its uses: the closure that is passed stands in the place of the parameter."""
    use = Fn(p.find("impl Parser", "fn " + name).text)
    T = use.toks
    if len(use.closures) != 1:
        raise Lost(name)
    a, b, ba, bk = use.closures[0]
    if [t.s for t in T[ba:bk]] != ["self", ".", item, "(", T[a + 1].s, ")"]:
        raise Lost("%s: closure" % name)
    use.rep(T[a - 1].a, T[bk - 1].b, "")
    k = next(i for i in range(len(T)) if T[i].s == "parse_list")
    use.rep(T[k].a, T[k].b, "vx_list_" + item)
    t = p.find("impl Parser", "fn parse_list").text
    h = re.sub(r"fn parse_list<T, F>\(&self, (\w+): &mut TokenStream, (\w+): F\) -> Result<Vec<T>, ParseError>\s*where\s*F: Fn\(&mut TokenStream\) -> Result<T, ParseError>,",
               r"fn vx_list_%s(&self, \1: &mut TokenStream) -> Result<Vec<%s>, ParseError>" % (item, ty), t)
    if h == t:
        raise Lost("parse_list")
    par = re.search(r"fn parse_list<T, F>\(&self, (\w+): &mut TokenStream, (\w+): F\)", t)
    h = re.sub(r"(?<![\w.])%s\(" % par.group(2), "self.%s(" % item, h)
    return use, Fn(h), par.group(1)


def build(srcs, gen):
    u = Unit("reading")
    types(u, srcs)
    p = srcs[PAR]
    u.raw(exprs.PARSER_SPEC.split("/// the level")[0])
    exprs.stream(u, srcs)
    u.lemmas(AT)
    tokens_and_stream(u, srcs)
    I = "impl Parser"
    g = lambda n: p.find(I, "fn " + n).text
    REQ = ["wf(&self.expr_parser)", "fs(*old(%s))"]
    SAME = ["ok(*final(%s))", "r is Ok ==> fs(*final(%s))", "same_stream(*final(%s), *old(%s))", "final(%s).pos >= old(%s).pos"]
    at = lambda a: "ws(*old(%s)), old(%s).pos as int" % (a, a)

    def fn(f, a, n, ok, err, req=(), **kw):
        f.body_start("proof { at_words(%s.tokens@); }" % a)
        u.fn(f, PAR + ": Parser::" + n, impl=I, req=[x.replace("%s", a) for x in REQ] + list(req),
             ens=[x.replace("%s", a) for x in SAME] + ["match r { Ok(vx_e) => %s, Err(_) => %s }" % (ok, err)], **kw)
    f, (a,) = forms.params(g("parse_expr"), 1)
    u.fn(f, PAR + ": Parser::parse_expr", impl=I, req=["wf(&self.expr_parser)", "fs(*old(%s))" % a], ens=["ok(*final(%s))" % a, "same_stream(*final(%s), *old(%s))" % (a, a)] + exprs.read_ens(a),
         mode="assume")
    f, (a,) = forms.params(g("parse_i8"), 1)
    rd = "reads(ws(*old(%s)), 0, old(%s).pos + 1)" % (a, a)
    hs = "nx(%s) == K::Hash" % at(a)
    fn(f, a, "parse_i8", "%s && %s == Some((tree(vx_e), final(%s).pos as int))" % (hs, rd, a), "!(%s) || %s is None" % (hs, rd))
    f, (a,) = forms.params(g("parse_im"), 1)
    fn(f, a, "parse_im", "ind(nx(%s)) == Some(vx_e.1) && final(%s).pos == old(%s).pos + 1" % (at(a), a, a), "ind(nx(%s)) is None" % at(a))
    f, (a,) = forms.params(g("parse_arg"), 1)
    fn(f, a, "parse_arg", "item(1, %s) == Some((arg_v(vx_e), final(%s).pos as int)) && arg_ok(vx_e)" % (at(a), a), "item(1, %s) is None" % at(a))
    f, (a,) = forms.params(g("parse_byte_value"), 1)
    predicates(f)
    texts(f)
    fn(f, a, "parse_byte_value", "item(2, %s) == Some((byte_val(vx_e), final(%s).pos as int))" % (at(a), a), "item(2, %s) is None" % at(a))
    for name, it, ty, kd, vs in (("parse_args", "parse_arg", "Arg", 1, "args_v"), ("parse_exprs", "parse_expr", "Expr", 0, "word_vals"),
                                 ("parse_byte_vals", "parse_byte_value", "ByteValue", 2, "byte_vals")):
        use, f, a = list_fn(p, name, it, ty)
        okx = " && args_ok(%s@)" if kd == 1 else ""
        v = "results"
        # a `loop` with `break`s says itself when it is left
        leave = "ensures ws(*%s).len() <= %s.pos,\n" % (a, a) if f.loops and f.loops[0][0] == "loop" else ""
        f.loop(0, inv="invariant wf(&self.expr_parser), fs(*%s), same_stream(*%s, *old(%s)), old(%s).pos < %s.pos,\n    list(%d, %s) == rest(%d, ws(*old(%s)), %s.pos as int, %s(%s@))%s,\n"
                      "%sdecreases %s.tokens@.len() - %s.pos," % (a, a, a, a, a, kd, at(a), kd, a, a, vs, v, okx % v if okx else "", leave, a, a),
               before="proof { assert(%s(%s@) =~= seq![%s(%s@)[0]]); further(ws(*old(%s)), 0, old(%s).pos as int); further(ws(*old(%s)), 0, old(%s).pos + 1); }" % (vs, v, vs, v, a, a, a, a),
               start="let ghost vx_r = %s(%s@); let ghost vx_p = %s.pos as int; proof { at_words(%s.tokens@); further(ws(*%s), 0, vx_p + 1); further(ws(*%s), 0, vx_p + 2); }" % (vs, v, a, a, a, a),
               end="proof { assert(%s(%s@) =~= vx_r.push(%s(%s@).last())); }" % (vs, v, vs, v))
        ok = "list(%d, %s) == Some(%s(vx_e@)) && final(%s).pos == ws(*final(%s)).len()%s" % (kd, at(a), vs, a, a, okx % "vx_e" if okx else "")
        f.body_start("proof { assert(%s(Seq::empty()) =~= Seq::empty()); }" % vs)
        fn(f, a, "parse_list (%s)" % it, ok, "list(%d, %s) is None" % (kd, at(a)))
        a2 = forms.params(g(name), 1)[1][0]
        fn(use, a2, name, ok.replace("(%s)" % a, "(%s)" % a2), "list(%d, %s) is None" % (kd, at(a2)))
    u.rewrites.append("parse_list is proved once for each of its uses in parse_args, parse_exprs and parse_byte_vals, with the closure that is passed in the place of the parameter")
    f, (a,) = forms.params(g("parse_gen_instr"), 1)
    lst = "list(1, ws(*old(%s)), old(%s).pos + 1)" % (a, a)
    nm = "nx(%s)" % at(a)
    fn(f, a, "parse_gen_instr", "%s == K::Name(vx_e.1@) && %s == Some(args_v(vx_e.2@)) && args_ok(vx_e.2@) && final(%s).pos == ws(*final(%s)).len()" % (nm, lst, a, a),
       "!(%s is Name) || %s is None" % (nm, lst))
    mk, (a, b, c) = forms.params(p.find("fn make_instr").text, 3)
    u.fn(mk, PAR + ": make_instr", mode="assume",
         ens=["match r { Ok(s) => match s { Some(Statement::Instr(sp, i)) => chosen(word(%s@), %s@, i), _ => false }, Err(_) => !fits(word(%s@), %s@) }" % (b, c, b, c)])
    ex, (a,) = forms.params(gen.find("impl<Ex,IM>Instr<Ex,IM>", "fn exists").text, 1)
    u.open("impl<Ex, IM> Instr<Ex, IM> {")
    u.fn(ex, "derive: Instr::exists", impl="impl<Ex, IM> Instr<Ex, IM>", mode="assume", ens=["r == known(word(%s@))" % a])
    u.close()
    f, (a,) = forms.params(g("parse_instr"), 1)
    predicates(f)
    texts(f)
    ia = "instr_at(%s)" % at(a)
    said = "Some((first({st}), then({st}), final(%s).pos as int))" % a
    f.body_start("proof { reveal(instr_at); reveal(misfit); words_dot(); assert forall|vx_n: Seq<char>, vx_x: Seq<Arg>, vx_i: Instr<Expr, IndirectionMode>| #[trigger] chosen(word(vx_n), vx_x, vx_i) implies "
                 "known(word(vx_n)) && mnemonic(vx_i) == vx_n && operands(vx_i) == args_v(vx_x) by { op_any(vx_n, vx_x, vx_i); } }")
    fn(f, a, "parse_instr", "match vx_e { Some(vx_s) => %s == %s && !(vx_s is Label) && call_ok(vx_s), None => %s is None && final(%s).pos == old(%s).pos && !(nx(%s) is Name && !begins_dot(nx(%s)->Name_0)) }"
       % (ia, said.format(st="vx_s"), ia, a, a, at(a), at(a)), "misfits(%s)" % ia)
    f, (a,) = forms.params(include(u, g("parse_directive")), 1)
    predicates(f)
    texts(f)
    f.body_start("proof { reveal(dir_at); words_dot(); }")
    nm = "nx(%s)" % at(a)
    da = "dir_at(%s->Name_0, %s)" % (nm, at(a))
    inc = "%s == K::Name(\".include\"@)" % nm
    fn(f, a, "parse_directive", "%s || match vx_e { Some(vx_s) => %s is Name && dir_name(%s->Name_0) && %s == %s && !(vx_s is Label) && call_ok(vx_s), "
       "None => !(%s is Name && dir_name(%s->Name_0)) && final(%s).pos == old(%s).pos }" % (inc, nm, nm, da, said.format(st="vx_s"), nm, nm, a, a),
       "%s || (%s is Name && dir_name(%s->Name_0) && %s is None)" % (inc, nm, nm, da), attrs=["verifier::rlimit(60)", "verifier::spinoff_prover"])
    f, (a,) = forms.params(g("parse_statement"), 1)
    predicates(f)
    texts(f)
    f.body_start("proof { reveal(stmt); reveal(dir_at); reveal(instr_at); words_dot(); }")
    fn(f, a, "parse_statement", "include_at(%s) || (stmt(%s) == %s && call_ok(vx_e))" % (at(a), at(a), said.format(st="vx_e")), "include_at(%s) || misfits(stmt(%s))" % (at(a), at(a)))
    u.open("impl Statement {")
    u.fn(Fn(srcs[AST].find("impl Statement", "fn is_label").text), AST + ": Statement::is_label", impl="impl Statement", ens=["r == (self is Label)"])
    u.close()
    c_parse_line(u, p)
    return u


def c_parse_line(u, p, mode="verify"):
    f, (a, b) = forms.params(p.find("impl Parser", "fn parse_line").text, 2)
    s = "ws(*old(%s))" % a
    if mode == "verify":
        f.body_start("proof { at_words(%s.tokens@); }" % a)
        f.body_start("proof { reveal(instr_at); }")
    ok = ("include_at(%s, 0) || (line_of(%s) is Some && old(%s)@.len() <= final(%s)@.len() && final(%s)@.take(old(%s)@.len() as int) == old(%s)@ && told(final(%s)@.skip(old(%s)@.len() as int), line_of(%s)->0))"
          % (s, s, b, b, b, b, b, b, b, s))
    u.fn(f, PAR + ": Parser::parse_line", impl="impl Parser", mode=mode, req=[x.replace("%s", a) for x in ("wf(&self.expr_parser)", "fs(*old(%s))", "old(%s).pos == 0")],
         ens=[x.replace("%s", a) for x in ("ok(*final(%s))", "r is Ok ==> fs(*final(%s))", "same_stream(*final(%s), *old(%s))", "final(%s).pos >= old(%s).pos")]
         + ["match r { Ok(vx_e) => %s, Err(_) => include_at(%s, 0) || line_misfits(%s) }" % (ok, s, s)])


FILE = """
pub type Key = (Seq<char>, usize);
/// a statement of the body of a macro
pub enum MS { Label(Seq<char>), MacroLabel(Seq<char>), Instr(Seq<char>, Seq<V>) }
pub open spec fn ms(x: MacroStatement) -> MS {
    match x { MacroStatement::Label(_, n) => MS::Label(n@), MacroStatement::MacroLabel(_, n) => MS::MacroLabel(n@), MacroStatement::Instr(_, n, a) => MS::Instr(n@, args_v(a@)) }
}
pub open spec fn ms_ok(x: MacroStatement) -> bool { match x { MacroStatement::Instr(_, _, a) => args_ok(a@), _ => true } }
pub open spec fn mss(s: Seq<MacroStatement>) -> Seq<MS> { s.map(|i: int, x: MacroStatement| ms(x)) }
pub open spec fn mss_ok(s: Seq<MacroStatement>) -> bool { forall|i: int| 0 <= i < s.len() ==> ms_ok(#[trigger] s[i]) }
/// the label before an instruction, and where it ends; one is the number of tokens of the line
pub open spec fn mlabel(s: Seq<K>, one: bool) -> (Seq<MS>, int) {
    match nx(s, 0) {
        K::Name(n) => if nx(s, 1) == K::Colon { (seq![MS::Label(n)], 2) } else if begins_dot(n) && one { (seq![MS::Label(n)], 1) } else { (Seq::empty(), 0) },
        K::MacroLabel(n) => if nx(s, 1) == K::Colon { (seq![MS::MacroLabel(n)], 2) } else if begins_dot(n) && one { (seq![MS::MacroLabel(n)], 1) } else { (Seq::empty(), 0) },
        _ => (Seq::empty(), 0),
    }
}
/// a line of the body of a macro
#[verifier::opaque]
pub open spec fn mstmt(s: Seq<K>, one: bool) -> Option<Seq<MS>> {
    let (l, q) = mlabel(s, one);
    match nx(s, q) {
        K::Name(n) => if begins_dot(n) { None } else { match list(1, s, q + 1) { Some(vs) => Some(l.push(MS::Instr(n, vs))), None => None } },
        _ => if q < s.len() { None } else { Some(l) },
    }
}
pub open spec fn par(v: V) -> Option<Seq<char>> { match v { V::Ex(T::Arg(n)) => Some(n), _ => None } }
pub open spec fn pars_ok(vs: Seq<V>) -> bool {
    (forall|i: int| 0 <= i < vs.len() ==> par(#[trigger] vs[i]) is Some) && (forall|i: int, j: int| 0 <= i < j < vs.len() ==> par(#[trigger] vs[i]) != par(#[trigger] vs[j]))
}
pub open spec fn pars(vs: Seq<V>) -> Seq<Seq<char>> { vs.map(|i: int, v: V| par(v)->0) }
/// the first line of a macro: its name and its parameters
#[verifier::opaque]
pub open spec fn mhead(s: Seq<K>) -> Option<(Seq<char>, Seq<Seq<char>>)> {
    match (nx(s, 0), nx(s, 1)) {
        (K::MacroIdent(_), K::Name(n)) => if known(word(n)) { None } else { match list(1, s, 2) { Some(vs) => if pars_ok(vs) { Some((n, pars(vs))) } else { None }, None => None } },
        _ => None,
    }
}
pub open spec fn par_names(s: Seq<(Span, String)>) -> Seq<Seq<char>> { s.map(|i: int, x: (Span, String)| x.1@) }
pub open spec fn par_of(a: Arg) -> Option<Seq<char>> { match a { Arg::MacroArg(_, n) => Some(n@), _ => None } }
pub uninterp spec fn sp_start(s: Span) -> Location;
pub uninterp spec fn sp_end(s: Span) -> Location;
pub uninterp spec fn line_no(l: Location) -> usize;
pub uninterp spec fn file_no(l: Location) -> FileID;
/// b begins on another line than the one on which a ends
pub open spec fn breaks(a: Token, b: Token) -> bool { line_no(sp_end(a.span)) != line_no(sp_start(b.span)) || file_no(sp_end(a.span)) != file_no(sp_start(b.span)) }
/// where the line that begins at p ends, at e or later
pub open spec fn line_end(t: Seq<Token>, p: int, e: int) -> int
    decreases t.len() - e
{ if e >= t.len() || t[e - 1].token_type is EOF || breaks(t[p], t[e]) { e } else { line_end(t, p, e + 1) } }
/// the lines from p on, after those in acc
pub open spec fn split(t: Seq<Token>, p: int, acc: Seq<Seq<Token>>) -> Seq<Seq<Token>>
    decreases t.len() - p
{
    let e = line_end(t, p, p + 1);
    if 0 <= p < e <= t.len() { split(t, e, acc.push(t.subrange(p, e))) } else { acc }
}
pub open spec fn seqs(v: Seq<&[Token]>) -> Seq<Seq<Token>> { v.map(|i: int, x: &[Token]| x@) }
pub open spec fn opens(l: Seq<Token>, n: Seq<char>) -> bool { l.len() > 0 && kind(l[0].token_type) == K::MacroIdent(n) }
/// where the body of a macro ends that begins at j
pub open spec fn body_end(ls: Seq<Seq<Token>>, j: int) -> int
    decreases ls.len() - j
{ if j >= ls.len() { j } else if opens(ls[j], "%%end"@) { j + 1 } else { body_end(ls, j + 1) } }
/// the lines that belong to no macro
pub open spec fn outside(ls: Seq<Seq<Token>>, i: int, acc: Seq<Seq<Token>>) -> Seq<Seq<Token>>
    decreases ls.len() - i
{
    if i < 0 || i >= ls.len() { acc } else if opens(ls[i], "%%macro"@) { if i < body_end(ls, i + 1) <= ls.len() { outside(ls, body_end(ls, i + 1), acc) } else { acc } }
    else { outside(ls, i + 1, acc.push(ls[i])) }
}
pub struct Def { pub params: Seq<Seq<char>>, pub body: Seq<MS> }
pub open spec fn body(ls: Seq<Seq<Token>>, j: int, acc: Seq<MS>) -> Option<Seq<MS>>
    decreases ls.len() - j
{
    if j < 0 || j >= ls.len() { Some(acc) } else if opens(ls[j], "%%end"@) { if words(ls[j]).len() == 1 { Some(acc) } else { None } }
    else { match mstmt(words(ls[j]), ls[j].len() == 1) { Some(x) => body(ls, j + 1, acc + x), None => None } }
}
/// the macros of a file, by their name and the number of their parameters
pub open spec fn defs(ls: Seq<Seq<Token>>, i: int, m: Map<Key, Def>) -> Option<Map<Key, Def>>
    decreases ls.len() - i
{
    if i < 0 || i >= ls.len() { Some(m) } else if !opens(ls[i], "%%macro"@) { defs(ls, i + 1, m) } else {
        match (mhead(words(ls[i])), body(ls, i + 1, Seq::empty())) {
            (Some((n, ps)), Some(b)) => if !m.dom().contains((n, ps.len() as usize)) && i < body_end(ls, i + 1) <= ls.len() {
                defs(ls, body_end(ls, i + 1), m.insert((n, ps.len() as usize), Def { params: ps, body: b }))
            } else { None },
            _ => None,
        }
    }
}
pub open spec fn is_def(d: MacroDefinition, x: Def) -> bool { par_names(d.args@) == x.params && mss(d.body@) == x.body && mss_ok(d.body@) }
pub open spec fn are_defs(m: Map<Key, MacroDefinition>, x: Map<Key, Def>) -> bool { m.dom() == x.dom() && forall|k: Key| #[trigger] m.dom().contains(k) ==> is_def(m[k], x[k]) }
/// those of the first i lines that are not marked
pub open spec fn kept(ls: Seq<Seq<Token>>, f: Seq<bool>, i: int) -> Seq<Seq<Token>>
    decreases i
{ if i <= 0 { Seq::empty() } else if f[i - 1] { kept(ls, f, i - 1) } else { kept(ls, f, i - 1).push(ls[i - 1]) } }
/// the statements of the first i lines
pub open spec fn said_to(ls: Seq<Seq<Token>>, i: int) -> Seq<Stmt>
    decreases i
{ if i <= 0 { Seq::empty() } else { said_to(ls, i - 1) + line_of(words(ls[i - 1]))->0 } }
pub open spec fn includes(ls: Seq<Seq<Token>>) -> bool { exists|i: int| 0 <= i < ls.len() && include_at(words(#[trigger] ls[i]), 0) }
pub open spec fn all_read(ls: Seq<Seq<Token>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> line_of(words(#[trigger] ls[i])) is Some }
pub open spec fn bad_line(ls: Seq<Seq<Token>>) -> bool { exists|i: int| 0 <= i < ls.len() && line_misfits(words(#[trigger] ls[i])) }
""".replace("%%", "%")

FILE_LEMMAS = """
proof fn line_ends(t: Seq<Token>, p: int, e: int)
    requires 0 <= p < e <= t.len(),
    ensures e <= line_end(t, p, e) <= t.len(), forall|k: int| e - 1 <= k < line_end(t, p, e) - 1 ==> !((#[trigger] t[k]).token_type is EOF),
    decreases t.len() - e,
{ if e < t.len() && !(t[e - 1].token_type is EOF) && !breaks(t[p], t[e]) { line_ends(t, p, e + 1); } }
/// numbers are not negative: the lexer reads no sign
pub open spec fn plain(t: Seq<Token>) -> bool { forall|i: int| 0 <= i < t.len() ==> match (#[trigger] t[i]).token_type { TokenType::Number(n, _) => n >= 0, _ => true } }
proof fn kept_same(ls: Seq<Seq<Token>>, f: Seq<bool>, g: Seq<bool>, i: int)
    requires i <= f.len(), i <= g.len(), forall|k: int| 0 <= k < i ==> f[k] == #[trigger] g[k],
    ensures kept(ls, f, i) == kept(ls, g, i),
    decreases i,
{ if i > 0 { kept_same(ls, f, g, i - 1); assert(f[i - 1] == g[i - 1]); } }
proof fn body_ends(ls: Seq<Seq<Token>>, j: int)
    requires 0 <= j <= ls.len(),
    ensures j <= body_end(ls, j) <= ls.len(),
    decreases ls.len() - j,
{ if j < ls.len() && !opens(ls[j], "%end"@) { body_ends(ls, j + 1); } }
pub open spec fn lexed_lines(ls: Seq<Seq<Token>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> lexed(#[trigger] ls[i]) && 0 < ls[i].len() < usize::MAX }
proof fn line_fs(ls: Seq<Seq<Token>>, i: int)
    requires lexed_lines(ls), 0 <= i < ls.len(),
    ensures lexed(ls[i]), 0 < ls[i].len() < usize::MAX,
{}
proof fn split_lexed(t: Seq<Token>, p: int, acc: Seq<Seq<Token>>)
    requires plain(t), lexed_lines(acc), 0 <= p, t.len() < usize::MAX,
    ensures lexed_lines(split(t, p, acc)),
    decreases t.len() - p,
{
    let e = line_end(t, p, p + 1);
    if p < e <= t.len() {
        let l = t.subrange(p, e);
        line_ends(t, p, p + 1);
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) == t[p + i] by {}
        assert(lexed(l));
        split_lexed(t, e, acc.push(l));
    }
}
proof fn split_short(t: Seq<Token>, p: int, acc: Seq<Seq<Token>>)
    requires 0 <= p <= t.len(), acc.len() <= p,
    ensures split(t, p, acc).len() <= t.len(),
    decreases t.len() - p,
{
    let e = line_end(t, p, p + 1);
    if p < e <= t.len() { split_short(t, e, acc.push(t.subrange(p, e))); }
}
proof fn macro_words()
    ensures "%macro"@ != "%end"@,
{ reveal_strlit("%macro"); reveal_strlit("%end"); assert("%macro"@.len() != "%end"@.len()); }
"""

FILE_STD = """
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileID { pub x: usize }
impl Location {
    #[verifier::external_body]
    pub fn line(&self) -> (r: usize)
        ensures r == line_no(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn file(&self) -> (r: FileID)
        ensures r == file_no(*self),
    { unimplemented!() }
}
impl Span {
    #[verifier::external_body]
    pub fn start(&self) -> (r: &Location)
        ensures *r == sp_start(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: &Location)
        ensures *r == sp_end(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from(a: &Span, b: &Span) -> Span { unimplemented!() }
}
"""


def macro_unit(name, srcs, gen):
    import disasm
    u = Unit(name)
    types(u, srcs, FILE_STD)
    u.assumed.append("Span::start, Span::end, Location::line and Location::file give what they are named for (C20 proves what the lexer puts there)")
    u.raw(exprs.PARSER_SPEC.split("/// the level")[0])
    exprs.stream(u, srcs)
    u.lemmas(AT)
    tokens_and_stream(u, srcs, True)
    u.raw(core.HASHMAP, "assumed")
    u.raw(disasm.HASHSET, "assumed")
    u.assumed.append("std HashMap and HashSet behave as finite maps and sets")
    core.items(u, srcs[AST], "struct MacroIdentifier", "struct MacroDefinition", "enum MacroStatement", "struct Statements")
    u.raw("impl KeyView for MacroIdentifier { type KV = Key; open spec fn kv(&self) -> Key { (self.name@, self.arity) } }")
    core.items(u, srcs[PAR], "type Macros")
    u.raw(FILE)
    u.lemmas(FILE_LEMMAS)
    a = srcs[AST]
    for t, n, e in (("MacroIdentifier", "new", "r == (MacroIdentifier { name, arity })"), ("MacroDefinition", "new", "r == (MacroDefinition { span, name, args, body })"),
                    ("MacroDefinition", "span", "*r == self.span"), ("Statements", "new", "r.macros@ == macros@, r.statements@ == statements@")):
        u.fn(Fn(a.find("impl " + t, "fn " + n).text), AST + ": %s::%s" % (t, n), impl="impl " + t, ens=[e])
    I = "impl<'a> TokenStream<'a>"
    p = srcs[PAR]
    f, (x,) = forms.params(p.find(I.replace(" T", "T"), "fn from").text, 1)
    u.open(I + " {")
    u.fn(f, PAR + ": TokenStream::from", impl=I, ens=["r.pos == 0", "r.tokens@ == %s@" % x])
    u.fn(Fn(p.find(I.replace(" T", "T"), "fn len").text), PAR + ": TokenStream::len", impl=I, req=["ok(*self)"], ens=["r == self.tokens@.len() - self.pos"])
    u.close()
    # what is proved in the unit `reading`
    REQ = ["wf(&self.expr_parser)", "fs(*old({0}))"]
    SAME = ["ok(*final({0}))", "r is Ok ==> fs(*final({0}))", "same_stream(*final({0}), *old({0}))", "final({0}).pos >= old({0}).pos"]
    f, (b,) = forms.params(p.find("impl Parser", "fn parse_args").text, 1)
    at = "ws(*old(%s)), old(%s).pos as int" % (b, b)
    u.fn(f, PAR + ": Parser::parse_args", impl="impl Parser", mode="assume", req=[x.format(b) for x in REQ],
         ens=[x.format(b) for x in SAME] + ["match r {{ Ok(vx_e) => list(1, {0}) == Some(args_v(vx_e@)) && final({1}).pos == ws(*final({1})).len() && args_ok(vx_e@), Err(_) => list(1, {0}) is None }}".format(at, b)])
    f, (b,) = forms.params(p.find("impl Parser", "fn parse_gen_instr").text, 1)
    at = "ws(*old(%s)), old(%s).pos as int" % (b, b)
    lst = "list(1, ws(*old(%s)), old(%s).pos + 1)" % (b, b)
    u.fn(f, PAR + ": Parser::parse_gen_instr", impl="impl Parser", mode="assume", req=[x.format(b) for x in REQ],
         ens=[x.format(b) for x in SAME] + ["match r {{ Ok(vx_e) => nx({0}) == K::Name(vx_e.1@) && {2} == Some(args_v(vx_e.2@)) && args_ok(vx_e.2@) && final({1}).pos == ws(*final({1})).len(), "
                                            "Err(_) => !(nx({0}) is Name) || {2} is None }}".format(at, b, lst)])
    ex, (b,) = forms.params(gen.find("impl<Ex,IM>Instr<Ex,IM>", "fn exists").text, 1)
    u.open("impl<Ex, IM> Instr<Ex, IM> {")
    u.fn(ex, "derive: Instr::exists", impl="impl<Ex, IM> Instr<Ex, IM>", mode="assume", ens=["r == known(word(%s@))" % b])
    u.close()
    return u


def annotate(f, types):
    """`let mut x = vec![];` gets the type that rustc infers, which Verus needs before it reads the invariants."""
    T = f.toks
    for i in range(f.ibody, f.iend - 6):
        if [t.s for t in T[i:i + 2]] == ["let", "mut"] and T[i + 2].s in types and [t.s for t in T[i + 3:i + 8]] == ["=", "vec", "!", "[", "]"]:
            f.ins(T[i + 2].b, ": " + types[T[i + 2].s])


def c_macro_statement(u, p, mode="verify"):
    f, (a,) = forms.params(p.find("impl Parser", "fn parse_macro_statement").text, 1)
    m = "mstmt(ws(*old({0})), old({0}).tokens@.len() == 1)".format(a)
    if mode == "verify":
        predicates(f)
        texts(f)
        f.body_start("proof { at_words(%s.tokens@); reveal(mstmt); words_dot(); assert forall|vx_v: Seq<MacroStatement>, vx_s: MacroStatement| #[trigger] mss(vx_v.push(vx_s)) == mss(vx_v).push(ms(vx_s)) by { assert(mss(vx_v.push(vx_s)) =~= mss(vx_v).push(ms(vx_s))); } "
                     "assert(mss(Seq::empty()) =~= Seq::empty()); assert(Seq::<MS>::empty().push(MS::Label(Seq::empty())) =~= seq![MS::Label(Seq::empty())]); }" % a)
    u.fn(f, PAR + ": Parser::parse_macro_statement", impl="impl Parser", mode=mode, req=["wf(&self.expr_parser)", "fs(*old(%s))" % a, "old(%s).pos == 0" % a],
         ens=["match r {{ Ok(vx_e) => {0} == Some(mss(vx_e@)) && mss_ok(vx_e@), Err(_) => {0} is None }}".format(m)])


def c_macro_header(u, p, mode="verify"):
    f, (d, a) = forms.params(p.find("impl Parser", "fn parse_macro_header").text, 2)
    if mode == "verify":
        t = re.sub(r"(?m)^\s*use crate::parser::Arg::\*;\s*$", "", p.find("impl Parser", "fn parse_macro_header").text)
        f, (d, a) = forms.params(t, 2)
        T = f.toks
        for i in range(f.ibody, f.iend):
            if T[i].s == "MacroArg" and T[i + 1].s == "(" and T[i - 1].s in ("{", ",", "}", "|"):
                f.rep(T[i].a, T[i].b, "Arg::MacroArg")
        annotate(f, {"arg_names": "Vec<(Span, String)>"})
        f.loop(0, "it", "invariant it.seq().len() == args@.len(), forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] it.seq()[k]) == args@[k], arg_names@.len() == it.index(), args_ok(args@),\n"
               "    forall|k: int| 0 <= k < it.index() ==> par_of((#[trigger] args@[k])) == Some(par_names(arg_names@)[k]),\n"
               "    forall|k: int, l: int| 0 <= k < l < it.index() ==> (#[trigger] arg_names@[k]).1@ != (#[trigger] arg_names@[l]).1@,\n"
               "    forall|x: Seq<char>| #[trigger] seen@.contains(x) <==> exists|k: int| 0 <= k < it.index() && (#[trigger] arg_names@[k]).1@ == x,\n"
               "    vx_vs == args_v(args@), list(1, ws(*old(%s)), 2) == Some(vx_vs), mhead(ws(*old(%s))) is Some == pars_ok(vx_vs), ok(*%s), same_stream(*%s, *old(%s)), %s.pos == ws(*%s).len(), fs(*%s),\n" % (a, a, a, a, a, a, a, a),
               before="let ghost vx_vs = args_v(args@); proof { reveal(mhead); }",
               start="proof { let vx_i = it.index() as int; assert(vx_vs[vx_i] == arg_v(args@[vx_i])); assert(arg_ok(args@[vx_i])); assert forall|k: int| 0 <= k < vx_i implies vx_vs[k] == #[trigger] arg_v(args@[k]) && par(vx_vs[k]) == Some(par_names(arg_names@)[k]) by { assert(par_of(args@[k]) is Some); } "
               "if args@[vx_i] is MacroArg { assert forall|k: int| 0 <= k < vx_i && (#[trigger] arg_names@[k]).1@ == args@[vx_i]->MacroArg_1@ implies !pars_ok(vx_vs) by { assert(vx_vs[k] == arg_v(args@[k])); assert(par(vx_vs[k]) == par(vx_vs[vx_i])); } } else { assert(par(vx_vs[vx_i]) is None); } }\nlet ghost vx_n = arg_names@;",
               end="proof { let vx_i = it.index() as int; assert forall|x: Seq<char>| #[trigger] seen@.contains(x) <==> exists|k: int| 0 <= k <= vx_i && (#[trigger] arg_names@[k]).1@ == x by { assert(arg_names@[vx_i].1@ == args@[vx_i]->MacroArg_1@); assert(par_of(args@[vx_i]) == Some(arg_names@[vx_i].1@)); assert forall|k: int| 0 <= k < vx_i implies arg_names@[k] == vx_n[k] by {} } }",
               after="proof { reveal(mhead); assert forall|k: int| 0 <= k < vx_vs.len() implies par(#[trigger] vx_vs[k]) == Some(arg_names@[k].1@) by { assert(vx_vs[k] == arg_v(args@[k])); assert(par_of(args@[k]) is Some); } "
                     "assert forall|k: int, l: int| 0 <= k < l < vx_vs.len() implies par(#[trigger] vx_vs[k]) != par(#[trigger] vx_vs[l]) by { assert(arg_names@[k].1@ != arg_names@[l].1@); } assert(pars(vx_vs) =~= par_names(arg_names@)); }")
        f.body_start("proof { at_words(%s.tokens@); reveal(mhead); }" % a)
    h = "mhead(ws(*old(%s)))" % a
    u.fn(f, PAR + ": Parser::parse_macro_header", impl="impl Parser", mode=mode, req=["wf(&self.expr_parser)", "fs(*old(%s))" % a, "old(%s).pos == 0" % a],
         ens=["match r {{ Ok(vx_e) => {0} == Some((vx_e.1@, par_names(vx_e.2@))) && !{1}@.dom().contains((vx_e.1@, vx_e.2@.len() as usize)), "
              "Err(_) => {0} is None || {1}@.dom().contains((({0}->0).0, ({0}->0).1.len() as usize)) }}".format(h, d)])


def build_macro(srcs, gen):
    u = macro_unit("reading_macro", srcs, gen)
    p = srcs[PAR]
    c_macro_statement(u, p)
    c_macro_header(u, p)
    c_lines(u, p, "assume")
    c_macros(u, p)
    return u


def build_file(srcs, gen):
    u = macro_unit("reading_file", srcs, gen)
    p = srcs[PAR]
    c_lines(u, p)
    c_macros(u, p, "assume")
    c_parse_line(u, p, "assume")
    u.lemmas(LOOP_LEMMAS)
    f, (a,) = forms.params(p.find("impl Parser", "fn parse").text, 1)
    annotate(f, {"statements": "Vec<Statement>"})
    if len(f.loops) != 1 or f.loops[0][0] != "for":
        raise Lost("parse: loop 0")
    k, i, kin, ob, cb = f.loops[0]
    it = [t.s for t in f.toks[kin + 1:ob]]
    if it[1:] != [".", "iter", "(", ")"]:
        raise Lost("parse: loop over the lines")
    ls = "outside(split(%s@, 0, Seq::empty()), 0, Seq::empty())" % a
    v = it[0]
    f.loop(0, "it", "invariant it.seq().len() == vx_ls.len(), forall|k: int| 0 <= k < vx_ls.len() ==> (*(#[trigger] it.seq()[k]))@ == vx_ls[k], vx_ls == %s, lexed_lines(vx_ls), wf(&self.expr_parser),\n"
           "    includes(vx_ls) || (all_read(vx_ls, it.index() as int) && told(statements@, said_to(vx_ls, it.index() as int))),\n" % ls,
           before="let ghost vx_ls = seqs(%s@); proof { split_lexed(%s@, 0, Seq::empty()); outside_lexed(split(%s@, 0, Seq::empty()), 0, Seq::empty()); }" % (v, a, a),
           start="let ghost vx_i = it.index() as int; let ghost vx_s = statements@; proof { line_fs(vx_ls, vx_i); assert(include_at(words(vx_ls[vx_i]), 0) ==> includes(vx_ls)); assert(line_misfits(words(vx_ls[vx_i])) ==> bad_line(vx_ls)); }",
           end="proof { if !includes(vx_ls) { told_more(vx_s, statements@, said_to(vx_ls, vx_i), line_of(words(vx_ls[vx_i]))->0); } }")
    u.fn(f, PAR + ": Parser::parse", impl="impl Parser", req=["wf(&self.expr_parser)", "plain(%s@)" % a, "%s@.len() < usize::MAX" % a],
         attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
         ens=["match r {{ Ok(vx_e) => (includes({1}) || (all_read({1}, {1}.len() as int) && told(vx_e.statements@, said_to({1}, {1}.len() as int)))) && defs({0}, 0, Map::empty()) is Some && are_defs(vx_e.macros@, defs({0}, 0, Map::empty())->0), "
              "Err(_) => defs({0}, 0, Map::empty()) is None || includes({1}) || bad_line({1}) }}".format("split(%s@, 0, Seq::empty())" % a, ls)])
    return u


LOOP_LEMMAS = """
proof fn outside_lexed(ls: Seq<Seq<Token>>, i: int, acc: Seq<Seq<Token>>)
    requires lexed_lines(ls), lexed_lines(acc),
    ensures lexed_lines(outside(ls, i, acc)),
    decreases ls.len() - i,
{
    if 0 <= i < ls.len() {
        line_fs(ls, i);
        if opens(ls[i], "%macro"@) { if i < body_end(ls, i + 1) <= ls.len() { outside_lexed(ls, body_end(ls, i + 1), acc); } }
        else { outside_lexed(ls, i + 1, acc.push(ls[i])); }
    }
}
proof fn told_more(s: Seq<Statement>, t: Seq<Statement>, l: Seq<Stmt>, m: Seq<Stmt>)
    requires told(s, l), s.len() <= t.len(), t.take(s.len() as int) == s, told(t.skip(s.len() as int), m),
    ensures told(t, l + m),
{
    assert forall|i: int| 0 <= i < t.len() implies is_said(#[trigger] t[i], (l + m)[i]) by {
        if i < s.len() { assert(t.take(s.len() as int)[i] == t[i]); } else { assert(t.skip(s.len() as int)[i - s.len()] == t[i]); }
    }
}
"""


def c_lines(u, p, mode="verify"):
    """The iterator over the lines of a file; its `next` is called like any other function."""
    core.items(u, p, "struct LineIterator")
    t = p.find("impl<'a> Iterator for LineIterator<'a>", "fn next").text
    f = Fn(t)
    if mode == "verify":
        f.loop(0, None, "invariant start < end <= self.tokens@.len(), self.tokens@.len() < usize::MAX, start == old(self).pos, self.tokens@ == old(self).tokens@, self.pos == old(self).pos,\n"
               "    start_line == line_no(sp_end(self.tokens@[start as int].span)), start_file == file_no(sp_end(self.tokens@[start as int].span)),\n"
               "    line_end(self.tokens@, start as int, start + 1) == line_end(self.tokens@, start as int, end as int),\n"
               "decreases self.tokens@.len() - end,")
        f.body_start("proof { if self.pos < self.tokens@.len() { line_ends(self.tokens@, self.pos as int, self.pos + 1); } }")
    I = "impl<'a> LineIterator<'a>"
    u.open(I + " {")
    u.fn(f, PAR + ": LineIterator::next", impl=I, mode=mode, req=["old(self).tokens@.len() < usize::MAX"],
         ens=["final(self).tokens@ == old(self).tokens@",
              "match r { Some(vx_l) => old(self).pos < old(self).tokens@.len() && final(self).pos == line_end(old(self).tokens@, old(self).pos as int, old(self).pos + 1) && old(self).pos < final(self).pos <= old(self).tokens@.len() "
              "&& vx_l@ == old(self).tokens@.subrange(old(self).pos as int, final(self).pos as int), None => old(self).pos >= old(self).tokens@.len() && final(self).pos == old(self).pos }"])
    u.close()
    t = re.sub(r"-> impl Iterator<Item = &\[Token\]>", "-> LineIterator<'_>", p.find("fn lines").text)
    f, (x,) = forms.params(t, 1)
    u.fn(f, PAR + ": lines", mode=mode, ens=["r.pos == 0", "r.tokens@ == %s@" % x])
    u.rewrites.append("`lines` names the type of the iterator that it returns; `next` is an inherent function of it, and a `for` over it is the loop that Rust makes of it")


def c_macros(u, p, mode="verify"):
    f, (a,) = forms.params(p.find("impl Parser", "fn parse_macros").text, 1)
    sp = "split(%s@, 0, Seq::empty())" % a
    if mode == "verify":
        predicates(f)
        T = f.toks
        kind_, i, kin, ob, cb = f.loops[0]
        if kind_ != "for" or [t.s for t in T[kin + 1:ob]] != ["lines", "(", a, ")"] or kin != i + 2:
            raise Lost("parse_macros: loop 0")
        annotate(f, {"results": "Vec<&'a [Token]>", "statements": "Vec<MacroStatement>", "new_lines": "Vec<&'a [Token]>"})
        inv = ("\nlet ghost vx_it = vx_lines; proof { assert(seqs(results@) =~= Seq::empty()); }\nlet mut vx_lines = vx_lines;\nloop\n"
               "    invariant vx_lines.tokens@ == %s@, %s@.len() < usize::MAX, split(%s@, vx_lines.pos as int, seqs(results@)) == %s, vx_lines.pos <= %s@.len(),\n"
               "    ensures vx_lines.pos >= %s@.len(),\n    decreases %s@.len() - vx_lines.pos,\n{\nlet ghost vx_r = results@; let ghost vx_p = vx_lines.pos as int;\n"
               "let %s = match vx_lines.next() { Some(vx_x) => vx_x, None => break };\n" % (a, a, a, sp, a, a, a, T[i + 1].s))
        f.rep(T[i].a, T[ob].b, "let vx_lines = lines(%s);" % a + inv.replace("let ghost vx_it = vx_lines; ", ""))
        f.ins(T[cb].a, "proof { assert(seqs(results@) =~= seqs(vx_r).push(%s@.subrange(vx_p, vx_lines.pos as int))); }\n" % a, -1)
        LS = "vx_ls == seqs(lines@), lines@.len() == macro_lines@.len(), lexed_lines(vx_ls), wf(&self.expr_parser), vx_ls.len() == lines@.len(), lines@.len() < usize::MAX,\n"
        OUT = "outside(vx_ls, 0, Seq::empty()) == outside(vx_ls, {0}, kept(vx_ls, macro_lines@, idx as int)), (forall|k: int| idx <= k < macro_lines@.len() ==> !(#[trigger] macro_lines@[k])),\n"
        f.loop(1, None, "invariant vx_ls == %s,\n" % sp + LS + "idx <= lines@.len(), " + OUT.format("idx as int") +
               "    are_defs(macros@, vx_m), defs(vx_ls, 0, Map::empty()) == defs(vx_ls, idx as int, vx_m),\ndecreases lines@.len() - idx,",
               before="let ghost mut vx_m: Map<Key, Def> = Map::empty(); let ghost vx_ls = seqs(lines@); proof { macro_words(); split_lexed(%s@, 0, Seq::empty()); split_short(%s@, 0, Seq::empty()); }" % (a, a),
               start="let ghost vx_i0 = idx as int; let ghost vx_f = macro_lines@; proof { macro_words(); assert(vx_ls[vx_i0] == lines@[vx_i0]@); line_fs(vx_ls, vx_i0); at_words(vx_ls[vx_i0]); body_ends(vx_ls, vx_i0 + 1); }",
               end="proof { if opens(vx_ls[vx_i0], \"%macro\"@) { let (vx_n, vx_ps) = mhead(words(vx_ls[vx_i0]))->0; "
                   "vx_m = vx_m.insert((vx_n, vx_ps.len() as usize), Def { params: vx_ps, body: body(vx_ls, vx_i0 + 1, Seq::empty())->0 }); assert(macros@.dom() =~= vx_m.dom()); assert(are_defs(macros@, vx_m)); "
                   "assert(idx as int == body_end(vx_ls, vx_i0 + 1)); assert(outside(vx_ls, 0, Seq::empty()) == outside(vx_ls, idx as int, kept(vx_ls, macro_lines@, idx as int))); } "
                   "else { assert(!vx_f[vx_i0]); assert(kept(vx_ls, macro_lines@, vx_i0 + 1) == kept(vx_ls, macro_lines@, vx_i0).push(vx_ls[vx_i0])); "
                   "let vx_k = kept(vx_ls, vx_f, vx_i0); assert(outside(vx_ls, vx_i0, vx_k) == outside(vx_ls, vx_i0 + 1, vx_k.push(vx_ls[vx_i0]))); assert(outside(vx_ls, 0, Seq::empty()) == outside(vx_ls, idx as int, kept(vx_ls, macro_lines@, idx as int))); } }")
        f.loop(2, None, "invariant " + LS + "vx_i0 < idx <= lines@.len(), " + OUT.format("body_end(vx_ls, idx as int)") +
               "    body_end(vx_ls, vx_i0 + 1) == body_end(vx_ls, idx as int), body(vx_ls, vx_i0 + 1, Seq::empty()) == body(vx_ls, idx as int, mss(statements@)), mss_ok(statements@),\n"
               "ensures idx as int == body_end(vx_ls, vx_i0 + 1), body(vx_ls, vx_i0 + 1, Seq::empty()) == Some(mss(statements@)), mss_ok(statements@), idx <= lines@.len(), vx_i0 < idx,\n" + OUT.format("idx as int") +
               "decreases lines@.len() - idx,",
               before="proof { assert(mss(statements@) =~= Seq::empty()); kept_same(vx_ls, vx_f, macro_lines@, vx_i0); body_ends(vx_ls, vx_i0 + 1); }",
               start="let ghost vx_j = idx as int; let ghost vx_g = macro_lines@; let ghost vx_s = mss(statements@); let ghost vx_s0 = statements@; proof { macro_words(); assert(vx_ls[vx_j] == lines@[vx_j]@); line_fs(vx_ls, vx_j); at_words(vx_ls[vx_j]); }",
               end="proof { kept_same(vx_ls, vx_g, macro_lines@, vx_j); assert(mss(statements@) =~= vx_s + mstmt(words(vx_ls[vx_j]), vx_ls[vx_j].len() == 1)->0); "
                   "assert(kept(vx_ls, macro_lines@, vx_j + 1) == kept(vx_ls, macro_lines@, vx_j)); }")
        f.at("break;", "proof { kept_same(vx_ls, vx_g, macro_lines@, vx_j); assert(kept(vx_ls, macro_lines@, vx_j + 1) == kept(vx_ls, macro_lines@, vx_j)); }")
        f.loop(3, "it", "invariant vx_ls == %s,\n" % sp + LS + "seqs(new_lines@) == kept(vx_ls, macro_lines@, it.index() as int), it.seq().len() == lines@.len(), forall|k: int| 0 <= k < lines@.len() ==> #[trigger] it.seq()[k] == k,\n",
               before="proof { assert(seqs(new_lines@) =~= Seq::empty()); }",
               start="let ghost vx_n = new_lines@;",
               end="proof { if !macro_lines@[idx as int] { assert(seqs(new_lines@) =~= seqs(vx_n).push(vx_ls[idx as int])); } }")
    u.fn(f, PAR + ": Parser::parse_macros", impl="impl Parser", mode=mode, attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants", "verifier::rlimit(60)", "verifier::spinoff_prover"] if mode == "verify" else [], req=["wf(&self.expr_parser)", "plain(%s@)" % a, "%s@.len() < usize::MAX" % a],
         ens=["match r {{ Ok(vx_e) => seqs(vx_e.0@) == outside({0}, 0, Seq::empty()) && defs({0}, 0, Map::empty()) is Some && are_defs(vx_e.1@, defs({0}, 0, Map::empty())->0), Err(_) => defs({0}, 0, Map::empty()) is None }}".format(sp)])


def include(u, text):
    """The branch of `.include` is not proved here: it is replaced by a call about which nothing is known."""
    f = Fn(text)
    T = f.toks
    for i in range(f.ibody, f.iend):
        if T[i].s == '".include"' and T[i + 1].s == ")" and T[i + 2].s == "{":
            c = match_close(T, i + 2)
            par = next(T[j - 1].s for j in range(len(T)) if T[j].s == ":" and T[j + 1].s == "&")
            text = text[:T[i + 2].b] + " self.vx_include(%s) " % par + text[T[c].a:]
            break
    else:
        raise Lost("parse_directive: .include")
    u.raw("impl Parser {\n    #[verifier::external_body]\n    fn vx_include(&self, tokens: &mut TokenStream) -> (r: Result<Option<Statement>, ParseError>)\n"
          "        requires fs(*old(tokens)),\n        ensures ok(*final(tokens)), r is Ok ==> fs(*final(tokens)), same_stream(*final(tokens), *old(tokens)), final(tokens).pos >= old(tokens).pos,\n    { unimplemented!() }\n}", "assumed")
    u.dropped.append("the branch of `.include` in parse_directive: it only moves forward in the line")
    return text
