"""Contracts of the expression parser and of the printing of expressions (C17)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import asm  # noqa: E402
import core  # noqa: E402
import forms  # noqa: E402
from rustx import Fn, Lost, lex, match_arms, match_close, norm, split_top, strip_item  # noqa: E402,F401
from vunit import Unit  # noqa: E402

PAR = "src/parser.rs"
LEX = "src/lexer.rs"
INFIX = {"Plus": ("Plus", "Sum"), "Minus": ("Minus", "Sum"), "Times": ("Times", "Product"), "Divide": ("Divide", "Product"),
         "Caret": ("BitwiseXor", "Bitwise"), "Ampersand": ("BitwiseAnd", "Bitwise"), "Pipe": ("BitwiseOr", "Bitwise")}
PREFIX = {"Minus": "UnaryMinus", "UpperByte": "UpperByte", "LowerByte": "LowerByte"}
# the table's key of a token
KEY = {"LeftParen": "Paren", "Name": "Name", "Number": "Number", "Plus": "Plus", "Times": "Times", "Minus": "Minus", "Divide": "Divide",
       "UpperByte": "UpperByte", "LowerByte": "LowerByte", "MacroIdent": "MacroArg", "MacroLabel": "MacroLabel", "Caret": "BitwiseXor",
       "Ampersand": "BitwiseAnd", "Pipe": "BitwiseOr"}
# tokens that no expression contains
MARKS = ["Comma", "Colon", "Hash", "Equals", "R0", "R1", "R2", "R3"]
FIELDS = {"Name": 1, "Number": 2, "MacroIdent": 1, "MacroLabel": 1, "String": 1}


def levels(srcs):
    """The discriminants of Precedence in the current source."""
    t = srcs[PAR].find("enum Precedence").text
    out = dict(re.findall(r"(\w+)\s*=\s*(\d+)", t))
    for n in ("Bitwise", "Sum", "Product", "Prefix"):
        if n not in out:
            raise Lost("enum Precedence: " + n)
    return out


def spec_text(lv):
    pat = lambda k, *b: "TokenType::%s%s" % (k, "(%s)" % ", ".join((list(b) + ["_"] * 9)[:FIELDS[k]]) if k in FIELDS else "")
    kinds = [k for k in KEY if k not in ("Name", "Number", "MacroIdent", "MacroLabel")] + ["RightParen"] + MARKS
    return """
/// a token without its position
/// (Eol is not a token: it stands for the end of a line in what is printed)
pub enum K { Name(Seq<char>), Number(int, Radix), MacroIdent(Seq<char>), MacroLabel(Seq<char>), String(Seq<char>), %(ks)s, Eol, Other }
pub open spec fn radix_of(r: lexer::Radix) -> Radix {
    match r { lexer::Radix::Decimal => Radix::Decimal, lexer::Radix::Hex => Radix::Hex, lexer::Radix::Binary => Radix::Binary, lexer::Radix::Octal => Radix::Octal }
}
pub open spec fn kind(t: TokenType) -> K {
    match t {
        TokenType::Name(n) => K::Name(n@),
        TokenType::Number(n, r) => K::Number(n as int, radix_of(r)),
        TokenType::MacroIdent(n) => K::MacroIdent(n@),
        TokenType::MacroLabel(n) => K::MacroLabel(n@),
        TokenType::String(n) => K::String(n@),
%(kind)s
        _ => K::Other,
    }
}
pub open spec fn kinds(s: Seq<Token>) -> Seq<K> { s.map(|i: int, t: Token| kind(t.token_type)) }
/// an expression without positions
pub enum T { Name(Seq<char>), Number(int, Radix), Arg(Seq<char>), Label(Seq<char>), Un(K, Box<T>), Bin(K, Box<T>, Box<T>) }
pub open spec fn tree(e: Expr) -> T
    decreases e
{
    match e {
        Expr::Name(_, n) => T::Name(n@),
        Expr::Number(_, n, r) => T::Number(n as int, r),
        Expr::MacroArg(_, n) => T::Arg(n@),
        Expr::MacroLabel(_, n) => T::Label(n@),
%(tree)s
    }
}
/// C17: the binary operators, loosest first
pub open spec fn prec(k: K) -> int {
    match k { %(prec)s _ => 0 }
}
pub open spec fn prefixes(k: K) -> bool { k is Minus || k is UpperByte || k is LowerByte }
pub open spec fn top() -> int { %(top)s }
proof fn levels()
    ensures forall|k: K| 0 <= #[trigger] prec(k) < top(),
        0 < prec(K::Pipe) == prec(K::Caret) == prec(K::Ampersand) < prec(K::Plus) == prec(K::Minus) < prec(K::Times) == prec(K::Divide),
{}
pub open spec fn atom(k: K) -> Option<T> {
    match k {
        K::Name(n) => Some(T::Name(n)),
        K::Number(n, r) => Some(T::Number(n, r)),
        K::MacroIdent(n) => Some(T::Arg(n)),
        K::MacroLabel(n) => Some(T::Label(n)),
        _ => None,
    }
}
pub open spec fn cut(ts: Seq<K>, m: int) -> bool { 0 < m < ts.len() - 1 }
/// C17: the tokens ts are the expression t, whose outermost operator, unless in parentheses, binds more tightly than level q.
/// Of operators of one level, the left one is applied first.
pub open spec fn derives(ts: Seq<K>, q: int, t: T) -> bool
    decreases ts.len()
{
    ||| ts.len() == 1 && atom(ts[0]) == Some(t)
    ||| ts.len() > 2 && ts[0] == K::LeftParen && ts.last() == K::RightParen && derives(ts.subrange(1, ts.len() - 1), 0, t)
    ||| match t {
        T::Un(k, x) => ts.len() > 1 && prefixes(k) && ts[0] == k && derives(ts.skip(1), top(), *x),
        T::Bin(k, l, r) => prec(k) > q && exists|m: int| #[trigger] cut(ts, m) && ts[m] == k && derives(ts.take(m), prec(k) - 1, *l) && derives(ts.skip(m + 1), prec(k), *r),
        _ => false,
    }
}
pub open spec fn prec_at(ts: Seq<K>, p: int) -> int { if 0 <= p < ts.len() { prec(ts[p]) } else { 0 } }
/// what can be read from position p on: an operand
pub open spec fn prim(ts: Seq<K>, p: int) -> Option<(T, int)>
    decreases ts.len() - p, 1nat
{
    if p < 0 || p >= ts.len() { None }
    else if ts[p] == K::LeftParen {
        match reads(ts, 0, p + 1) { Some((t, k)) => if p < k < ts.len() && ts[k] == K::RightParen { Some((t, k + 1)) } else { None }, None => None }
    } else if prefixes(ts[p]) {
        match reads(ts, top(), p + 1) { Some((t, k)) => Some((T::Un(ts[p], Box::new(t)), k)), None => None }
    } else { match atom(ts[p]) { Some(t) => Some((t, p + 1)), None => None } }
}
/// an expression of level q
pub open spec fn reads(ts: Seq<K>, q: int, p: int) -> Option<(T, int)>
    decreases ts.len() - p, 2nat
{
    if p < 0 || p >= ts.len() { None } else {
        match prim(ts, p) { Some((t, k)) => if p < k <= ts.len() { more(ts, q, t, k) } else { None }, None => None }
    }
}
/// what follows an operand
pub open spec fn more(ts: Seq<K>, q: int, t: T, k: int) -> Option<(T, int)>
    decreases ts.len() - k, 3nat
{
    if k < 0 || k > ts.len() { None }
    else if k < ts.len() && q < prec_at(ts, k) {
        match reads(ts, prec(ts[k]), k + 1) {
            Some((r, e)) => if k < e <= ts.len() { more(ts, q, T::Bin(ts[k], Box::new(t), Box::new(r)), e) } else { None },
            None => None,
        }
    } else { Some((t, k)) }
}
/// C17: the tokens from p up to e are an expression of level q, and what follows does not continue it
pub open spec fn expression(ts: Seq<K>, q: int, p: int, t: T, e: int) -> bool {
    p < e <= ts.len() && derives(ts.subrange(p, e), q, t) && prec_at(ts, e) <= q
}
""" % dict(ks=", ".join(kinds), kind="\n".join("        TokenType::%s => K::%s," % (k, k) for k in kinds),
           tree="\n".join(["        Expr::%s(_, x) => T::Un(K::%s, Box::new(tree(*x)))," % (v, k) for k, v in PREFIX.items()]
                          + ["        Expr::%s(_, x, y) => T::Bin(K::%s, Box::new(tree(*x)), Box::new(tree(*y)))," % (v[0], k) for k, v in INFIX.items()]),
           prec=" ".join("K::%s => %s," % (k, lv[v[1]]) for k, v in INFIX.items()), top=lv["Prefix"])


LEMMAS = """
/// what is read is an expression
proof fn sound_prim(ts: Seq<K>, p: int)
    requires 0 <= p,
    ensures match prim(ts, p) { Some((t, k)) => p < k <= ts.len() && forall|q: int| #[trigger] derives(ts.subrange(p, k), q, t), None => true },
    decreases ts.len() - p, 1nat,
{
    if p < ts.len() {
        if ts[p] == K::LeftParen {
            sound(ts, 0, p + 1);
            if let Some((t, k)) = reads(ts, 0, p + 1) {
                if p < k < ts.len() && ts[k] == K::RightParen {
                    let s = ts.subrange(p, k + 1);
                    assert(s.subrange(1, s.len() - 1) =~= ts.subrange(p + 1, k));
                    assert forall|q: int| #[trigger] derives(s, q, t) by {}
                }
            }
        } else if prefixes(ts[p]) {
            sound(ts, top(), p + 1);
            if let Some((t, k)) = reads(ts, top(), p + 1) {
                let s = ts.subrange(p, k);
                assert(s.skip(1) =~= ts.subrange(p + 1, k));
                assert forall|q: int| #[trigger] derives(s, q, T::Un(ts[p], Box::new(t))) by {}
            }
        } else if atom(ts[p]) is Some {
            let s = ts.subrange(p, p + 1);
            assert forall|q: int| #[trigger] derives(s, q, atom(ts[p])->0) by {}
        }
    }
}
proof fn sound(ts: Seq<K>, q: int, p: int)
    requires 0 <= p, 0 <= q,
    ensures match reads(ts, q, p) { Some((t, k)) => expression(ts, q, p, t, k), None => true },
    decreases ts.len() - p, 2nat,
{
    if p < ts.len() {
        sound_prim(ts, p);
        if let Some((t, k)) = prim(ts, p) {
            assert(forall|r: int| #[trigger] derives(ts.subrange(p, k), r, t));
            sound_more(ts, q, p, t, k);
        }
    }
}
proof fn weaker(ts: Seq<K>, a: int, b: int, t: T)
    requires derives(ts, a, t), b <= a,
    ensures derives(ts, b, t),
{}
proof fn sound_more(ts: Seq<K>, q: int, p: int, t: T, k: int)
    requires 0 <= q, 0 <= p < k <= ts.len(), derives(ts.subrange(p, k), q, t), forall|m: int| prec_at(ts, k) > m && m >= q ==> #[trigger] derives(ts.subrange(p, k), m, t),
    ensures match more(ts, q, t, k) { Some((u, e)) => expression(ts, q, p, u, e), None => true },
    decreases ts.len() - k, 3nat,
{
    levels();
    if k < ts.len() && q < prec_at(ts, k) {
        let op = ts[k];
        sound(ts, prec(op), k + 1);
        if let Some((r, e)) = reads(ts, prec(op), k + 1) {
            if k < e <= ts.len() {
                let n = T::Bin(op, Box::new(t), Box::new(r));
                let s = ts.subrange(p, e);
                let m = k - p;
                assert(s.take(m) =~= ts.subrange(p, k));
                assert(s.skip(m + 1) =~= ts.subrange(k + 1, e));
                assert(derives(ts.subrange(p, k), prec(op) - 1, t));
                assert(cut(s, m));
                assert forall|w: int| w < prec(op) implies #[trigger] derives(s, w, n) by { assert(cut(s, m)); }
                assert forall|w: int| prec_at(ts, e) > w && w >= q implies #[trigger] derives(s, w, n) by { }
                sound_more(ts, q, p, n, e);
            }
        }
    }
}
"""


COMPLETE = """
/// an expression is read as what it is, whatever follows that does not bind more tightly than its outermost operator
proof fn complete(ts: Seq<K>, q: int, p: int, t: T, e: int)
    requires 0 <= p < e <= ts.len(), 0 <= q, derives(ts.subrange(p, e), q, t),
        !reads_prim(ts.subrange(p, e), t) ==> (t is Bin && prec(t->Bin_0) >= prec_at(ts, e)),
    ensures reads(ts, q, p) == more(ts, q, t, e),
    decreases e - p, 1nat,
{
    levels();
    let s = ts.subrange(p, e);
    if reads_prim(s, t) {
        complete_prim(ts, p, t, e);
    } else {
        match t {
            T::Bin(k, l, r) => {
                let m = choose|m: int| #[trigger] cut(s, m) && s[m] == k && derives(s.take(m), prec(k) - 1, *l) && derives(s.skip(m + 1), prec(k), *r);
                assert(s.take(m) =~= ts.subrange(p, p + m));
                assert(s.skip(m + 1) =~= ts.subrange(p + m + 1, e));
                weaker(s.take(m), prec(k) - 1, q, *l);
                complete(ts, q, p, *l, p + m);
                complete(ts, prec(k), p + m + 1, *r, e);
                assert(ts[p + m] == k);
            }
            _ => {}
        }
    }
}
/// the expression is an operand
spec fn reads_prim(s: Seq<K>, t: T) -> bool {
    ||| s.len() == 1 && atom(s[0]) == Some(t)
    ||| s.len() > 2 && s[0] == K::LeftParen && s.last() == K::RightParen && derives(s.subrange(1, s.len() - 1), 0, t)
    ||| match t { T::Un(k, x) => s.len() > 1 && prefixes(k) && s[0] == k && derives(s.skip(1), top(), *x), _ => false }
}
proof fn complete_prim(ts: Seq<K>, p: int, t: T, e: int)
    requires 0 <= p < e <= ts.len(), reads_prim(ts.subrange(p, e), t),
    ensures prim(ts, p) == Some((t, e)),
    decreases e - p, 0nat,
{
    levels();
    let s = ts.subrange(p, e);
    if s.len() == 1 && atom(s[0]) == Some(t) {
    } else if s.len() > 2 && s[0] == K::LeftParen && s.last() == K::RightParen && derives(s.subrange(1, s.len() - 1), 0, t) {
        assert(s.subrange(1, s.len() - 1) =~= ts.subrange(p + 1, e - 1));
        assert(ts[e - 1] == K::RightParen);
        assert(prec_at(ts, e - 1) == 0);
        assert(t is Bin && !reads_prim(ts.subrange(p + 1, e - 1), t) ==> prec(t->Bin_0) >= 0);
        complete(ts, 0, p + 1, t, e - 1);
    } else {
        match t {
            T::Un(k, x) => {
                assert(s.skip(1) =~= ts.subrange(p + 1, e));
                assert(reads_prim(s.skip(1), *x));
                complete(ts, top(), p + 1, *x, e);
            }
            _ => {}
        }
    }
}
/// C17: the tokens are read as expression t exactly when they are that expression
proof fn unique(ts: Seq<K>, q: int, p: int)
    requires 0 <= p <= ts.len(), 0 <= q,
    ensures forall|t: T, e: int| #[trigger] expression(ts, q, p, t, e) <==> reads(ts, q, p) == Some((t, e)),
{
    levels();
    sound(ts, q, p);
    assert forall|t: T, e: int| #[trigger] expression(ts, q, p, t, e) implies reads(ts, q, p) == Some((t, e)) by {
        let s = ts.subrange(p, e);
        if !reads_prim(s, t) { assert(t is Bin && prec(t->Bin_0) > q); }
        complete(ts, q, p, t, e);
    }
}
"""


def build_grammar(srcs, gen):
    u = Unit("exprs_grammar")
    types(u, srcs)
    u.lemmas(LEMMAS)
    u.lemmas(COMPLETE)
    return u


STREAM = """
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TokenType) -> bool { same_token(*self, *o) }
}
impl PartialEq for TokenType {
    #[verifier::external_body]
    fn eq(&self, o: &TokenType) -> bool { unimplemented!() }
}
"""

SPANS = """
impl Span {
    #[verifier::external_body]
    pub fn start(&self) -> &Location { unimplemented!() }
    #[verifier::external_body]
    pub fn from(a: &Span, b: &Span) -> Span { unimplemented!() }
}
"""


def types(u, srcs, spans=None):
    a, e, l = srcs["src/ast.rs"], srcs["src/expression.rs"], srcs[LEX]
    core.ev_types(u, srcs)
    u.raw(asm.FOREIGN.replace("#[verifier::external_body] pub struct Token { x: u8 }\n", ""), "assumed")
    u.dropped.append("the contents of foreign types (PathBuf, io::Error, ImageError, Location)")
    u.raw("mod lexer {\n    use super::*;")
    core.items(u, l, "enum Radix", "enum TokenType", "struct Token")
    core.clones(u, "Radix", "TokenType", "Token")
    u.raw("impl Copy for Radix {}", "assumed")
    u.raw("}\nuse lexer::{Token, TokenType};")
    core.clones(u, "Location")
    core.items(u, e, "enum Arg")
    core.items(u, a, "enum ArgType")
    core.items(u, srcs[PAR], "enum ParseError")
    u.raw(asm.OWNED, "assumed")
    u.raw(SPANS if spans is None else spans, "assumed")
    u.raw(spec_text(levels(srcs)))



def parselets(src, trait):
    """The types that implement the trait: name -> its impl item."""
    out = {}
    for it in src.items:
        m = it.kind == "impl" and re.match(r"impl %s for (\w+)$" % trait, it.name)
        if m:
            out[m.group(1)] = it
    return out


def devirt(text, pre, inf):
    """`Box<dyn Trait>` becomes the enum of the trait's implementors, `Box::new(X(..))` its constructor."""
    f = Fn(text)
    T = f.toks
    for i in range(len(T)):
        s = [t.s for t in T[i:i + 6]]
        if s[:3] == ["Box", "<", "dyn"]:
            if s[3] not in ("PrefixParselet", "InfixParselet") or s[4] != ">":
                raise Lost("Box<dyn %s>" % s[3])
            f.rep(T[i].a, T[i + 4].b, "Vx" + s[3])
        elif s[:4] == ["Box", "::", "new", "("] and s[4] in set(pre) | set(inf):
            e = match_close(T, i + 3)
            f.rep(T[i].a, T[i + 3].b, "Vx%s::%s(" % ("PrefixParselet" if s[4] in pre else "InfixParselet", s[4]))
            f.rep(T[e].a, T[e].b, ")")
    return f


def devirt_item(text):
    for tr in ("PrefixParselet", "InfixParselet"):
        text = re.sub(r"Box\s*<\s*dyn\s+%s\s*>" % tr, "Vx" + tr, text)
    if "dyn" in text:
        raise Lost("ExprParser")
    return text


STREAM_SPEC = """
/// the tokens of a stream and the position in it
pub open spec fn ok(s: TokenStream) -> bool { s.pos <= s.tokens@.len() < usize::MAX }
pub open spec fn same_stream(a: TokenStream, b: TokenStream) -> bool { a.tokens@ == b.tokens@ }
pub open spec fn at(s: TokenStream) -> Option<Token> { if s.pos < s.tokens@.len() { Some(s.tokens@[s.pos as int]) } else { None } }
/// the tokens of a line, without the end of the file
#[verifier::opaque]
pub open spec fn words(t: Seq<Token>) -> Seq<K> { if t.len() > 0 && t.last().token_type is EOF { kinds(t.drop_last()) } else { kinds(t) } }
pub open spec fn ws(s: TokenStream) -> Seq<K> { words(s.tokens@) }
/// what the lexer gives: numbers are not negative, and nothing follows the end of the file
pub open spec fn lexed(t: Seq<Token>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> match (#[trigger] t[i]).token_type { TokenType::Number(n, _) => n >= 0, _ => true }
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> !((#[trigger] t[i]).token_type is EOF)
}
pub open spec fn fs(s: TokenStream) -> bool { ok(s) && s.pos <= ws(s).len() && lexed(s.tokens@) }
/// equality of tokens is decided here for those that carry nothing
pub open spec fn same_token(a: TokenType, b: TokenType) -> bool { %s }
"""


def stream(u, srcs):
    """TokenStream, as far as the expression parser needs it."""
    p, l = srcs[PAR], srcs[LEX]
    core.items(u, p, "struct TokenStream")
    t = l.find("enum TokenType").text
    body = t[t.index("{") + 1:t.rindex("}")]
    plain = [x.strip() for x in re.sub(r"//[^\n]*", "", re.sub(r"\([^)]*\)", "()", body)).split(",") if x.strip()]
    plain = [x for x in plain if re.fullmatch(r"\w+", x)]
    if "RightParen" not in plain:
        raise Lost("enum TokenType")
    u.raw(STREAM_SPEC % ("match b { %s, _ => a == b }" % ", ".join("TokenType::%s => a is %s" % (x, x) for x in plain)))
    u.raw(STREAM, "assumed")
    u.assumed.append("derived equality of TokenType is equality of the constructor and its fields")
    u.raw("impl TokenType {\n    #[verifier::external_body]\n    pub fn name(&self) -> &'static str { unimplemented!() }\n}", "assumed")
    u.raw("impl Expr {\n    #[verifier::external_body]\n    pub fn span(&self) -> Span { unimplemented!() }\n}", "assumed")
    u.assumed.append("TokenType::name, Span::from, Span::start, Expr::span: no contract (positions and texts of messages)")
    u.open("impl lexer::Token {")
    for n, e in (("token_type", "*r == self.token_type"), ("span", "*r == self.span")):
        u.fn(Fn(l.find("impl Token", "fn " + n).text), "src/lexer.rs: Token::" + n, impl="impl Token", vac_impl="impl lexer::Token", ens=[e])
    u.close()
    I = "impl<'a> TokenStream<'a>"
    g = lambda n: Fn(p.find(I.replace(" T", "T"), "fn " + n).text)
    u.open(I + " {")
    F = "same_stream(*final(self), *old(self))"
    u.fn(g("peek_at"), "src/parser.rs: TokenStream::peek_at", impl=I, req=["ok(*self)", "pos <= 1"],
         ens=["match r { Some(t) => self.pos + pos < self.tokens@.len() && *t == self.tokens@[self.pos + pos], None => self.pos + pos >= self.tokens@.len() }"])
    u.fn(g("peek"), "src/parser.rs: TokenStream::peek", impl=I, req=["ok(*self)"],
         ens=["match r { Some(t) => at(*self) == Some(*t), None => at(*self) is None }"])
    u.fn(g("current"), "src/parser.rs: TokenStream::current", impl=I, req=["ok(*self)"],
         ens=["match r { Ok(t) => at(*self) == Some(t), Err(_) => at(*self) is None }"])
    u.fn(g("advance_by"), "src/parser.rs: TokenStream::advance_by", impl=I, req=["old(self).pos + amount <= old(self).tokens@.len()", "ok(*old(self))"],
         ens=[F, "final(self).pos == old(self).pos + amount", "ok(*final(self))"])
    u.fn(g("advance"), "src/parser.rs: TokenStream::advance", impl=I, req=["old(self).pos < old(self).tokens@.len()", "ok(*old(self))"],
         ens=[F, "final(self).pos == old(self).pos + 1", "ok(*final(self))"])
    N = "final(self).pos == old(self).pos + 1"
    u.fn(g("next"), "src/parser.rs: TokenStream::next", impl=I, req=["ok(*old(self))"],
         ens=[F, "ok(*final(self))", "match r { Ok(t) => at(*old(self)) == Some(t) && %s, Err(_) => at(*old(self)) is None && final(self).pos == old(self).pos }" % N])
    f = Fn(re.sub(r"\bfn assert\b", "fn vx_assert", p.find(I.replace(" T", "T"), "fn assert").text, count=1))
    u.fn(f, "src/parser.rs: TokenStream::assert", impl=I, req=["ok(*self)"],
         ens=["r is Ok == (at(*self) is Some && same_token(at(*self)->0.token_type, token_type))"])
    f = g("consume")
    f.replace(".assert(", ".vx_assert(")
    u.fn(f, "src/parser.rs: TokenStream::consume", impl=I, req=["ok(*old(self))"],
         ens=[F, "ok(*final(self))", "r is Ok == (at(*old(self)) is Some && same_token(at(*old(self))->0.token_type, token_type))",
              "match r { Ok(t) => at(*old(self)) == Some(t) && %s, Err(_) => final(self).pos == old(self).pos }" % N])
    u.close()
    u.rewrites.append("TokenStream::assert is renamed vx_assert (a keyword of Verus)")


PARSER_SPEC = """
/// the level of an operator's parselet
spec fn level(p: Precedence) -> int { p as int }
impl KeyView for ExprTokenType { type KV = ExprTokenType; open spec fn kv(&self) -> ExprTokenType { *self } }
/// the key of a token in the tables
spec fn key(k: K) -> Option<ExprTokenType> {
    match k { %(key)s, _ => None }
}
/// the parselet reads the operand that begins with token k
spec fn serves(x: VxPrefixParselet, k: K) -> bool {
    match x {
        VxPrefixParselet::ParenParselet(_) => k == K::LeftParen,
        VxPrefixParselet::NameParselet(_) => k is Name,
        VxPrefixParselet::MacroLabelParselet(_) => k is MacroLabel,
        VxPrefixParselet::MacroArgParselet(_) => k is MacroIdent,
        VxPrefixParselet::NumberParselet(_) => k is Number,
        VxPrefixParselet::PrefixOperatorParselet(p) => prefixes(k) && level(p.0) == top(),
    }
}
spec fn joins(x: VxInfixParselet, k: K) -> bool {
    match x { VxInfixParselet::BinaryOperatorParselet(p) => prec(k) > 0 && level(p.0) == prec(k) }
}
spec fn operand(k: K) -> bool { k == K::LeftParen || prefixes(k) || atom(k) is Some }
spec fn good_prefix(p: &ExprParser, k: K) -> bool {
    match key(k) { Some(t) => p.prefix@.dom().contains(t) == operand(k) && (operand(k) ==> serves(p.prefix@[t], k)), None => !operand(k) }
}
spec fn good_infix(p: &ExprParser, k: K) -> bool {
    match key(k) { Some(t) => p.infix@.dom().contains(t) == (prec(k) > 0) && (prec(k) > 0 ==> joins(p.infix@[t], k)), None => prec(k) == 0 }
}
/// the tables hold the parselets of the grammar, and nothing else
spec fn wf(p: &ExprParser) -> bool { (forall|k: K| #![trigger key(k)] good_prefix(p, k)) && (forall|k: K| #![trigger key(k)] good_infix(p, k)) }
spec fn ks(s: TokenStream) -> Seq<K> { kinds(s.tokens@) }
"""


def read_ens(a):
    """What parse_expr reads, for its callers."""
    rd = "reads(ws(*old(%s)), 0, old(%s).pos as int)" % (a, a)
    return ["final(%s).pos >= old(%s).pos" % (a, a), "match r { Ok(_) => final(%s).pos <= ws(*final(%s)).len(), Err(_) => true }" % (a, a), "match r { Ok(vx_e) => %s == Some((tree(vx_e), final(%s).pos as int)), Err(_) => %s is None }" % (rd, a, rd)]


def build_parser(srcs, gen):
    u = Unit("exprs_parser")
    types(u, srcs)
    u.raw(core.HASHMAP, "assumed")
    u.assumed.append("std HashMap (new, get, insert) behaves as a finite map")
    p, e = srcs[PAR], srcs["src/expression.rs"]
    stream(u, srcs)
    u.lemmas(LEMMAS)
    u.lemmas(COMPLETE)
    u.lemmas(ENDED)
    pre, inf = parselets(p, "PrefixParselet"), parselets(p, "InfixParselet")
    if set(pre) != {"ParenParselet", "NameParselet", "MacroLabelParselet", "MacroArgParselet", "NumberParselet", "PrefixOperatorParselet"} \
            or set(inf) != {"BinaryOperatorParselet"}:
        raise Lost("the parselets")
    t = p.find("enum Precedence").text
    u.item(strip_item(t), "src/parser.rs: enum Precedence")
    u.raw("impl Copy for Precedence {}")
    core.clones(u, "Precedence")
    core.items(u, p, "enum ExprTokenType")
    core.clones(u, "ExprTokenType")
    for n in list(pre) + list(inf):
        core.items(u, p, "struct " + n)
    for tr, xs in (("PrefixParselet", pre), ("InfixParselet", inf)):
        u.raw("/// Box<dyn %s>\nenum Vx%s { %s }" % (tr, tr, ", ".join("%s(%s)" % (x, x) for x in xs)))
    u.item(devirt_item(strip_item(p.find("struct ExprParser").text)), "src/parser.rs: struct ExprParser")
    core.items(u, p, "struct Parser")
    u.raw(PARSER_SPEC % dict(key=", ".join("K::%s => Some(ExprTokenType::%s)" % (a + ("(..)" if a in FIELDS else ""), b) for a, b in KEY.items())))
    u.rewrites.append("Box<dyn PrefixParselet> and Box<dyn InfixParselet> become enums of the implementors found in the source, `Box::new(X(..))` a constructor, "
                      "a call through the trait a match")
    f = Fn(e.find("impl Radix", "fn from").text)
    u.fn(f, "src/expression.rs: Radix::from", impl="impl Radix", ens=["r == radix_of(*radix)"])
    u.fn(Fn(p.find("impl lexer::TokenType", "fn expr_type").text), "src/parser.rs: TokenType::expr_type", impl="impl lexer::TokenType",
         ens=["r == key(kind(*self))"])
    u.fn(Fn(p.find("fn expr_tok_type").text), "src/parser.rs: expr_tok_type", ens=["match r { Ok(t) => key(kind(token.token_type)) == Some(t), Err(_) => key(kind(token.token_type)) is None }"])
    for tr, xs, serves, nargs in (("PrefixParselet", pre, "serves", 3), ("InfixParselet", inf, "joins", 4)):
        trait = p.find("trait " + tr)
        for x, it in [(None, trait)] + list(xs.items()):
            who = "Vx" + tr if x is None else x
            me = "*self" if x is None else "Vx%s::%s(*self)" % (tr, x)
            txt = {m.name.split()[-1]: m.text for m in it.items}
            for m in txt:
                if m not in ("parse", "precedence"):
                    raise Lost("%s: %s" % (who, m))
            for m in ("parse", "precedence"):
                s = txt[m].strip()
                if x is None:
                    if not s.endswith(";"):
                        raise Lost("trait %s has a body" % tr)
                    g, names = forms.params(s[:-1] + " { unimplemented!() }", nargs if m == "parse" else 0)
                    body = "match self { %s }" % ", ".join("Vx%s::%s(vx_it) => vx_it.%s(%s)" % (tr, y, m, ", ".join(names)) for y in xs)
                    s = s[:-1] + " { " + body + " }"
                f, names = forms.params(s, nargs if m == "parse" else 0)
                impl = "impl " + who
                org = "src/parser.rs: %s::%s" % (tr if x is None else x, m)
                if m == "precedence":
                    u.fn(f, org, impl=impl, ens=["forall|k: K| %s(%s, k) ==> r == %s" % (serves, me, "prec(k)" if tr[0] == "I" else "top()")]
                         if x in (None, "BinaryOperatorParselet", "PrefixOperatorParselet") and not (x is None and tr[0] == "P") else ["true"])
                    continue
                par, toks, tok = names[0], names[1], names[-1]
                d = dict(p=par, s=toks, t=tok, me=me, l=names[2], q=serves)
                req = ["wf(%(p)s)", "ok(*old(%(s)s))", "old(%(s)s).pos > 0", "old(%(s)s).tokens@[old(%(s)s).pos - 1] == %(t)s", "%(q)s(%(me)s, kind(%(t)s.token_type))"]
                same = ["ok(*final(%(s)s))", "same_stream(*final(%(s)s), *old(%(s)s))", "final(%(s)s).pos >= old(%(s)s).pos"]
                if tr[0] == "P":
                    ens = ["match r { Ok(vx_e) => prim(ks(*old(%(s)s)), old(%(s)s).pos - 1) == Some((tree(vx_e), final(%(s)s).pos as int)), "
                           "Err(_) => prim(ks(*old(%(s)s)), old(%(s)s).pos - 1) is None }"]
                else:
                    rd = "reads(ks(*old(%(s)s)), prec(kind(%(t)s.token_type)), old(%(s)s).pos as int)"
                    ens = ["match r { Ok(vx_e) => match " + rd + " { Some((vx_r, vx_k)) => final(%(s)s).pos == vx_k && "
                           "tree(vx_e) == T::Bin(kind(%(t)s.token_type), Box::new(tree(%(l)s)), Box::new(vx_r)), None => false }, Err(_) => " + rd + " is None }"]
                u.fn(f, org, impl=impl, req=[x_ % d for x_ in req], ens=[x_ % d for x_ in same + ens],
                     dec="%s.tokens@.len() - old(%s).pos, %dnat" % ("old(%s)" % toks, toks, 4 if x is None else 3))
    I = "impl ExprParser"
    g = lambda n: Fn(p.find(I, "fn " + n).text)
    for n, (a, b) in (("prefix", ("loc", "typ")), ("infix", ("loc", "typ"))):
        f, (a, b) = forms.params(devirt_item(p.find(I, "fn " + n).text), 2)
        u.fn(f, "src/parser.rs: ExprParser::" + n, impl=I,
             ens=["match r { Ok(x) => self.%s@.dom().contains(%s) && *x == self.%s@[%s], Err(_) => !self.%s@.dom().contains(%s) }" % (n, b, n, b, n, b)])
    f, (a, b) = forms.params(p.find(I, "fn precedence").text, 2)
    u.fn(f, "src/parser.rs: ExprParser::precedence", impl=I, req=["wf(self)", "ok(*%s)" % b], ens=["r == prec_at(ks(*%s), %s.pos as int)" % (b, b)])
    f, (a, b) = forms.params(p.find(I, "fn parse").text, 2)
    rd = "reads(ks(*old(%s)), %s as int, old(%s).pos as int)" % (a, b, a)
    ens = ["ok(*final(%s))" % a, "same_stream(*final(%s), *old(%s))" % (a, a), "final(%s).pos >= old(%s).pos" % (a, a),
           "match r { Ok(vx_e) => %s == Some((tree(vx_e), final(%s).pos as int)), Err(_) => %s is None }" % (rd, a, rd)]
    f.loop(0, inv="invariant\n    " + ",\n    ".join(["wf(self)", "0 <= %s" % b, "ok(*%s)" % a, "same_stream(*%s, *old(%s))" % (a, a), "old(%s).pos < %s.pos" % (a, a),
                   "%s == more(ks(*old(%s)), %s as int, tree(left), %s.pos as int)" % (rd, a, b, a)]) + ",\ndecreases %s.tokens@.len() - %s.pos," % (a, a))
    u.fn(f, "src/parser.rs: ExprParser::parse", impl=I, req=["wf(self)", "ok(*old(%s))" % a, "0 <= %s" % b], ens=ens,
         dec="old(%s).tokens@.len() - old(%s).pos, 2nat" % (a, a))
    u.fn(devirt(p.find("impl Parser", "fn create").text, pre, inf), "src/parser.rs: Parser::create", impl="impl Parser", ens=["wf(&r.expr_parser)"])
    f, (a,) = forms.params(p.find("impl Parser", "fn parse_expr").text, 1)
    f.body_start("proof { unique(ks(*%s), 0, %s.pos as int); ended_at(%s.tokens@, 0, %s.pos as int); }" % (a, a, a, a))
    u.fn(f, "src/parser.rs: Parser::parse_expr", impl="impl Parser", req=["wf(&self.expr_parser)", "ok(*old(%s))" % a],
         ens=["ok(*final(%s))" % a, "same_stream(*final(%s), *old(%s))" % (a, a),
              "match r { Ok(vx_e) => expression(ks(*old(%s)), 0, old(%s).pos as int, tree(vx_e), final(%s).pos as int), "
              "Err(_) => forall|vx_t: T, vx_k: int| !#[trigger] expression(ks(*old(%s)), 0, old(%s).pos as int, vx_t, vx_k) }" % (a, a, a, a, a),
              *read_ens(a)])
    return u


# what is read of a line is the same with the end of the file after it
ENDED = """
proof fn ended(w: Seq<K>, q: int, p: int)
    requires 0 <= p, 0 <= q,
    ensures reads(w.push(K::Other), q, p) == reads(w, q, p),
    decreases w.len() + 1 - p, 3nat,
{
    ended_prim(w, p);
    if p < w.len() {
        sound_prim(w, p);
        match prim(w, p) { Some((t, k)) => { ended_more(w, q, t, k); } None => {} }
    }
}
proof fn ended_prim(w: Seq<K>, p: int)
    requires 0 <= p,
    ensures prim(w.push(K::Other), p) == prim(w, p),
    decreases w.len() + 1 - p, 2nat,
{
    let v = w.push(K::Other);
    if p < w.len() {
        assert(v[p] == w[p]);
        if w[p] == K::LeftParen {
            ended(w, 0, p + 1);
            if p + 1 < w.len() { sound(w, 0, p + 1); }
        } else if prefixes(w[p]) { ended(w, top(), p + 1); }
    }
}
proof fn ended_more(w: Seq<K>, q: int, t: T, k: int)
    requires 0 <= k <= w.len(), 0 <= q,
    ensures more(w.push(K::Other), q, t, k) == more(w, q, t, k),
    decreases w.len() + 1 - k, 4nat,
{
    let v = w.push(K::Other);
    if k < w.len() {
        assert(v[k] == w[k]);
        if prec(w[k]) > q {
            ended(w, prec(w[k]), k + 1);
            if k + 1 < w.len() { sound(w, prec(w[k]), k + 1); }
            match reads(w, prec(w[k]), k + 1) {
                Some((r, e)) => { if k < e <= w.len() { ended_more(w, q, T::Bin(w[k], Box::new(t), Box::new(r)), e); } }
                None => {}
            }
        }
    }
}
proof fn ended_at(t: Seq<Token>, q: int, p: int)
    requires 0 <= p, 0 <= q,
    ensures reads(kinds(t), q, p) == reads(words(t), q, p), match reads(words(t), q, p) { Some((e, k)) => p < k <= words(t).len(), None => true },
{
    reveal(words);
    if p < words(t).len() { sound(words(t), q, p); }
    if t.len() > 0 && t.last().token_type is EOF {
        assert(kinds(t) =~= kinds(t.drop_last()).push(K::Other));
        ended(kinds(t.drop_last()), q, p);
    }
}
"""

# ---------------------------------------------------------------- printing

FMT = """
/// stands for std::fmt: a Formatter is the sequence of tokens that its text is read as
mod fmt {
    use super::*;
    pub struct Error;
    pub type Result = std::result::Result<(), Error>;
    #[verifier::external_body]
    pub struct Formatter { x: u8 }
    impl Formatter {
        pub uninterp spec fn view(&self) -> Seq<K>;
        /// punctuation
        #[verifier::external_body]
        pub fn vx_tok(&mut self, k: Ghost<K>) -> (r: Result)
            ensures r is Ok ==> final(self)@ == old(self)@.push(k@),
        { unimplemented!() }
        /// a name, as it is
        #[verifier::external_body]
        pub fn vx_name(&mut self, n: &String) -> (r: Result)
            ensures r is Ok ==> final(self)@ == old(self)@.push(named(n@)),
        { unimplemented!() }
        /// a number with the prefix and the digits of a radix
        #[verifier::external_body]
        pub fn vx_num(&mut self, n: &i32, k: Ghost<Radix>) -> (r: Result)
            requires *n >= 0,
            ensures r is Ok ==> final(self)@ == old(self)@.push(K::Number(*n as int, k@)),
        { unimplemented!() }
    }
}
/// the token that a word is read as
pub uninterp spec fn named(n: Seq<char>) -> K;
"""

PRINT_SPEC = """
/// what the lexer gives: names are read as themselves, numbers are not negative
pub open spec fn fine(k: K) -> bool {
    match k {
        K::Name(n) | K::MacroIdent(n) | K::MacroLabel(n) => named(n) == k,
        K::Number(n, _) => n >= 0,
        _ => true,
    }
}
/// an expression made of such tokens
pub open spec fn fine_tree(t: T) -> bool
    decreases t
{
    match t {
        T::Name(n) => fine(K::Name(n)),
        T::Arg(n) => fine(K::MacroIdent(n)),
        T::Label(n) => fine(K::MacroLabel(n)),
        T::Number(n, r) => fine(K::Number(n, r)),
        T::Un(k, x) => prefixes(k) && fine_tree(*x),
        T::Bin(k, x, y) => prec(k) > 0 && fine_tree(*x) && fine_tree(*y),
    }
}
/// the tightest level at which the tokens of t without parentheses stand
pub open spec fn own(t: T) -> int { match t { T::Bin(k, _, _) => prec(k) - 1, _ => top() } }
/// b is a, and then tokens of t
pub open spec fn wrote(a: Seq<K>, b: Seq<K>, t: T) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && derives(b.skip(a.len() as int), own(t), t)
}
/// b is a, and then tokens of t as an operand at level q
pub open spec fn operand_at(a: Seq<K>, b: Seq<K>, q: int, t: T) -> bool {
    a.len() < b.len() && b.take(a.len() as int) == a && derives(b.skip(a.len() as int), q, t)
}
"""

PRINT_LEMMAS = """
proof fn non_empty(s: Seq<K>, q: int, t: T)
    requires derives(s, q, t),
    ensures s.len() > 0,
{}
broadcast proof fn b_paren(a: Seq<K>, b: Seq<K>, t: T)
    requires #[trigger] wrote(a.push(K::LeftParen), b, t), fine_tree(t),
    ensures forall|q: int| #[trigger] operand_at(a, b.push(K::RightParen), q, t),
{
    levels();
    let l = a.push(K::LeftParen);
    let c = b.push(K::RightParen);
    let s = c.skip(a.len() as int);
    let i = b.skip(l.len() as int);
    non_empty(i, own(t), t);
    assert(a =~= l.take(a.len() as int));
    assert(c.take(a.len() as int) =~= b.take(l.len() as int).take(a.len() as int));
    assert(s[0] == b.take(l.len() as int)[a.len() as int]);
    assert(s.subrange(1, s.len() - 1) =~= i);
    weaker(i, own(t), 0, t);
    assert forall|q: int| #[trigger] operand_at(a, c, q, t) by { }
}
broadcast proof fn b_plain(a: Seq<K>, b: Seq<K>, t: T, q: int)
    requires #[trigger] wrote(a, b, t), own(t) >= q,
    ensures #[trigger] operand_at(a, b, q, t),
{
    non_empty(b.skip(a.len() as int), own(t), t);
    weaker(b.skip(a.len() as int), own(t), q, t);
}
broadcast proof fn b_bin(a: Seq<K>, b: Seq<K>, c: Seq<K>, k: K, l: T, r: T)
    requires prec(k) > 0, operand_at(a, b, prec(k) - 1, l), operand_at(#[trigger] b.push(k), c, prec(k), r),
    ensures #[trigger] wrote(a, c, T::Bin(k, Box::new(l), Box::new(r))),
{
    let p = b.push(k);
    let s = c.skip(a.len() as int);
    let m = b.len() - a.len();
    let n = a.len() as int;
    assert(b =~= p.take(b.len() as int));
    assert(p == c.take(p.len() as int));
    assert(c.take(n) =~= b.take(n)) by {
        assert forall|i: int| 0 <= i < n implies c[i] == b[i] by { assert(c[i] == c.take(p.len() as int)[i]); assert(p[i] == b[i]); }
    }
    assert(s.take(m) =~= b.skip(n)) by {
        assert forall|i: int| 0 <= i < m implies s[i] == b[n + i] by { assert(c[n + i] == c.take(p.len() as int)[n + i]); assert(p[n + i] == b[n + i]); }
    }
    assert(s[m] == k) by { assert(c[b.len() as int] == c.take(p.len() as int)[b.len() as int]); }
    assert(s.skip(m + 1) =~= c.skip(p.len() as int));
    assert(cut(s, m));
}
broadcast proof fn b_un(a: Seq<K>, c: Seq<K>, k: K, x: T)
    requires prefixes(k), operand_at(#[trigger] a.push(k), c, top(), x),
    ensures #[trigger] wrote(a, c, T::Un(k, Box::new(x))),
{
    let p = a.push(k);
    let n = a.len() as int;
    let s = c.skip(n);
    assert(p == c.take(p.len() as int));
    assert forall|i: int| 0 <= i < n implies c[i] == a[i] by { assert(c[i] == c.take(p.len() as int)[i]); assert(p[i] == a[i]); }
    assert(c.take(n) =~= a);
    assert(s[0] == k) by { assert(c[n] == c.take(p.len() as int)[n]); }
    assert(s.skip(1) =~= c.skip(p.len() as int));
}
broadcast proof fn b_atom(a: Seq<K>, k: K, t: T)
    requires atom(k) == Some(t),
    ensures #[trigger] wrote(a, a.push(k), t),
{
    let c = a.push(k);
    assert(c.take(a.len() as int) =~= a);
    assert(c.skip(a.len() as int) =~= seq![k]);
}
broadcast group print_facts { b_paren, b_plain, b_bin, b_un, b_atom }

/// what an expression of fine tokens is made of
proof fn fine_read(ts: Seq<K>, q: int, t: T)
    requires derives(ts, q, t), q >= 0, forall|i: int| 0 <= i < ts.len() ==> fine(#[trigger] ts[i]),
    ensures fine_tree(t),
    decreases ts.len(),
{
    levels();
    if ts.len() == 1 && atom(ts[0]) == Some(t) {
        assert(fine(ts[0]));
    } else if ts.len() > 2 && ts[0] == K::LeftParen && ts.last() == K::RightParen && derives(ts.subrange(1, ts.len() - 1), 0, t) {
        fine_read(ts.subrange(1, ts.len() - 1), 0, t);
    } else {
        match t {
            T::Un(k, x) => fine_read(ts.skip(1), top(), *x),
            T::Bin(k, l, r) => {
                let m = choose|m: int| #[trigger] cut(ts, m) && ts[m] == k && derives(ts.take(m), prec(k) - 1, *l) && derives(ts.skip(m + 1), prec(k), *r);
                fine_read(ts.take(m), prec(k) - 1, *l);
                fine_read(ts.skip(m + 1), prec(k), *r);
            }
            _ => {}
        }
    }
}
/// C17: what is printed for an expression that was read is read as the same expression
proof fn round_trip(ts: Seq<K>, p: int, t: T, e: int, out: Seq<K>)
    requires 0 <= p <= ts.len(), expression(ts, 0, p, t, e), forall|i: int| 0 <= i < ts.len() ==> fine(#[trigger] ts[i]),
        fine_tree(t) ==> wrote(Seq::empty(), out, t),
    ensures expression(out, 0, 0, t, out.len() as int), reads(out, 0, 0) == Some((t, out.len() as int)),
{
    levels();
    fine_read(ts.subrange(p, e), 0, t);
    assert(out.skip(0) =~= out);
    assert(out.subrange(0, out.len() as int) =~= out);
    weaker(out, own(t), 0, t);
    unique(out, 0, 0);
}
/// C17: the same expression has the same value
proof fn same_value(a: Expr, b: Expr, m: spec_fn(Seq<char>) -> Option<i32>)
    requires tree(a) == tree(b),
    ensures ev(a, m) == ev(b, m),
    decreases a,
{
    match (a, b) {
        %(same)s
        _ => {}
    }
}
"""

PUNCT = {"(": "LeftParen", ")": "RightParen", "+": "Plus", "-": "Minus", "*": "Times", "/": "Divide", "^": "Caret", "&": "Ampersand", "|": "Pipe", "<": "LowerByte",
         ">": "UpperByte"}
# a prefix and the format of the digits after it: the radix they are read in
DIGITS = {("", ""): "Decimal", ("$", "X"): "Hex", ("$", "x"): "Hex", ("0x", "x"): "Hex", ("0x", "X"): "Hex", ("%", "b"): "Binary", ("0b", "b"): "Binary", ("0o", "o"): "Octal"}


def field_types(srcs):
    """Expr constructor -> the types of its fields."""
    t = strip_item(srcs["src/expression.rs"].find("enum Expr").text)
    f = lex(t)
    o = next(i for i in range(len(f)) if f[i].s == "{")
    out = {}
    for a, b in split_top(f, o + 1, match_close(f, o)):
        if b > a:
            out[f[a].s] = [norm(f[c:d]) for c, d in split_top(f, a + 2, b - 1)] if b - a > 1 else []
    return out


def writes(f, fields, conv):
    """Each write!(f, "..", args) becomes the tokens of its text, one after the other."""
    T = f.toks
    bound = []   # (first token, last token, name, type)
    for m in range(f.ibody, f.iend):
        if T[m].k == "id" and T[m].s == "match":
            op = m + 1
            while T[op].s != "{":
                op = match_close(T, op) + 1 if T[op].s in "([" else op + 1
            for (p0, p1), guard, (b0, b1) in match_arms(T, op):
                for a, b in split_top(T, p0, p1, "|"):
                    if b - a > 4 and T[a].s == "Expr" and T[a + 1].s == "::" and T[a + 3].s == "(":
                        for k, (x, y) in enumerate(split_top(T, a + 4, match_close(T, a + 3))):
                            if y - x == 1 and T[x].k == "id" and T[x].s != "_":
                                bound.append((b0, b1, T[x].s, fields[T[a + 2].s][k]))
    i = f.ibody
    while i < f.iend:
        if not (T[i].s == "write" and T[i + 1].s == "!" and T[i + 2].s == "("):
            i += 1
            continue
        e = match_close(T, i + 2)
        args = [(a, b) for a, b in split_top(T, i + 3, e) if b > a]
        fm = f.text[T[args[0][0]].a:T[args[0][1] - 1].b]
        if len(args) < 2 or T[args[1][0]].k != "str":
            raise Lost("%s: write!" % f.name)
        text, rest = T[args[1][0]].s[1:-1], args[2:]
        if "\\" in text or "{{" in text or "}}" in text:
            raise Lost("%s: write! of %r" % (f.name, text))
        out = []
        lit = ""
        for piece in re.split(r"(\{[^}]*\})", text):
            if piece.startswith("{"):
                inner = piece[1:-1].split(":", 1)
                spec = inner[1] if len(inner) > 1 else ""
                if inner[0]:
                    name = inner[0]
                else:
                    if not rest or rest[0][1] - rest[0][0] != 1:
                        raise Lost("%s: argument of write!" % f.name)
                    name = T[rest.pop(0)[0]].s
                ty = [x[3] for x in bound if x[0] <= i < x[1] and x[2] == name]
                if len(set(ty)) != 1:
                    raise Lost("%s: type of %s" % (f.name, name))
                out.extend(conv(fm, name, ty[0], spec, lit))
                lit = ""
            else:
                w = re.search(r"(\$|0[xob]|%)$", piece) if text[text.index(piece) + len(piece):].startswith("{") else None
                lit = w.group(0) if w else ""
                for c in piece[:len(piece) - len(lit)]:
                    if c == " ":
                        continue
                    if c not in PUNCT:
                        raise Lost("%s: write! of %r" % (f.name, text))
                    out.append("%s.vx_tok(Ghost(K::%s))" % (fm, PUNCT[c]))
        if rest or lit:
            raise Lost("%s: arguments of write!" % f.name)
        expr = "Ok::<(), fmt::Error>(())"
        for x in reversed(out):
            expr = x if expr.startswith("Ok::") else "(match %s { Ok(()) => %s, Err(vx_e) => Err(vx_e) })" % (x, expr)
        f.rep(T[i].a, T[e].b, expr)
        i = e + 1


def show(fm, name, ty, spec, lit):
    if ty == "Box<Expr>" and not spec and not lit:
        return ["%s.fmt(%s)" % (name, fm)]
    if ty == "String" and not spec and not lit:
        return ["%s.vx_name(%s)" % (fm, name)]
    if ty == "i32":
        m = re.fullmatch(r"(?:0\d+)?([xXob]?)", spec)
        r = DIGITS.get((lit, m.group(1))) if m else None
        if r:
            return ["%s.vx_num(%s, Ghost(Radix::%s))" % (fm, name, r)]
        # digits that are read in another radix, or not as a number
        return ["%s.vx_tok(Ghost(K::Other))" % fm]
    raise Lost("write! of %s as {%s}" % (ty, spec))


def build_print(srcs, gen):
    u = Unit("exprs_print")
    types(u, srcs)
    e = srcs["src/expression.rs"]
    u.lemmas(LEMMAS)
    u.lemmas(COMPLETE)
    u.raw(PRINT_SPEC)
    u.raw(FMT, "assumed")
    u.assumed.append("the text written by fmt::Formatter is read by the lexer as the tokens of its pieces, one after the other; a name is read as named(name), "
                     "digits with the prefix of their radix as that number")
    fields = field_types(srcs)
    same = []
    for v, fs in fields.items():
        pa = ", ".join("_" if i == 0 else "x%d" % i for i in range(len(fs)))
        pb = ", ".join("_" if i == 0 else "y%d" % i for i in range(len(fs)))
        rec = " ".join("same_value(*x%d, *y%d, m);" % (i, i) for i, x in enumerate(fs) if x == "Box<Expr>")
        same.append("(Expr::%s(%s), Expr::%s(%s)) => { %s }" % (v, pa, v, pb, rec))
    u.lemmas(PRINT_LEMMAS.replace("%(same)s", "\n        ".join(same)))
    u.fn(Fn(e.find("impl Expr", "fn complex").text), "src/expression.rs: Expr::complex", impl="impl Expr", ens=["tree(*self) is Bin ==> r"])
    f, (a,) = forms.params(e.find("impl fmt::Display for Expr", "fn fmt").text, 1)
    writes(f, fields, show)
    f.body_start("broadcast use print_facts; proof { levels(); }")
    u.fn(f, "src/expression.rs: Display for Expr", impl="impl Expr", req=["fine_tree(tree(*self))"],
         ens=["r is Ok ==> wrote(old(%s)@, final(%s)@, tree(*self))" % (a, a)], dec="*self")
    u.rewrites.append("write! of a text is the sequence of its tokens (Formatter::vx_tok), of a name vx_name, of a number in a radix vx_num, of an expression its fmt")
    return u
