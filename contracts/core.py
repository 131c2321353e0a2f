"""Types, trusted stubs and contracts shared by the assembler units (C03 to C09)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "spec"))
from rustx import Fn, Lost, Source, lex, match_close, split_top, strip_item  # noqa: E402,F401
from vunit import Unit  # noqa: E402,F401


def items(u, src, *names, pub=True):
    """Type definitions, verbatim except for visibility, attributes and comments."""
    for n in names:
        t = strip_item(src.find(n).text)
        if n.startswith("struct ") and pub:
            t = pub_fields(t)
        u.item(("pub " if pub else "") + t, "%s: %s" % (src.name, n))


def pub_fields(t):
    """Visibility only: every field of a struct is pub, so that open specifications may read it."""
    T = lex(t)
    k = next(i for i, x in enumerate(T) if x.s in ("{", "("))
    out, pos = [], 0
    for a, b in split_top(T, k + 1, match_close(T, k)):
        if not (a + 1 < len(T) and T[a].k == "id" and T[a + 1].s == ":"):
            continue        # inside `<..>`
        out.append(t[pos:T[a].a] + "pub ")
        pos = T[a].a
    return "".join(out) + t[pos:]


def clones(u, *types):
    for t in types:
        u.raw("impl Clone for %s {\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self)\n        ensures r == *self,\n"
              "    { unimplemented!() }\n}" % t, "assumed")
    u.assumed.append("derived Clone of %s returns an equal value" % ", ".join(types))


FORMAT = """
macro_rules! format { ($($t:tt)*) => { any_string() } }
#[verifier::external_body]
fn any_string() -> String { String::new() }
"""

LOWER = """
/// what std's str::to_lowercase computes; only the facts below are used
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn dotted(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '.' }
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String)
    ensures r@ == lower(s@), dotted(r@) == dotted(s@), s@.len() > 0 ==> r@.len() > 0;
"""

SPAN = """
impl Clone for Span {
    #[verifier::external_body]
    fn clone(&self) -> (r: Span) ensures r == *self { unimplemented!() }
}
impl Span {
    #[verifier::external_body]
    pub fn with_parent(&self, parent: Span) -> Span { unimplemented!() }
}
pub struct Span { pub s: u64 }
"""

ENV = """
pub trait Env<T> {
    /// the values the environment gives to (lower case) names
    spec fn all(&self) -> spec_fn(Seq<char>) -> Option<T>;
    fn name(&self) -> &str;
    fn get(&self, name: &str) -> (r: Option<T>)
        ensures r == (self.all())(name@);
}
"""

ERR = """
/// why an expression has no value
pub enum Why { NoName, DivZero, Overflow, MacroLabel, MacroArg, Other }
pub open spec fn why(e: EvaluationError) -> Why {
    match e {
        EvaluationError::NameNotFound(_, _) => Why::NoName,
        EvaluationError::DivideByZero(_, _) => Why::DivZero,
        EvaluationError::ArithmeticOverflow(_) => Why::Overflow,
        EvaluationError::MacroLabelOutsideOfMacro(_) => Why::MacroLabel,
        EvaluationError::MacroArgOutsideOfMacro(_) => Why::MacroArg,
        _ => Why::Other,
    }
}
"""

EV = """
pub open spec fn i32ok(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }

/// quotient truncated towards zero
pub open spec fn quot(a: int, b: int) -> int
    recommends b != 0
{
    if (a >= 0) == (b > 0) { (if a >= 0 { a } else { -a }) / (if b > 0 { b } else { -b }) }
    else { -((if a >= 0 { a } else { -a }) / (if b > 0 { b } else { -b })) }
}

pub open spec fn and32(a: int, b: int) -> int { ((a as i32) & (b as i32)) as int }
pub open spec fn or32(a: int, b: int) -> int { ((a as i32) | (b as i32)) as int }
pub open spec fn xor32(a: int, b: int) -> int { ((a as i32) ^ (b as i32)) as int }

/// the exact value of an operator applied to exact values; None when it has none
pub open spec fn op1(e: Expr, a: int) -> int {
    match e {
        Expr::UnaryMinus(_, _) => -a,
        Expr::UpperByte(_, _) => (a % 0x1_0000) / 256,
        Expr::LowerByte(_, _) => a % 256,
        _ => 0,
    }
}
pub open spec fn op2(e: Expr, a: int, b: int) -> int {
    match e {
        Expr::Plus(_, _, _) => a + b,
        Expr::Minus(_, _, _) => a - b,
        Expr::Times(_, _, _) => a * b,
        Expr::Divide(_, _, _) => quot(a, b),
        Expr::BitwiseAnd(_, _, _) => and32(a, b),
        Expr::BitwiseOr(_, _, _) => or32(a, b),
        Expr::BitwiseXor(_, _, _) => xor32(a, b),
        _ => 0,
    }
}

/// C05: the value of an expression, or None when it has none
pub open spec fn ev(e: Expr, m: spec_fn(Seq<char>) -> Option<i32>) -> Option<int>
    decreases e
{
    match e {
        Expr::Number(_, n, _) => Some(n as int),
        Expr::Name(_, n) => match m(lower(n@)) { Some(v) => Some(v as int), None => None },
        Expr::MacroLabel(_, _) | Expr::MacroArg(_, _) => None,
        Expr::UnaryMinus(_, x) | Expr::UpperByte(_, x) | Expr::LowerByte(_, x) => match ev(*x, m) {
            Some(a) => if i32ok(op1(e, a)) { Some(op1(e, a)) } else { None },
            None => None,
        },
        Expr::Plus(_, l, r) | Expr::Minus(_, l, r) | Expr::Times(_, l, r) | Expr::Divide(_, l, r)
        | Expr::BitwiseAnd(_, l, r) | Expr::BitwiseOr(_, l, r) | Expr::BitwiseXor(_, l, r) => match (ev(*l, m), ev(*r, m)) {
            (Some(a), Some(b)) => if e is Divide && b == 0 { None }
                else if i32ok(op2(e, a, b)) { Some(op2(e, a, b)) } else { None },
            _ => None,
        },
    }
}

/// C05: something in the expression fails for this reason
pub open spec fn fails(e: Expr, m: spec_fn(Seq<char>) -> Option<i32>, w: Why) -> bool
    decreases e
{
    match e {
        Expr::Number(_, _, _) => false,
        Expr::Name(_, n) => w == Why::NoName && m(lower(n@)) is None,
        Expr::MacroLabel(_, _) => w == Why::MacroLabel,
        Expr::MacroArg(_, _) => w == Why::MacroArg,
        Expr::UnaryMinus(_, x) | Expr::UpperByte(_, x) | Expr::LowerByte(_, x) => fails(*x, m, w) || match ev(*x, m) {
            Some(a) => w == Why::Overflow && !i32ok(op1(e, a)),
            None => false,
        },
        Expr::Plus(_, l, r) | Expr::Minus(_, l, r) | Expr::Times(_, l, r) | Expr::Divide(_, l, r)
        | Expr::BitwiseAnd(_, l, r) | Expr::BitwiseOr(_, l, r) | Expr::BitwiseXor(_, l, r) =>
            fails(*l, m, w) || fails(*r, m, w) || match (ev(*l, m), ev(*r, m)) {
                (Some(a), Some(b)) => if e is Divide && b == 0 { w == Why::DivZero }
                    else { w == Why::Overflow && !i32ok(op2(e, a, b)) },
                _ => false,
            },
    }
}
"""

EV_LEMMAS = """
proof fn upper_bits(v: i32)
    ensures ((v >> 8) & 0xFF) as int == (v as int % 0x1_0000) / 256,
{
    assert(((v >> 8) & 0xFF) as int == (v as int % 0x1_0000) / 256) by (bit_vector);
}

proof fn lower_bits(v: i32)
    ensures (v & 0xFF) as int == v as int % 256,
{
    assert((v & 0xFF) as int == v as int % 256) by (bit_vector);
}

proof fn quot_bounds(a: int, b: int)
    requires b != 0, i32ok(a), i32ok(b),
    ensures a != -0x8000_0000 || b != -1 ==> i32ok(quot(a, b)),
        a == -0x8000_0000 && b == -1 ==> quot(a, b) == 0x8000_0000,
        b < 0 && a >= 0 ==> a / b == -(a / -b),
        b < 0 && a < 0 ==> (-a) / b == -((-a) / -b),
{
    let x = if a >= 0 { a } else { -a };
    let y = if b > 0 { b } else { -b };
    assert(0 <= x / y <= x) by (nonlinear_arith) requires x >= 0, y >= 1;
    if y >= 2 {
        assert(x / y <= x / 2) by (nonlinear_arith) requires x >= 0, y >= 2;
    }
    if y == 1 { assert(x / y == x) by (nonlinear_arith) requires y == 1; }
    if b < 0 {
        assert(x / b == -(x / -b)) by (nonlinear_arith) requires b < 0, x >= 0;
    }
}
"""

NEG = """
pub assume_specification [i32::checked_neg] (a: i32) -> (r: Option<i32>)
    ensures r == (if a == i32::MIN { None } else { Some((-a) as i32) });
"""


def ev_types(u, srcs):
    """Expressions, their errors and their value."""
    e = srcs["src/expression.rs"]
    u.raw(SPAN, "assumed")
    u.dropped.append("the fields of Span: positions in messages are not specified")
    u.raw(FORMAT, "assumed")
    u.assumed.append("the text of messages (format!) is not specified")
    items(u, e, "enum EvaluationError", "enum Radix", "enum Expr", "enum IndirectionMode")
    clones(u, "Radix", "Expr", "IndirectionMode")
    u.raw("impl Copy for Radix {}\nimpl Copy for IndirectionMode {}", "assumed")
    u.raw(LOWER, "assumed")
    u.assumed.append("str::to_lowercase is a function of its argument; it neither adds nor removes a leading dot and keeps a "
                     "non-empty text non-empty")
    u.raw(ENV, "spec")
    u.raw("pub trait Positioned { fn span(&self) -> Span; }")
    u.raw(ERR)
    u.raw(EV)
    u.raw("mod expression { pub use super::*; }\nmod env { pub use super::*; }\nmod ast { pub use super::*; }\nmod instruction { pub use super::*; }")


def c_expr_span(u, e, mode="verify"):
    f = Fn(e.find("impl Positioned for Expr", "fn span").text)
    u.fn(f, "src/expression.rs: Expr::span", impl="impl Positioned for Expr", vac_impl="impl Expr", mode=mode)


EVAL_ENS = ["match r { Ok(v) => ev(*self, name_lookup.all()) == Some(v as int), "
            "Err(x) => ev(*self, name_lookup.all()) is None && fails(*self, name_lookup.all(), why(x)) }"]


def c_eval(u, e, mode="verify"):
    f = Fn(e.find("impl Expr", "fn checked").text)
    u.fn(f, "src/expression.rs: Expr::checked", impl="impl Expr", mode=mode,
         ens=["match r { Ok(v) => value == Some(v), Err(x) => value is None && why(x) == Why::Overflow }"])
    f = Fn(e.find("impl Expr", "fn eval").text)
    if mode == "verify":
        f.body_start("broadcast use eval_facts;")
    u.fn(f, "src/expression.rs: Expr::eval", impl="impl Expr", ens=EVAL_ENS, dec="*self", mode=mode)


EVAL_FACTS = """
broadcast proof fn b_upper(v: i32)
    ensures #![trigger v >> 8] ((v >> 8) & 0xFF) as int == (v as int % 0x1_0000) / 256,
{ upper_bits(v); }

broadcast proof fn b_lower(v: i32)
    ensures #![trigger v & 0xFF] (v & 0xFF) as int == v as int % 256,
{ lower_bits(v); }

broadcast proof fn b_quot(a: int, b: int)
    requires b != 0, i32ok(a), i32ok(b),
    ensures #![trigger quot(a, b)] a != -0x8000_0000 || b != -1 ==> i32ok(quot(a, b)),
        a == -0x8000_0000 && b == -1 ==> quot(a, b) == 0x8000_0000,
        b < 0 && a >= 0 ==> a / b == -(a / -b),
        b < 0 && a < 0 ==> (-a) / b == -((-a) / -b),
{ quot_bounds(a, b); }
"""


def build_c05(srcs, gen):
    u = Unit("expr")
    e = srcs["src/expression.rs"]
    ev_types(u, srcs)

    u.raw(NEG, "assumed")
    u.assumed.append("i32::checked_neg as documented by std (not yet specified in vstd)")
    u.lemmas(EV_LEMMAS)
    u.lemmas(EVAL_FACTS)
    u.raw("broadcast group eval_facts { b_upper, b_lower, b_quot }")
    c_expr_span(u, e)
    c_eval(u, e)
    return u


# ---------------------------------------------------------------- names

HASHMAP = """
/// what a key is looked up by (String and str by their text)
pub trait KeyView { type KV; spec fn kv(&self) -> Self::KV; }
impl KeyView for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl KeyView for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl KeyView for usize { type KV = usize; open spec fn kv(&self) -> usize { *self } }

/// stands for std::collections::HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K: KeyView, V> { k: std::marker::PhantomData<(K, V)> }
impl<K: KeyView, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::KV, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K::KV, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: KeyView<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some == self@.dom().contains(k.kv()), r is Some ==> *r->Some_0 == self@[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: KeyView<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.kv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
    { unimplemented!() }
    /// what the index operator `m[k]` does
    #[verifier::external_body]
    pub fn at_key<Q: KeyView<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: &V)
        requires self@.dom().contains(k.kv()),
        ensures *r == self@[k.kv()],
    { unimplemented!() }
}
"""

NAMES_SPEC = """
pub open spec fn get_in<T>(m: Map<Seq<char>, T>, n: Seq<char>) -> Option<T> {
    if m.dom().contains(n) { Some(m[n]) } else { None }
}
/// what a name means: local labels by the local table, everything else by the global one
pub open spec fn scope(g: Map<Seq<char>, i32>, l: Map<Seq<char>, i32>) -> spec_fn(Seq<char>) -> Option<i32> {
    |n: Seq<char>| if dotted(n) { get_in(l, n) } else { get_in(g, n) }
}
pub open spec fn at_label(names: Names, label: Seq<char>) -> spec_fn(Seq<char>) -> Option<i32> {
    scope(names.globals@, names.locals@[label]@)
}
"""

PREFIX = """
/// str::starts_with with a text pattern
#[verifier::external_body]
pub fn std_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == (p@.len() <= s@.len() && s@.subrange(0, p@.len() as int) == p@),
{ s.starts_with(p) }
pub fn starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == (p@.len() <= s@.len() && s@.subrange(0, p@.len() as int) == p@), p@ == "."@ ==> r == dotted(s@),
{
    proof { dot_prefix(s@); }
    std_starts_with(s, p)
}
proof fn dot_prefix(s: Seq<char>)
    ensures ("."@.len() <= s.len() && s.subrange(0, "."@.len() as int) == "."@) == dotted(s),
{
    reveal_strlit(".");
    assert("."@ =~= seq!['.']);
    if dotted(s) { assert(s.subrange(0, 1) =~= seq!['.']); }
    else if s.len() > 0 { assert(s.subrange(0, 1)[0] == s[0]); }
}
"""


def starts_with(u, f):
    """`x.starts_with(p)` becomes `starts_with(x, p)` (a generic Pattern method, not specified in vstd)."""
    T = f.toks
    n = 0
    for i in range(f.ibody, f.iend):
        if T[i].s == "." and T[i + 1].s == "starts_with" and T[i + 2].s == "(" and T[i - 1].k == "id" and T[i - 2].s != ".":
            f.rep(T[i - 1].a, T[i + 2].b, "starts_with(%s, " % T[i - 1].s)
            n += 1
    if n:
        u.rewrites.append("%s: `x.starts_with(p)` is written `starts_with(x, p)`" % f.name)
    return f


def names(u, srcs, mode="verify"):
    v = srcs["src/env.rs"]
    u.raw(HASHMAP, "assumed")
    u.assumed.append("std HashMap (new, get, contains_key, insert, index) behaves as a finite map from texts to values")
    items(u, v, "struct Names", "struct NamesEnv")
    u.raw(NAMES_SPEC)
    u.raw(PREFIX, "assumed")
    u.assumed.append("str::starts_with with a text pattern is prefix comparison")
    u.open("impl<'n, 'g, 'l> Env<i32> for NamesEnv<'n, 'g, 'l> {\n"
           "    open spec fn all(&self) -> spec_fn(Seq<char>) -> Option<i32> { scope(self.globals@, self.locals@) }")
    for n in ("name", "get"):
        f = Fn(v.find("impl<'n,'g,'l>Env<i32>for NamesEnv<'n,'g,'l>", "fn " + n).text)
        if n == "get" and mode == "verify":
            starts_with(u, f)
            for k in range(len(f.closures)):
                a, b, _, _ = f.closures[k]
                x = [t.s for t in f.toks[a + 1:b]]
                if len(x) != 1:
                    raise Lost("NamesEnv::get: closure")
                f.closure(k, "|%s: &i32| -> (vx_r: i32) ensures vx_r == *%s" % (x[0], x[0]))
        u.fn(f, "src/env.rs: NamesEnv::" + n, impl="NamesEnv", mode=mode, vac=False)
    u.close()
    f = Fn(v.find("impl Names", "fn as_env").text)
    u.fn(f, "src/env.rs: Names::as_env", impl="impl Names", mode=mode,
         req=["self.locals@.dom().contains(current_global@)"],
         ens=["r.all() == at_label(*self, current_global@)"])


# ---------------------------------------------------------------- operands

FIT = """
/// what an operand of each kind holds for the value v, when the next instruction is at pos;
/// None when the field cannot express it
pub open spec fn fit_i8(v: int) -> Option<int> { if 0 <= v <= 255 { Some(v) } else { None } }
pub open spec fn fit_d9(v: int) -> Option<int> { if 0 <= v <= 511 { Some(v) } else { None } }
pub open spec fn fit_b3(v: int) -> Option<int> { if 0 <= v <= 7 { Some(v) } else { None } }
pub open spec fn fit_a16(v: int) -> Option<int> { if 0 <= v <= 65535 { Some(v) } else { None } }
pub open spec fn fit_a12(v: int, pos: int) -> Option<int> {
    if 0 <= v <= 65535 && v / 4096 == (pos % 65536) / 4096 { Some(v % 4096) } else { None }
}
pub open spec fn fit_r8(v: int, pos: int) -> Option<int> {
    if 0 <= v <= 65535 && -128 <= v - pos <= 127 { Some(v - pos) } else { None }
}
pub open spec fn fit_r16(v: int, pos: int) -> Option<int> {
    if 0 <= v <= 65535 && -32768 <= v - (pos - 1) <= 32767 { Some(v - (pos - 1)) } else { None }
}

/// where the processor continues when the next instruction is at pos (addresses are 16 bits)
pub open spec fn goes_a12(o: int, pos: int) -> int { (pos % 65536) / 4096 * 4096 + o }
pub open spec fn goes_r8(o: int, pos: int) -> int { (pos + o) % 65536 }
pub open spec fn goes_r16(o: int, pos: int) -> int { (pos - 1 + o) % 65536 }
"""

FIT_LEMMAS = """
/// an accepted operand takes the processor to the target, and is in its field's range
proof fn target_reached(v: int, pos: int)
    ensures
        fit_a12(v, pos) is Some ==> 0 <= fit_a12(v, pos)->0 <= 4095 && goes_a12(fit_a12(v, pos)->0, pos) == v,
        fit_r8(v, pos) is Some ==> -128 <= fit_r8(v, pos)->0 <= 127 && goes_r8(fit_r8(v, pos)->0, pos) == v,
        fit_r16(v, pos) is Some ==> -32768 <= fit_r16(v, pos)->0 <= 32767 && goes_r16(fit_r16(v, pos)->0, pos) == v,
{
    if fit_r8(v, pos) is Some { assert(pos + (v - pos) == v); }
    if fit_r16(v, pos) is Some { assert(pos - 1 + (v - (pos - 1)) == v); }
}

/// and no operand was rejected that could have reached the target (without wrapping around)
proof fn rejected_unreachable(v: int, pos: int, o: int)
    requires 0 <= v <= 65535, 0 <= pos,
    ensures
        fit_a12(v, pos) is None && 0 <= o <= 4095 ==> goes_a12(o, pos) != v,
        fit_r8(v, pos) is None && -128 <= o <= 127 ==> pos + o != v,
        fit_r16(v, pos) is None && -32768 <= o <= 32767 ==> pos - 1 + o != v,
{
}
"""

import isatab as isa  # noqa: E402
import isa as isac  # noqa: E402

TARGET = ("a12", "a16", "r8", "r16")
WITHPOS = ("a12", "r8", "r16")
EVM = "spec_fn(Seq<char>) -> Option<i32>"


def operand_specs():
    """The relation between an instruction of expressions and the instruction of values."""
    o = []
    for k in ("i8", "d9", "b3", "a16", "a12", "r8", "r16"):
        p = ", pos" if k in WITHPOS else ""
        pd = ", pos: int" if k in WITHPOS else ""
        o.append("pub open spec fn op_%s(e: Expr, m: %s%s) -> Option<int> { match ev(e, m) { Some(v) => fit_%s(v%s), None => None } }" % (k, EVM, pd, k, p))
        bits = {"i8": 8, "d9": 9, "b3": 3, "a16": 16, "a12": 16}.get(k)
        if k in ("r8", "r16"):
            c = ["EncodingError::InvalidAddress { value, .. } => ev(e, m) == Some(value as int) && !(0 <= value <= 65535)",
                 "EncodingError::SignedNumOutOfRange { bits, .. } => bits == %s && match ev(e, m) { Some(v) => 0 <= v <= 65535 && fit_%s(v, pos) is None, None => false }" % (k[1:], k)]
        else:
            c = ["EncodingError::NumOutOfRange { bits, value, .. } => bits == %d && ev(e, m) == Some(value as int) && !(0 <= value < %d)" % (bits, 1 << bits)]
            if k == "a12":
                c.append("EncodingError::AddrBitsDontMatch { .. } => match ev(e, m) { Some(v) => 0 <= v <= 65535 && fit_a12(v, pos) is None, None => false }")
        o.append("/// x is a reason to reject this operand\npub open spec fn bad_%s(e: Expr, m: %s%s, x: EncodingError) -> bool { match x {\n"
                 "    EncodingError::EvalError(y) => ev(e, m) is None && fails(e, m, why(y)),\n    %s,\n    _ => false,\n} }" % (
                     k, EVM, pd, ",\n    ".join(c)))
    o.append("pub open spec fn mode_of(i: IndirectionMode) -> int { match i { IndirectionMode::R0 => 0, IndirectionMode::R1 => 1, IndirectionMode::R2 => 2, IndirectionMode::R3 => 3 } }")

    def call(fn, k, n, extra=""):
        return "%s_%s(e%d, m%s%s)" % (fn, k, n, ", pos" if k in WITHPOS else "", extra)

    def rel(n, k):
        if k == "ri":
            return "o%d as int == mode_of(e%d)" % (n, n)
        return "%s == Some(o%d as int)" % (call("op", k, n), n)

    T = "i: Instr<Expr, IndirectionMode>, m: %s, pos: int" % EVM
    for part, want in (("values", lambda k: k not in TARGET), ("targets", lambda k: k in TARGET)):
        o.append("/// every operand %s has its own value, in its own place\n"
                 "spec fn ok_%s(%s, r: Instr<i32, u8>) -> bool { match i {" % (
                     "that is a branch or jump target" if part == "targets" else "other than a branch or jump target", part, T))
        for n, (kinds, _) in isa.FORMS.items():
            es = "(%s)" % ", ".join("e%d" % x for x in range(len(kinds))) if kinds else ""
            os_ = "(%s)" % ", ".join("o%d" % x for x in range(len(kinds))) if kinds else ""
            c = " && ".join(rel(x, k) for x, k in enumerate(kinds) if want(k)) or "true"
            o.append("    Instr::%s%s => match r { Instr::%s%s => %s, _ => false }," % (n, es, n, os_, c))
        o.append("} }")
    o.append("/// some operand is rejected, for this reason\nspec fn rejected(%s, x: EncodingError) -> bool { match i {" % T)
    for n, (kinds, _) in isa.FORMS.items():
        es = "(%s)" % ", ".join("e%d" % x for x in range(len(kinds))) if kinds else ""
        c = " || ".join(call("bad", k, x, ", x") for x, k in enumerate(kinds) if k != "ri") or "false"
        o.append("    Instr::%s%s => %s," % (n, es, c))
    o.append("} }")
    return "\n".join(o)


SHIFT = """
broadcast proof fn b_shift(v: i32, bits: usize)
    requires bits == 3 || bits == 8 || bits == 9 || bits == 16,
    ensures #![trigger v >> bits]
        bits == 3 ==> ((v >> bits) == 0 <==> 0 <= v < 8),
        bits == 8 ==> ((v >> bits) == 0 <==> 0 <= v < 256),
        bits == 9 ==> ((v >> bits) == 0 <==> 0 <= v < 512),
        bits == 16 ==> ((v >> bits) == 0 <==> 0 <= v < 65536),
{
    assert((v >> 3usize) == 0 <==> 0 <= v < 8) by (bit_vector);
    assert((v >> 8usize) == 0 <==> 0 <= v < 256) by (bit_vector);
    assert((v >> 9usize) == 0 <==> 0 <= v < 512) by (bit_vector);
    assert((v >> 16usize) == 0 <==> 0 <= v < 65536) by (bit_vector);
}
"""

PAGE = """
broadcast proof fn b_page(x: usize)
    ensures #![trigger x & 0b1111000000000000usize]
        (x & 0b1111000000000000usize) == (x as int % 65536) / 4096 * 4096,
{
    assert((x & 0b1111000000000000usize) as int == (x as int % 65536) / 4096 * 4096) by (bit_vector);
}
broadcast proof fn b_offset(x: usize)
    ensures #![trigger x & 0b0000111111111111usize]
        (x & 0b0000111111111111usize) == x as int % 4096,
{
    assert((x & 0b0000111111111111usize) as int == x as int % 4096) by (bit_vector);
}
broadcast proof fn b_page_i(x: i32)
    requires x >= 0,
    ensures #![trigger x & 0b1111000000000000i32]
        (x & 0b1111000000000000i32) == (x as int % 65536) / 4096 * 4096,
{
    assert(x >= 0 ==> (x & 0b1111000000000000i32) as int == (x as int % 65536) / 4096 * 4096) by (bit_vector);
}
broadcast proof fn b_offset_i(x: i32)
    requires x >= 0,
    ensures #![trigger x & 0b0000111111111111i32]
        (x & 0b0000111111111111i32) == x as int % 4096,
{
    assert(x >= 0 ==> (x & 0b0000111111111111i32) as int == x as int % 4096) by (bit_vector);
}
"""


def op_types(u, srcs, mode_eval="assume"):
    ev_types(u, srcs)
    names(u, srcs, mode="verify")
    c_expr_span(u, srcs["src/expression.rs"], "verify")
    if mode_eval:
        c_eval(u, srcs["src/expression.rs"], mode_eval)
    s = srcs["src/instruction.rs"]
    isac.add_types(u, srcs)
    items(u, s, "enum EncodingError")
    u.raw("type EncResult<T> = Result<T, EncodingError>;\ntype EvalResult = EncResult<Instr<i32, u8>>;")
    # `?` converts with this function; its contract is what `conversion` says of `?`
    f = Fn(s.find("impl From<EvaluationError>for EncodingError", "fn from").text)
    u.open("impl From<EvaluationError> for EncodingError {")
    u.fn(f, "src/instruction.rs: From<EvaluationError> for EncodingError", impl="From", vac=False)
    u.close()
    u.raw("impl vstd::std_specs::convert::FromSpecImpl<EvaluationError> for EncodingError {\n"
          "    open spec fn obeys_from_spec() -> bool { true }\n"
          "    open spec fn from_spec(e: EvaluationError) -> EncodingError { EncodingError::EvalError(e) }\n}")
    u.raw("pub broadcast axiom fn conversion(e: EvaluationError, r: EncodingError)\n"
          "    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<EncodingError, EvaluationError>(e, r) ==> r == EncodingError::EvalError(e);", "assumed")
    u.assumed.append("`?` on an evaluation error converts with From::from (whose contract is proved)")
    for n, e in (("mismatch_top_bits", "EncodingError::AddrBitsDontMatch { span, pos, value, pos_top, value_top }"),
                 ("out_of_range", "EncodingError::NumOutOfRange { span, bits, value }"),
                 ("signed_out_of_range", "EncodingError::SignedNumOutOfRange { span, bits, value }"),
                 ("invalid_addr", "EncodingError::InvalidAddress { span, value }")):
        u.fn(Fn(s.find("impl EncodingError", "fn " + n).text), "src/instruction.rs: EncodingError::" + n,
             impl="impl EncodingError", ens=["r == (%s)" % e])
    u.raw(FIT)
    u.lemmas(FIT_LEMMAS)
    u.raw(operand_specs())


def op_ens(k, m="env.all()"):
    p = ", pos as int" if k in WITHPOS else ""
    return ["match r { Ok(v) => op_%s(*expr, %s%s) == Some(v as int), Err(x) => bad_%s(*expr, %s%s, x) }" % (k, m, p, k, m, p)]


def c_fields(u, srcs, mode="verify"):
    s = srcs["src/instruction.rs"]
    f = Fn(s.find("fn eval").text)
    if mode == "verify":
        f.body_start("broadcast use b_shift, conversion;")
    lim = "(if bits == 3 { 8int } else if bits == 8 { 256 } else if bits == 9 { 512 } else { 65536 })"
    u.fn(f, "src/instruction.rs: eval", mode=mode,
         req=["bits == 3 || bits == 8 || bits == 9 || bits == 16"],
         ens=["match r { Ok(v) => ev(*expr, env.all()) == Some(v as int) && 0 <= v < %s, "
              "Err(x) => match x { EncodingError::EvalError(y) => ev(*expr, env.all()) is None && fails(*expr, env.all(), why(y)), "
              "EncodingError::NumOutOfRange { bits: vx_b, value, .. } => vx_b == bits && ev(*expr, env.all()) == Some(value as int) && !(0 <= value < %s), "
              "_ => false } }" % (lim, lim)])
    for n, k in (("eval3", "b3"), ("eval8", "i8"), ("eval9", "d9"), ("eval16", "a16")):
        u.fn(Fn(s.find("fn " + n).text), "src/instruction.rs: " + n, ens=op_ens(k), mode=mode)


def c_targets(u, srcs, mode="verify"):
    s = srcs["src/instruction.rs"]
    for n, k in (("eval12", "a12"), ("rel8", "r8"), ("rel16", "r16")):
        f = Fn(s.find("fn " + n).text)
        if mode == "verify":
            f.body_start("broadcast use page_facts, conversion;")
        u.fn(f, "src/instruction.rs: " + n, ens=op_ens(k), mode=mode, req=["pos <= 0x7fff_0000"])


def c_instr_eval(u, srcs, parts, mode="verify"):
    """parts: which operands the postcondition speaks of"""
    s = srcs["src/instruction.rs"]
    f = Fn(srcs["src/expression.rs"].find("impl IndirectionMode", "fn index").text)
    u.fn(f, "src/expression.rs: IndirectionMode::index", impl="impl IndirectionMode", mode=mode, ens=["r as int == mode_of(*self)"])
    f = Fn(s.find("impl Instr<Expr,IndirectionMode>", "fn eval").text)
    m = "at_label(*names, label@), pos as int"
    ok = " && ".join("ok_%s(*self, %s, v)" % (p, m) for p in parts)
    u.fn(f, "src/instruction.rs: Instr::eval", impl="impl Instr<Expr, IndirectionMode>", mode=mode,
         req=["names.locals@.dom().contains(label@)", "pos <= 0x7fff_0000"],
         ens=["match r { Ok(v) => %s, Err(x) => rejected(*self, %s, x) }" % (ok, m)],
         attrs=["verifier::rlimit(200)", "verifier::spinoff_prover"])


def build_c03(srcs, gen):
    u = Unit("operands")
    op_types(u, srcs)
    u.lemmas(SHIFT)
    c_fields(u, srcs)
    c_targets(u, srcs, "assume")
    c_instr_eval(u, srcs, ["values"])
    return u


def build_c04(srcs, gen):
    u = Unit("targets")
    op_types(u, srcs)
    u.lemmas(PAGE)
    u.raw("broadcast group page_facts { b_page, b_offset, b_page_i, b_offset_i }")
    c_fields(u, srcs, "assume")
    c_targets(u, srcs)
    c_instr_eval(u, srcs, ["targets"])
    return u
