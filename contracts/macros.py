"""Contracts of macro expansion (C09)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import asm  # noqa: E402
import core  # noqa: E402
import isa as isac  # noqa: E402
from rustx import Fn, Lost, lex, match_close, split_top  # noqa: E402,F401
from vunit import Unit  # noqa: E402

UN = ("UnaryMinus", "UpperByte", "LowerByte")
BIN = ("Plus", "Minus", "Times", "Divide", "BitwiseAnd", "BitwiseOr", "BitwiseXor")


def spec():
    def each(un, bi):
        return "\n".join(["        Expr::%s(_, x) => %s," % (k, un(k)) for k in UN] + ["        Expr::%s(_, x, y) => %s," % (k, bi(k)) for k in BIN])
    same = each(lambda k: "match b { Expr::%s(_, p) => same(*x, *p), _ => false }" % k,
                lambda k: "match b { Expr::%s(_, p, q) => same(*x, *p) && same(*y, *q), _ => false }" % k)
    put = each(lambda k: "match r { Expr::%s(_, p) => put(*x, labels, args, *p), _ => false }" % k,
               lambda k: "match r { Expr::%s(_, p, q) => put(*x, labels, args, *p) && put(*y, labels, args, *q), _ => false }" % k)
    fails = each(lambda k: "unput(*x, labels, args, w)", lambda k: "unput(*x, labels, args, w) || unput(*y, labels, args, w)")
    return """
pub type Labels = Map<Seq<char>, String>;
pub type Args = Map<Seq<char>, Arg>;
pub type Key = (Seq<char>, usize);
pub type Defs = Map<Key, MacroDefinition>;

/// equal but for the positions in the source
pub open spec fn same(a: Expr, b: Expr) -> bool
    decreases a
{
    match a {
        Expr::Number(_, n, k) => match b { Expr::Number(_, m, l) => n == m && k == l, _ => false },
        Expr::Name(_, n) => match b { Expr::Name(_, m) => n@ == m@, _ => false },
        Expr::MacroLabel(_, n) => match b { Expr::MacroLabel(_, m) => n@ == m@, _ => false },
        Expr::MacroArg(_, n) => match b { Expr::MacroArg(_, m) => n@ == m@, _ => false },
%s
    }
}
pub open spec fn no_labels() -> Labels { Map::empty() }
pub open spec fn no_args() -> Args { Map::empty() }
/// C09: r is e with its labels and parameters replaced
pub open spec fn put(e: Expr, labels: Labels, args: Args, r: Expr) -> bool
    decreases e
{
    match e {
        Expr::Number(_, n, k) => same(e, r),
        Expr::Name(_, n) => same(e, r),
        Expr::MacroLabel(_, n) => labels.dom().contains(n@) && match r { Expr::Name(_, m) => m@ == labels[n@]@, _ => false },
        Expr::MacroArg(_, n) => args.dom().contains(n@) && match args[n@] { Arg::Ex(x) => same(x, r), _ => false },
%s
    }
}
/// why labels and parameters cannot be replaced
pub enum Wrong { Label, Param, Immediate, Mode, ParamOutside }
pub open spec fn wrong(x: EvaluationError) -> Option<Wrong> {
    match x {
        EvaluationError::MacroLabelOutsideOfMacro(_) => Some(Wrong::Label),
        EvaluationError::InvalidMacroArg(_) => Some(Wrong::Param),
        EvaluationError::ImmediateValueNotAllowedHere(_) => Some(Wrong::Immediate),
        EvaluationError::IndirectionModeNotAllowedHere(_) => Some(Wrong::Mode),
        EvaluationError::MacroArgOutsideOfMacro(_) => Some(Wrong::ParamOutside),
        _ => None,
    }
}
pub open spec fn awrong(x: AssemblyError) -> Option<Wrong> {
    match x {
        AssemblyError::MacroLabelOutsideOfMacro(_) => Some(Wrong::Label),
        AssemblyError::InvalidMacroArg(_) => Some(Wrong::Param),
        AssemblyError::ImmediateValueNotAllowedHere(_) => Some(Wrong::Immediate),
        AssemblyError::IndirectionModeNotAllowedHere(_) => Some(Wrong::Mode),
        AssemblyError::MacroArgOutsideOfMacro(_) => Some(Wrong::ParamOutside),
        _ => None,
    }
}
pub open spec fn unput(e: Expr, labels: Labels, args: Args, w: Wrong) -> bool
    decreases (if args == no_args() { 0nat } else { 1nat }), e
{
    match e {
        Expr::Number(_, _, _) => false,
        Expr::Name(_, _) => false,
        Expr::MacroLabel(_, n) => !labels.dom().contains(n@) && w == Wrong::Label,
        Expr::MacroArg(_, n) => if !args.dom().contains(n@) { w == Wrong::Param } else { match args[n@] {
            Arg::Imm(_) => w == Wrong::Immediate,
            Arg::IM(_, _) => w == Wrong::Mode,
            Arg::MacroArg(_, _) => w == Wrong::ParamOutside,
            Arg::Ex(x) => args != no_args() && unput(x, no_labels(), no_args(), w),
        } },
%s
    }
}
pub open spec fn same_arg(a: Arg, b: Arg) -> bool {
    match a {
        Arg::Imm(x) => match b { Arg::Imm(y) => same(x, y), _ => false },
        Arg::Ex(x) => match b { Arg::Ex(y) => same(x, y), _ => false },
        Arg::IM(_, x) => match b { Arg::IM(_, y) => x == y, _ => false },
        Arg::MacroArg(_, x) => match b { Arg::MacroArg(_, y) => x@ == y@, _ => false },
    }
}
pub open spec fn put_arg(a: Arg, labels: Labels, args: Args, r: Arg) -> bool {
    match a {
        Arg::MacroArg(_, n) => args.dom().contains(n@) && same_arg(args[n@], r),
        Arg::Imm(x) => match r { Arg::Imm(y) => put(x, labels, args, y), _ => false },
        Arg::Ex(x) => match r { Arg::Ex(y) => put(x, labels, args, y), _ => false },
        Arg::IM(_, x) => match r { Arg::IM(_, y) => x == y, _ => false },
    }
}
pub open spec fn unput_arg(a: Arg, labels: Labels, args: Args, w: Wrong) -> bool {
    match a {
        Arg::MacroArg(_, n) => !args.dom().contains(n@) && w == Wrong::Param,
        Arg::Imm(x) => unput(x, labels, args, w),
        Arg::Ex(x) => unput(x, labels, args, w),
        Arg::IM(_, _) => false,
    }
}
pub open spec fn arg_stuck(a: Seq<Arg>, labels: Labels, args: Args, x: AssemblyError) -> bool {
    awrong(x) is Some && exists|i: int| 0 <= i < a.len() && unput_arg(#[trigger] a[i], labels, args, awrong(x)->0)
}
pub open spec fn put_args(a: Seq<Arg>, labels: Labels, args: Args, r: Seq<Arg>) -> bool {
    r.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> put_arg(a[i], labels, args, #[trigger] r[i])
}
""" % (same, put, fails)


LABELS = """
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s.last() == c { without(s.drop_last(), c) } else { without(s.drop_last(), c).push(s.last()) } }
/// a text that a new UUID was written as
pub uninterp spec fn uuid(s: Seq<char>) -> bool;
/// C09: the name of a macro-local label: its own, made unique by a UUID
pub open spec fn label_of(n: Seq<char>, v: Seq<char>) -> bool {
    exists|u: Seq<char>| #[trigger] uuid(u) && v == without(n, '%') + seq!['_'] + without(u, '-')
}
pub open spec fn names_label(b: MacroStatement, n: Seq<char>) -> bool {
    match b { MacroStatement::MacroLabel(_, m) => m@ == n, _ => false }
}
pub open spec fn label_twice(b: Seq<MacroStatement>) -> bool {
    exists|i: int, j: int| 0 <= i < j < b.len() && b[i] is MacroLabel && #[trigger] names_label(b[j], #[trigger] label_name(b[i]))
}
pub open spec fn label_name(b: MacroStatement) -> Seq<char> { match b { MacroStatement::MacroLabel(_, m) => m@, _ => seq![] } }
pub open spec fn labelled(b: Seq<MacroStatement>, n: int, m: Labels) -> bool {
    &&& forall|i: int| 0 <= i < n && (#[trigger] b[i]) is MacroLabel ==> m.dom().contains(label_name(b[i]))
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> label_of(k, m[k]@) && exists|i: int| 0 <= i < n && names_label(#[trigger] b[i], k)
    &&& forall|k: Seq<char>, l: Seq<char>| m.dom().contains(k) && m.dom().contains(l) && k != l ==> #[trigger] m[k]@ != #[trigger] m[l]@
}
"""

EXPAND = """
/// what the instruction parser makes of a name and its operands
pub uninterp spec fn made(span: Span, name: Seq<char>, args: Seq<Arg>) -> Option<Statement>;

pub open spec fn key(n: Seq<char>, a: int) -> Key { (n, a as usize) }
pub open spec fn keys_of(s: Seq<MacroIdentifier>) -> Seq<Key> { Seq::new(s.len(), |i: int| s[i].kv()) }
/// the parameters stand for the caller's arguments
pub open spec fn bound(ps: Seq<(Span, String)>, n: int, a: Seq<Arg>, m: Args) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] ps[i]).1@)
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] is_param(ps[i], k) && m[k] == a[i]
}
pub open spec fn is_param(p: (Span, String), k: Seq<char>) -> bool { p.1@ == k }
pub open spec fn joined(cs: Seq<Seq<Statement>>) -> Seq<Statement>
    decreases cs.len()
{ if cs.len() == 0 { seq![] } else { joined(cs.drop_last()) + cs.last() } }
pub open spec fn is_label(o: Seq<Statement>, n: Seq<char>) -> bool {
    o.len() == 1 && match o[0] { Statement::Label(_, m) => m@ == n, _ => false }
}
pub open spec fn instr_of(n: Seq<char>, a: Seq<Arg>, o: Seq<Statement>) -> bool {
    exists|sp: Span| (#[trigger] made(sp, n, a)) is Some && o =~= seq![made(sp, n, a)->0]
}
pub open spec fn makes(cs: Seq<Seq<Statement>>, o: Seq<Statement>) -> bool { o == joined(cs) }
pub open spec fn within(i: int, n: int) -> bool { 0 <= i < n }
/// C09: what one statement of a body becomes
pub open spec fn becomes(d: Defs, labels: Labels, args: Args, active: Seq<Key>, b: MacroStatement, o: Seq<Statement>, fuel: nat) -> bool
    decreases fuel, 0nat
{
    match b {
        MacroStatement::Label(_, n) => is_label(o, n@),
        MacroStatement::MacroLabel(_, n) => labels.dom().contains(n@) && is_label(o, labels[n@]@),
        MacroStatement::Instr(_, n, a) => exists|na: Seq<Arg>| #[trigger] put_args(a@, labels, args, na)
            && if d.dom().contains(key(n@, a@.len() as int)) { fuel > 0 && expanded(d, n@, na, active, o, (fuel - 1) as nat) } else { instr_of(n@, na, o) },
    }
}
pub open spec fn body_becomes(d: Defs, labels: Labels, args: Args, active: Seq<Key>, b: Seq<MacroStatement>, n: int, cs: Seq<Seq<Statement>>, fuel: nat) -> bool
    decreases fuel, 1nat
{
    cs.len() == n && forall|i: int| 0 <= i < n ==> becomes(d, labels, args, active, b[i], #[trigger] cs[i], fuel)
}
/// C09: o is the expansion of a call
pub open spec fn expanded(d: Defs, name: Seq<char>, args: Seq<Arg>, active: Seq<Key>, o: Seq<Statement>, fuel: nat) -> bool
    decreases fuel, 2nat
{
    let k = key(name, args.len() as int);
    !active.contains(k) && d.dom().contains(k) && d[k].args@.len() == args.len()
    && exists|labels: Labels, m: Args, cs: Seq<Seq<Statement>>| #[trigger] labelled(d[k].body@, d[k].body@.len() as int, labels)
        && #[trigger] bound(d[k].args@, args.len() as int, args, m)
        && body_becomes(d, labels, m, active.push(k), d[k].body@, d[k].body@.len() as int, cs, fuel)
        && #[trigger] makes(cs, o)
}
/// why a statement of a body cannot be expanded
pub open spec fn stuck(d: Defs, labels: Labels, args: Args, active: Seq<Key>, b: MacroStatement, x: AssemblyError, fuel: nat) -> bool
    decreases fuel, 0nat
{
    match b {
        MacroStatement::Instr(_, n, a) =>
            arg_stuck(a@, labels, args, x)
            || (exists|na: Seq<Arg>| #[trigger] put_args(a@, labels, args, na)
                && if d.dom().contains(key(n@, a@.len() as int)) { fuel > 0 && unexpanded(d, n@, na, active, x, (fuel - 1) as nat) }
                   else { exists|sp: Span| (#[trigger] made(sp, n@, na)) is None }),
        _ => false,
    }
}
/// C09: why a call is an error
pub open spec fn unexpanded(d: Defs, name: Seq<char>, args: Seq<Arg>, active: Seq<Key>, x: AssemblyError, fuel: nat) -> bool
    decreases fuel, 2nat
{
    let k = key(name, args.len() as int);
    ||| active.contains(k) && x is RecursiveMacro
    ||| !d.dom().contains(k) && x is NoSuchMacro
    ||| d.dom().contains(k) && d[k].args@.len() != args.len() && x is WrongNumberOfMacroArgs
    ||| d.dom().contains(k) && label_twice(d[k].body@) && x is DuplicateLabel
    ||| !active.contains(k) && d.dom().contains(k) && exists|labels: Labels, m: Args, i: int| #[trigger] labelled(d[k].body@, d[k].body@.len() as int, labels)
            && #[trigger] bound(d[k].args@, args.len() as int, args, m) && #[trigger] within(i, d[k].body@.len() as int)
            && stuck(d, labels, m, active.push(k), d[k].body@[i], x, fuel)
}
/// how deep calls can still go
pub open spec fn left(d: Defs, active: Seq<Key>) -> nat { (d.dom().len() - active.len()) as nat }
pub open spec fn calls(d: Defs, active: Seq<Key>) -> bool {
    active.no_duplicates() && forall|i: int| 0 <= i < active.len() ==> d.dom().contains(#[trigger] active[i])
}
/// C09: what a statement of the program becomes
pub open spec fn stands_for(d: Defs, s: Statement, o: Seq<Statement>) -> bool {
    match s {
        Statement::MacroCall(_, n, a) => expanded(d, n@, a@, seq![], o, left(d, seq![])),
        _ => o =~= seq![s],
    }
}
pub open spec fn unstands(d: Defs, s: Statement, x: AssemblyError) -> bool {
    match s { Statement::MacroCall(_, n, a) => unexpanded(d, n@, a@, seq![], x, left(d, seq![])), _ => false }
}
pub open spec fn unprogram(d: Defs, s: Seq<Statement>, x: AssemblyError) -> bool {
    exists|i: int| 0 <= i < s.len() && unstands(d, #[trigger] s[i], x)
}
pub open spec fn program(d: Defs, s: Seq<Statement>, n: int, cs: Seq<Seq<Statement>>) -> bool {
    cs.len() == n && forall|i: int| 0 <= i < n ==> stands_for(d, s[i], #[trigger] cs[i])
}
"""

EXPAND_LEMMAS = """
proof fn depth(d: Defs, active: Seq<Key>, k: Key)
    requires calls(d, active), d.dom().contains(k), !active.contains(k),
    ensures active.len() < d.dom().len(), calls(d, active.push(k)), left(d, active.push(k)) + 1 == left(d, active),
{
    let a = active.push(k);
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        if i == active.len() { assert(active.contains(active[j])); }
        if j == active.len() { assert(active.contains(active[i])); }
    }
    assert forall|i: int| 0 <= i < a.len() implies d.dom().contains(#[trigger] a[i]) by { if i < active.len() { assert(a[i] == active[i]); } }
    a.unique_seq_to_set();
    assert(a.to_set().subset_of(d.dom())) by {
        assert forall|x: Key| #[trigger] a.to_set().contains(x) implies d.dom().contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(d.dom().contains(a[i])); }
    }
    vstd::set_lib::lemma_len_subset(a.to_set(), d.dom());
}
proof fn unstands_at(d: Defs, s: Seq<Statement>, i: int)
    requires 0 <= i < s.len(),
    ensures calls(d, seq![]), keys_of(seq![]) == Seq::<Key>::empty(), forall|x: AssemblyError| unstands(d, s[i], x) ==> #[trigger] unprogram(d, s, x),
{ assert(keys_of(seq![]) =~= Seq::<Key>::empty()); }
proof fn stuck_call(d: Defs, name: Seq<char>, args: Seq<Arg>, active: Seq<Key>, labels: Labels, m: Args, i: int, fuel: nat)
    requires ({ let k = key(name, args.len() as int); !active.contains(k) && d.dom().contains(k) && labelled(d[k].body@, d[k].body@.len() as int, labels)
        && bound(d[k].args@, args.len() as int, args, m) && 0 <= i < d[k].body@.len() }),
    ensures ({ let k = key(name, args.len() as int);
        forall|x: AssemblyError| stuck(d, labels, m, active.push(k), d[k].body@[i], x, fuel) ==> #[trigger] unexpanded(d, name, args, active, x, fuel) }),
{
    let k = key(name, args.len() as int);
    assert forall|x: AssemblyError| stuck(d, labels, m, active.push(k), d[k].body@[i], x, fuel) implies #[trigger] unexpanded(d, name, args, active, x, fuel) by {
        assert(labelled(d[k].body@, d[k].body@.len() as int, labels));
        assert(bound(d[k].args@, args.len() as int, args, m));
        assert(within(i, d[k].body@.len() as int));
    }
}
proof fn bound_step(ps: Seq<(Span, String)>, n: int, a: Seq<Arg>, m: Args)
    requires bound(ps, n, a, m), 0 <= n < ps.len(), ps.len() == a.len(),
    ensures bound(ps, n + 1, a, m.insert(ps[n].1@, a[n])),
{
    let q = m.insert(ps[n].1@, a[n]);
    assert forall|k: Seq<char>| #[trigger] q.dom().contains(k) implies exists|i: int| 0 <= i < n + 1 && #[trigger] is_param(ps[i], k) && q[k] == a[i] by {
        if k == ps[n].1@ { assert(is_param(ps[n], k)); } else {
            assert(m.dom().contains(k));
            let i = choose|i: int| 0 <= i < n && #[trigger] is_param(ps[i], k) && m[k] == a[i];
            assert(is_param(ps[i], k));
        }
    }
}
proof fn joined_push(cs: Seq<Seq<Statement>>, c: Seq<Statement>)
    ensures joined(cs.push(c)) == joined(cs) + c,
{ assert(cs.push(c).drop_last() =~= cs); }
proof fn keys_push(s: Seq<MacroIdentifier>, k: MacroIdentifier)
    ensures keys_of(s.push(k)) == keys_of(s).push(k.kv()),
{ assert(keys_of(s.push(k)) =~= keys_of(s).push(k.kv())); }
proof fn same_self(e: Expr)
    ensures same(e, e),
    decreases e,
{
    match e {
%s
        _ => {}
    }
}
/// with nothing to replace, an expression stays as it is
proof fn put_nothing(e: Expr, r: Expr)
    requires put(e, no_labels(), no_args(), r),
    ensures same(e, r),
    decreases e,
{
    match e {
%s
        _ => {}
    }
}
proof fn same_spans(e: Expr, a: Expr, b: Expr)
    requires same(e, a), respanned(a, b),
    ensures same(e, b),
{}
"""


def expand_lemmas():
    a = ["        Expr::%s(_, x) => { same_self(*x); }" % k for k in UN] + ["        Expr::%s(_, x, y) => { same_self(*x); same_self(*y); }" % k for k in BIN]
    b = ["        Expr::%s(_, x) => { match r { Expr::%s(_, p) => put_nothing(*x, *p), _ => {} } }" % (k, k) for k in UN] \
        + ["        Expr::%s(_, x, y) => { match r { Expr::%s(_, p, q) => { put_nothing(*x, *p); put_nothing(*y, *q); } _ => {} } }" % (k, k) for k in BIN]
    return EXPAND_LEMMAS % ("\n".join(a), "\n".join(b))


RESPANNED = """
/// equal but for the position of the whole expression
pub open spec fn respanned(a: Expr, b: Expr) -> bool {
    match a {
        Expr::Number(_, n, k) => match b { Expr::Number(_, m, l) => n == m && k == l, _ => false },
        Expr::Name(_, n) => match b { Expr::Name(_, m) => n@ == m@, _ => false },
        Expr::MacroLabel(_, n) => match b { Expr::MacroLabel(_, m) => n@ == m@, _ => false },
        Expr::MacroArg(_, n) => match b { Expr::MacroArg(_, m) => n@ == m@, _ => false },
%s
    }
}
""" % "\n".join(["        Expr::%s(_, x) => match b { Expr::%s(_, p) => x == p, _ => false }," % (k, k) for k in UN]
                + ["        Expr::%s(_, x, y) => match b { Expr::%s(_, p, q) => x == p && y == q, _ => false }," % (k, k) for k in BIN])

MORE_STD = """
impl<K: KeyView, V> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// clone of a pair
#[verifier::external_body]
fn vx_pair(x: &(Span, String)) -> (r: (Span, String))
    ensures r.0 == x.0, r.1@ == x.1@,
{ unimplemented!() }
/// Vec::contains, by the derived equality of MacroIdentifier
pub trait VxContains { fn vx_contains(&self, k: &MacroIdentifier) -> bool; }
impl VxContains for Vec<MacroIdentifier> {
    #[verifier::external_body]
    fn vx_contains(&self, k: &MacroIdentifier) -> (r: bool)
        ensures r == keys_of(self@).contains(k.kv()),
    { unimplemented!() }
}
"""

UUID = """
pub struct Uuid { x: u8 }
impl Uuid {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// a UUID is not the end of any text made before
    #[verifier::external_body]
    pub fn vx_new(Ghost(before): Ghost<Labels>) -> (r: Uuid)
        ensures uuid(r.text()),
            forall|k: Seq<char>, n: Seq<char>| before.dom().contains(k) ==> #[trigger] before[k]@ != (#[trigger] without(n, '%')) + seq!['_'] + without(r.text(), '-'),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures r@ == self.text(),
    { unimplemented!() }
}
pub trait VxText {
    spec fn chars(&self) -> Seq<char>;
    fn vx_replace(&self, c: &str, by: &str) -> (r: String)
        ensures by@.len() == 0 && c@.len() == 1 ==> r@ == without(self.chars(), c@[0]);
}
impl VxText for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_replace(&self, c: &str, by: &str) -> (r: String) { unimplemented!() }
}
/// `format!("{}_{}", a, b)`
#[verifier::external_body]
fn vx_format(a: String, s: &str, b: String) -> (r: String)
    ensures r@ == a@ + s@ + b@,
{ unimplemented!() }
"""

MAKE_INSTR = """
mod parser {
    pub use super::*;
    #[verifier::external_body]
    pub fn make_instr(span: Span, name: String, args: &[Arg]) -> (r: Result<Option<Statement>, ParseError>)
        ensures match r { Ok(o) => made(span, name@, args@) == o, Err(_) => made(span, name@, args@) is None },
    { unimplemented!() }
}
"""


def types(u, srcs):
    a, b, e = srcs["src/ast.rs"], srcs["src/asm.rs"], srcs["src/expression.rs"]
    core.ev_types(u, srcs)
    u.raw(core.HASHMAP, "assumed")
    u.assumed.append("HashMap: a map from texts (or pairs of a text and a number) to values")
    core.c_expr_span(u, e, "assume")
    isac.add_types(u, srcs)
    u.raw(asm.FOREIGN, "assumed")
    u.dropped.append("the contents of foreign types (PathBuf, io::Error, ImageError, Token, Location)")
    core.items(u, e, "enum Arg")
    core.items(u, a, "enum ArgType", "enum ByteValue", "enum IncludeHeader", "enum SpriteType", "enum IncludeType", "enum Directive",
               "enum Statement", "struct MacroIdentifier", "struct MacroDefinition", "enum MacroStatement", "struct Statements")
    core.items(u, b, "enum AssemblyError")
    core.items(u, srcs["src/parser.rs"], "enum ParseError")
    core.clones(u, "Arg", "Statement")
    u.raw("impl KeyView for MacroIdentifier { type KV = Key; open spec fn kv(&self) -> Key { (self.name@, self.arity) } }")
    u.raw(asm.OWNED, "assumed")
    u.raw(spec())
    u.raw(LABELS)
    u.raw(EXPAND)
    u.raw(RESPANNED)
    u.raw(MORE_STD, "assumed")
    u.raw(MAKE_INSTR, "assumed")
    u.assumed.append("parser::make_instr is a function of the position, the name and the operands (which instruction it makes: C19)")
    u.assumed.append("Vec::contains compares macro identifiers by name and number of parameters "
                     "(derived equality); HashMap::clone")
    for t, g in (("EvaluationError", "awrong(r) == wrong(error)"), ("ParseError", "true")):
        f = Fn(b.find("impl From<%s>for AssemblyError" % t, "fn from").text)
        u.open("impl From<%s> for AssemblyError {" % t)
        u.fn(f, "src/asm.rs: From<%s> for AssemblyError" % t, impl="From<%s>" % t, vac=False, ens=[g])
        u.close()
        u.raw("impl vstd::std_specs::convert::FromSpecImpl<%s> for AssemblyError {\n"
              "    open spec fn obeys_from_spec() -> bool { false }\n"
              "    open spec fn from_spec(e: %s) -> AssemblyError { arbitrary() }\n}" % (t, t))
    u.raw("""
pub broadcast axiom fn a_conversion(e: EvaluationError, r: AssemblyError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<AssemblyError, EvaluationError>(e, r) ==> awrong(r) == wrong(e);
""", "assumed")
    u.assumed.append("`?` in the assembler converts with From::from (whose contract is proved)")


def c_put(u, srcs, mode="verify"):
    e = srcs["src/expression.rs"]
    f = Fn(e.find("impl Expr", "fn with_span").text)
    u.fn(f, "src/expression.rs: Expr::with_span", impl="impl Expr", ens=["respanned(*self, r)"], mode=mode)
    f = Fn(e.find("impl Expr", "fn replace_macro_args").text)
    if mode == "verify":
        call_hint(u, f)
    u.fn(f, "src/expression.rs: Expr::replace_macro_args", impl="impl Expr", mode=mode,
         dec="(if args@ == no_args() { 0nat } else { 1nat }), *self",
         ens=["match r { Ok(v) => put(*self, labels@, args@, v), "
              "Err(x) => wrong(x) is Some && unput(*self, labels@, args@, wrong(x)->0) }"])


def call_hint(u, f):
    """A call on another expression than an operand is followed by the lemma that nothing changes when nothing is replaced."""
    f.body_start("broadcast use put_facts;")


PUT_FACTS = """
broadcast proof fn b_put_nothing(e: Expr, l: Labels, a: Args, r: Expr)
    requires #[trigger] put(e, l, a, r), l == no_labels(), a == no_args(),
    ensures same(e, r),
{ put_nothing(e, r); }
broadcast proof fn b_same_spans(e: Expr, a: Expr, b: Expr)
    requires #[trigger] same(e, a), #[trigger] respanned(a, b),
    ensures same(e, b),
{ same_spans(e, a, b); }
broadcast group put_facts { b_put_nothing, b_same_spans }
"""


def gen_labels(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn gen_labels").text)
    if mode == "verify":
        T = f.toks
        name = None
        for i in range(f.ibody, f.iend):
            if T[i].s == "." and T[i + 1].s == "insert" and T[i - 1].k == "id":
                name = T[i - 1].s
        if name is None:
            raise Lost("gen_labels: insert")
        for i in range(f.ibody, f.iend):
            if T[i].s == "format" and T[i + 1].s == "!" and T[i + 2].s == "(":
                j = match_close(T, i + 2)
                ps = split_top(T, i + 3, j)
                ps = [(a, b) for a, b in ps if a < b]
                if len(ps) != 3 or T[ps[0][0]].s != '"{}_{}"':
                    raise Lost("gen_labels: format!")
                f.rep(T[i].a, T[i + 2].b, "vx_format(")
                f.rep(T[ps[0][0]].a, T[ps[1][0]].a, "")
                f.ins(T[ps[1][1] - 1].b, ', "_"')
        f.replace("Uuid::new_v4()", "Uuid::vx_new(Ghost(%s@))" % name)
        f.replace("replace", "vx_replace")
        f.body_start('    proof { reveal_strlit("%"); reveal_strlit("-"); reveal_strlit("_"); reveal_strlit(""); assert("_"@ =~= seq![\'_\']); }')
        f.loop(0, "it", """        invariant it.seq().len() == statements@.len(), labelled(statements@, it.index() as int, %s@), !label_twice(statements@.take(it.index() as int)),
            "%%"@ == seq!['%%'], "-"@ == seq!['-'], "_"@ == seq!['_'], ""@.len() == 0,
""" % name, start="proof { label_step(statements@, it.index() as int, %s@); }" % name, after="proof { assert(statements@.take(statements@.len() as int) =~= statements@); }")
        u.rewrites.append("gen_labels: format! with two pieces, Uuid::new_v4 and str::replace are calls of functions with contracts")
    u.fn(f, "src/asm.rs: gen_labels", mode=mode,
         ens=["match r { Ok(m) => labelled(statements@, statements@.len() as int, m@), Err(x) => label_twice(statements@) && x is DuplicateLabel }"])


LABEL_LEMMAS = """
proof fn label_step(b: Seq<MacroStatement>, n: int, m: Labels)
    requires 0 <= n < b.len(), labelled(b, n, m), !label_twice(b.take(n)),
    ensures !(b[n] is MacroLabel) ==> labelled(b, n + 1, m) && !label_twice(b.take(n + 1)),
        b[n] is MacroLabel && !m.dom().contains(label_name(b[n])) ==> !label_twice(b.take(n + 1)),
        b[n] is MacroLabel && m.dom().contains(label_name(b[n])) ==> label_twice(b),
        b[n] is MacroLabel && !m.dom().contains(label_name(b[n])) ==> forall|v: String| label_of(label_name(b[n]), v@)
            && (forall|k: Seq<char>| m.dom().contains(k) ==> #[trigger] m[k]@ != v@) ==> labelled(b, n + 1, #[trigger] m.insert(label_name(b[n]), v)),
{
    let t = b.take(n + 1);
    let s = b.take(n);
    if !(b[n] is MacroLabel) || !m.dom().contains(label_name(b[n])) {
        if label_twice(t) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < t.len() && t[i] is MacroLabel && #[trigger] names_label(t[j], #[trigger] label_name(t[i]));
            if j < n { assert(s[i] == t[i] && s[j] == t[j]); assert(names_label(s[j], label_name(s[i]))); }
            else { assert(b[i] is MacroLabel); assert(m.dom().contains(label_name(b[i]))); }
        }
    } else {
        let i = choose|i: int| 0 <= i < n && names_label(#[trigger] b[i], label_name(b[n]));
        assert(names_label(b[n], label_name(b[i])));
    }
    if !(b[n] is MacroLabel) {
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < n + 1 && names_label(#[trigger] b[i], k) by {
            let i = choose|i: int| 0 <= i < n && names_label(#[trigger] b[i], k);
            assert(names_label(b[i], k));
        }
    } else if !m.dom().contains(label_name(b[n])) {
        let k0 = label_name(b[n]);
        assert forall|v: String| label_of(k0, v@) && (forall|k: Seq<char>| m.dom().contains(k) ==> #[trigger] m[k]@ != v@)
            implies labelled(b, n + 1, #[trigger] m.insert(k0, v)) by {
            let q = m.insert(k0, v);
            assert forall|k: Seq<char>| #[trigger] q.dom().contains(k) implies label_of(k, q[k]@) && exists|i: int| 0 <= i < n + 1 && names_label(#[trigger] b[i], k) by {
                if k == k0 { assert(names_label(b[n], k)); } else {
                    assert(m.dom().contains(k));
                    let i = choose|i: int| 0 <= i < n && names_label(#[trigger] b[i], k);
                    assert(names_label(b[i], k));
                }
            }
        }
    }
}
"""


def build_expand(srcs, gen):
    u = Unit("macros_expand")
    types(u, srcs)
    u.raw(UUID, "assumed")
    u.assumed.append("a new UUID does not occur at the end of a text made before; str::replace of a character by nothing; format! joins its pieces")
    u.lemmas(LABEL_LEMMAS)
    u.lemmas(expand_lemmas())
    a, b = srcs["src/ast.rs"], srcs["src/asm.rs"]
    for t, n, e in (("MacroIdentifier", "new", "r == (MacroIdentifier { name, arity })"), ("MacroDefinition", "args", "r@ == self.args@"),
                    ("MacroDefinition", "body", "r@ == self.body@"), ("MacroDefinition", "span", "*r == self.span"),
                    ("Statements", "macro_def", "r is Some == self.macros@.dom().contains(name.kv()), r is Some ==> *r->0 == self.macros@[name.kv()]"),
                    ("Statements", "new", "r.macros@ == macros@, r.statements@ == statements@"),
                    ("Statements", "with_statements", "r.macros@ == self.macros@, r.statements@ == stmts@")):
        u.fn(Fn(a.find("impl " + t, "fn " + n).text), "src/ast.rs: %s::%s" % (t, n), impl="impl " + t, ens=[e])
    gen_labels(u, srcs)
    c_replace_args(u, srcs, "assume")
    c_expand(u, srcs)
    c_expand_macros(u, srcs)
    return u


CHUNK = """proof {
            let c = %s@.skip(vx_s0.len() as int);
            assert forall|o: Seq<Statement>| #[trigger] (vx_s0 + o) == %s@ implies o == c by { assert(o =~= c); }
            assert(%s@ =~= vx_s0 + c);
            vx_cs = vx_c0.push(c);
            joined_push(vx_c0, c);
        }"""


def c_expand(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn expand").text)
    d, act = "stmts.macros@", "keys_of(old(active)@)"
    k = "key(name@, args@.len() as int)"
    if mode == "verify":
        asm.index_by_key(u, f, "labels")
        f.replace("active.contains", "active.vx_contains")
        pair_clone(u, f)
        f.body_start("    let ghost vx_d = %s; let ghost vx_k = %s; let ghost vx_a = %s; let ghost mut vx_cs: Seq<Seq<Statement>> = seq![];" % (d, k, act))
        f.loop(0, None, "        invariant args@.len() == arg_defs@.len(), bound(arg_defs@, idx as int, args@, argmap@),\n",
               start="proof { bound_step(arg_defs@, idx as int, args@, argmap@); }")
        f.loop(1, "it", """        invariant it.seq().len() == macrodef.body@.len(), statements@ == joined(vx_cs),
            body_becomes(vx_d, labels@, argmap@, vx_a.push(vx_k), macrodef.body@, it.index() as int, vx_cs, left(vx_d, vx_a)),
            keys_of(active@) == vx_a.push(vx_k), vx_d == stmts.macros@, vx_d[vx_k] == *macrodef, vx_d.dom().contains(vx_k), !vx_a.contains(vx_k),
            calls(vx_d, vx_a), vx_k == key(name@, args@.len() as int), vx_a == keys_of(old(active)@), labelled(macrodef.body@, macrodef.body@.len() as int, labels@),
            bound(macrodef.args@, args@.len() as int, args@, argmap@),
""", start="broadcast use a_conversion; let ghost vx_s0 = statements@; let ghost vx_c0 = vx_cs; "
                     "proof { depth(vx_d, vx_a, vx_k); stuck_call(vx_d, name@, args@, vx_a, labels@, argmap@, it.index() as int, left(vx_d, vx_a)); }",
               end=CHUNK % ("statements", "statements", "statements"),
               before="proof { assert(keys_of(active@) =~= vx_a.push(vx_k)); assert(statements@ =~= joined(vx_cs)); }",
               after="proof { assert(keys_of(active@.drop_last()) =~= keys_of(active@).drop_last()); assert(keys_of(active@.drop_last()) =~= vx_a); assert(makes(vx_cs, statements@)); }")
    u.fn(f, "src/asm.rs: expand", mode=mode,
         req=["calls(%s, %s)" % (d, act)],
         dec="left(%s, %s)" % (d, act),
         ens=["match r {{ Ok(v) => expanded({0}, name@, args@, {1}, v@, left({0}, {1})) && keys_of(final(active)@) == {1}, "
              "Err(x) => unexpanded({0}, name@, args@, {1}, x, left({0}, {1})) }}".format(d, act)])


def pair_clone(u, f):
    """`let (a, b) = e.clone();` is written `let (a, b) = vx_pair(&e);`."""
    T = f.toks
    for i in range(f.ibody, f.iend - 8):
        if T[i].s == "let" and T[i + 1].s == "(" and [t.s for t in T[match_close(T, i + 1) + 1:][:1]] == ["="] and T[i + 3].s == ",":
            e = match_close(T, i + 1) + 2
            j = e
            while T[j].s != ";":
                j = match_close(T, j) + 1 if T[j].s in "([{" else j + 1
            if [t.s for t in T[j - 4:j]] == [".", "clone", "(", ")"]:
                f.ins(T[e].a, "vx_pair(&")
                f.rep(T[j - 4].a, T[j - 1].b, ")")
                u.rewrites.append("%s: clone of a pair is a call of a function with a contract" % f.name)


def c_expand_macros(u, srcs):
    f = Fn(srcs["src/asm.rs"].find("fn expand_macros").text)
    asm.statements_iter(f, srcs)
    f.loop(0, "it", "        invariant it.seq().len() == statements.statements@.len(), new@ == joined(vx_cs), program(statements.macros@, statements.statements@, it.index() as int, vx_cs),\n",
           start="let ghost vx_s0 = new@; let ghost vx_c0 = vx_cs; proof { unstands_at(statements.macros@, statements.statements@, it.index() as int); }", end=CHUNK % ("new", "new", "new"),
           before="proof { assert(new@ =~= joined(vx_cs)); }")
    f.body_start("    let ghost mut vx_cs: Seq<Seq<Statement>> = seq![];")
    u.fn(f, "src/asm.rs: expand_macros",
         ens=["match r { Ok(v) => v.macros@ == statements.macros@ && exists|cs: Seq<Seq<Statement>>| #[trigger] program(statements.macros@, statements.statements@, statements.statements@.len() as int, cs) && v.statements@ == joined(cs), "
              "Err(x) => unprogram(statements.macros@, statements.statements@, x) }"])


def build_put(srcs, gen):
    u = Unit("macros_put")
    types(u, srcs)
    u.lemmas(expand_lemmas())
    u.lemmas(PUT_FACTS)
    c_put(u, srcs)
    u.lemmas(ARG_FACTS)
    c_replace_args(u, srcs)
    return u


ARG_FACTS = """
broadcast proof fn b_same_arg(a: Arg)
    ensures #[trigger] same_arg(a, a),
{ match a { Arg::Imm(x) => same_self(x), Arg::Ex(x) => same_self(x), _ => {} } }
proof fn stuck_at(a: Seq<Arg>, i: int, labels: Labels, args: Args)
    requires 0 <= i < a.len(),
    ensures forall|x: AssemblyError| awrong(x) is Some && unput_arg(a[i], labels, args, awrong(x)->0) ==> #[trigger] arg_stuck(a, labels, args, x),
{}
broadcast group arg_facts { b_same_arg }
"""


def c_replace_args(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn replace_args").text)
    if mode == "verify":
        f.loop(0, "it", "        invariant it.seq().len() == args@.len(), new_args@.len() == it.index(), "
                        "forall|i: int| 0 <= i < new_args@.len() ==> put_arg(args@[i], labels@, argmap@, #[trigger] new_args@[i]),\n",
               start="broadcast use {a_conversion, arg_facts};\nproof { stuck_at(args@, it.index() as int, labels@, argmap@); }")
    u.fn(f, "src/asm.rs: replace_args", mode=mode,
         ens=["match r { Ok(v) => put_args(args@, labels@, argmap@, v@), Err(x) => arg_stuck(args@, labels@, argmap@, x) }"])
