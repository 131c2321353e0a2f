"""What Display for Statement writes is read as the same statement (C18): lemmas over the contracts of printing (stmts.py) and of reading (reading.py)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import forms  # noqa: E402
import isatab  # noqa: E402
import reading  # noqa: E402
from vunit import Unit  # noqa: E402

I = "Instr<Expr, IndirectionMode>"


def pat(f, v):
    n = len(isatab.FORMS[f][0])
    return "Instr::%s%s" % (f, "(%s)" % ", ".join("%s%d" % (v, k) if v != "_" else "_" for k in range(n)) if n else "")


def words():
    """The mnemonics are different words."""
    ms = list(forms.mnemonics())
    out = []
    for k, m in enumerate(ms):
        ds = []
        for w in ms[:k]:
            if len(w) != len(m):
                ds.append("assert(\"%s\"@.len() != \"%s\"@.len());" % (m, w))
            else:
                j = next(j for j in range(len(m)) if m[j] != w[j])
                ds.append("assert(\"%s\"@[%d] != \"%s\"@[%d]);" % (m, j, w, j))
        out.append("proof fn word_%s()\n    ensures word(\"%s\"@) == %d, !begins_dot(\"%s\"@),\n{\n    reveal(word);\n    %s\n    %s\n}" % (
            m, m, k, m, " ".join("reveal_strlit(\"%s\");" % w for w in ms[:k + 1]), " ".join(ds)))
    return "\n".join(out)


def groups():
    ms = forms.mnemonics()
    out = ["pub open spec fn group(i: %s) -> u32 {\n    match i {\n%s\n    }\n}" % (I, "\n".join("        %s => %d," % (pat(f, "_"), k) for k, m in enumerate(ms) for f in ms[m]))]
    num = {f: k for k, f in enumerate(isatab.FORMS)}
    out.append("/// which form of the instruction it is\n#[verifier::opaque]\npub open spec fn form(i: %s) -> int {\n    match i {\n%s\n    }\n}" % (
        I, "\n".join("        %s => %d," % (pat(f, "_"), k) for f, k in num.items())))
    out.append("/// the same instruction, wherever it stands\npub open spec fn same_instr(i: %s, j: %s) -> bool { form(i) == form(j) && operands(i) == operands(j) }" % (I, I))
    show = {"i8": "Imm", "ri": "Ind"}
    for k, m in enumerate(ms):
        out.append("/// the form is told from the operands\nproof fn same_%s(i: %s)\n    requires group(i) == %d,\n    ensures form(i) == ({ let v = operands(i); %s { -1 } }),\n{\n    reveal(form); reveal(operands);\n}" % (
            m, I, k, " ".join("if v.len() == %d%s { %d } else" % (len(isatab.FORMS[f][0]), "".join(" && v[%d] is %s" % (q, show.get(x, "Ex")) for q, x in enumerate(isatab.FORMS[f][0])), num[f]) for f in ms[m])))
        out.append("proof fn fit_%s(i: %s, a: Seq<Arg>)\n    requires group(i) == %d, args_v(a) == operands(i), args_ok(a), no_args(operands(i)),\n    ensures fits_%s(a),\n{\n    reveal(fits_%s); reveal(operands);\n"
                   "    assert(args_v(a).len() == a.len());\n    %s\n}" % (m, I, k, m, m, "\n    ".join(
                       "if a.len() > %d { assert(args_v(a)[%d] == arg_v(a[%d])); assert(no_arg(operands(i)[%d])); }" % (q, q, q, q) for q in range(max(len(isatab.FORMS[f][0]) for f in ms[m])))))
    n = len(ms)
    out.append("proof fn grouped(i: %s)\n    ensures group(i) < %d, word(mnemonic(i)) == group(i), !begins_dot(mnemonic(i)),\n{\n    reveal(mnemonic);\n%s\n}" % (
        I, n, "\n".join("    if group(i) == %d { word_%s(); assert(mnemonic(i) == \"%s\"@); }" % (k, m, m) for k, m in enumerate(ms))))
    out.append("proof fn undotted(n: Seq<char>)\n    requires known(word(n)),\n    ensures !begins_dot(n),\n{\n    reveal(known);\n%s\n}" % (
        "\n".join("    if word(n) == %d { assert(n == \"%s\"@) by { reveal(word); } word_%s(); }" % (k, m, m) for k, m in enumerate(ms))))
    out.append("proof fn same_any(i: %s, j: %s)\n    requires group(i) == group(j), operands(i) == operands(j),\n    ensures same_instr(i, j),\n{\n    grouped(i);\n%s\n}" % (
        I, I, "\n".join("    if group(i) == %d { same_%s(i); same_%s(j); }" % (k, m, m) for k, m in enumerate(ms))))
    out.append("proof fn fit_any(i: %s, a: Seq<Arg>)\n    requires args_v(a) == operands(i), args_ok(a), no_args(operands(i)),\n    ensures fits(word(mnemonic(i)), a),\n{\n    grouped(i);\n    reveal(fits);\n%s\n}" % (
        I, "\n".join("    if group(i) == %d { fit_%s(i, a); }" % (k, m) for k, m in enumerate(ms))))
    return "\n".join(out)


ARGS = """
/// no parameter of a macro is left
pub open spec fn no_arg(v: V) -> bool { match v { V::Ex(t) => !(t is Arg), _ => true } }
pub open spec fn no_args(vs: Seq<V>) -> bool { forall|i: int| 0 <= i < vs.len() ==> no_arg(#[trigger] vs[i]) }
"""

SPEC = """
/// the values of which a list of this kind can consist
pub open spec fn of_kind(kd: int, v: V) -> bool {
    match v { V::Ex(_) => 0 <= kd <= 2, V::Imm(_) => kd == 1, V::Ind(_) => kd == 1, V::Str(_) => kd == 2, _ => false }
}
pub open spec fn all_kind(kd: int, vs: Seq<V>) -> bool { forall|i: int| 0 <= i < vs.len() ==> of_kind(kd, #[trigger] vs[i]) }
/// a statement of an expanded program
pub open spec fn readable(s: Statement) -> bool {
    fine_stmt(s) && match s {
        Statement::Variable(_, n, _) => !dir_name(n@) && n@ != ".include"@,
        Statement::Alias(_, n, _) => !dir_name(n@) && n@ != ".include"@,
        Statement::Instr(_, i) => no_args(operands(i)),
        Statement::Comment(_) => false,
        _ => true,
    }
}
/// the same statement, wherever it stands
pub open spec fn same_stmt(a: Statement, b: Statement) -> bool {
    match (a, b) {
        (Statement::Directive(d), Statement::Directive(e)) => dir_head(d) == dir_head(e) && dir_vals(d) == dir_vals(e),
        (Statement::Label(_, n), Statement::Label(_, m)) => n@ == m@,
        (Statement::Instr(_, i), Statement::Instr(_, j)) => same_instr(i, j),
        (Statement::Variable(_, n, e), Statement::Variable(_, m, f)) => n@ == m@ && tree(e) == tree(f),
        (Statement::Alias(_, n, e), Statement::Alias(_, m, f)) => n@ == m@ && tree(e) == tree(f),
        _ => false,
    }
}
/// where an expression begins
pub open spec fn begins(k: K) -> bool { k == K::LeftParen || prefixes(k) || atom(k) is Some }
"""

LEMMAS = """
proof fn begin(ts: Seq<K>, q: int, t: T)
    requires derives(ts, q, t),
    ensures ts.len() > 0, begins(ts[0]),
    decreases ts.len(),
{
    if ts.len() == 1 && atom(ts[0]) == Some(t) {
    } else if ts.len() > 2 && ts[0] == K::LeftParen && ts.last() == K::RightParen && derives(ts.subrange(1, ts.len() - 1), 0, t) {
    } else {
        match t {
            T::Bin(k, l, r) => {
                let m = choose|m: int| #[trigger] cut(ts, m) && ts[m] == k && derives(ts.take(m), prec(k) - 1, *l) && derives(ts.skip(m + 1), prec(k), *r);
                begin(ts.take(m), prec(k) - 1, *l);
            }
            _ => {}
        }
    }
}
/// an expression up to a comma or to the end of the line
proof fn expr_back(s: Seq<K>, p: int, e: int, t: T)
    requires 0 <= p, e == s.len() || (e < s.len() && s[e] == K::Comma), p <= e, derives(s.subrange(p, e), 0, t),
    ensures p < e, reads(s, 0, p) == Some((t, e)), begins(s[p]),
{
    begin(s.subrange(p, e), 0, t);
    assert(s.subrange(p, e)[0] == s[p]);
    assert(expression(s, 0, p, t, e));
    unique(s, 0, p);
}
proof fn item_back(kd: int, s: Seq<K>, p: int, e: int, v: V)
    requires 0 <= p <= e, e == s.len() || (e < s.len() && s[e] == K::Comma), val(s.subrange(p, e), v), of_kind(kd, v),
    ensures p < e, item(kd, s, p) == Some((v, e)), s[p] != K::Colon && s[p] != K::Equals,
{
    let x = s.subrange(p, e);
    match v {
        V::Ex(t) => { expr_back(s, p, e, t); }
        V::Imm(t) => {
            assert(x[0] == s[p]);
            assert(x.skip(1) =~= s.subrange(p + 1, e));
            expr_back(s, p + 1, e, t);
        }
        V::Ind(m) => { assert(x[0] == reg(m)); assert(x.len() == 1); assert(x[0] == s[p]); }
        V::Str(b) => { assert(x[0] == s[p]); }
        _ => {}
    }
}
proof fn list_back(kd: int, s: Seq<K>, p: int, e: int, vs: Seq<V>)
    requires 0 <= p <= e, e == s.len() || (e < s.len() && s[e] == K::Comma), vals(s.subrange(p, e), vs), all_kind(kd, vs), vs.len() > 0,
    ensures p < e, list(kd, s, p) == rest(kd, s, e, vs), s[p] != K::Colon && s[p] != K::Equals,
    decreases vs.len(),
{
    let x = s.subrange(p, e);
    if vs.len() == 1 {
        item_back(kd, s, p, e, vs[0]);
        assert(vs =~= seq![vs[0]]);
    } else {
        let m = choose|m: int| #[trigger] cut(x, m) && x[m] == K::Comma && vals(x.take(m), vs.drop_last()) && val(x.skip(m + 1), vs.last());
        assert(x.take(m) =~= s.subrange(p, p + m));
        assert(x.skip(m + 1) =~= s.subrange(p + m + 1, e));
        assert(s[p + m] == K::Comma);
        assert forall|i: int| 0 <= i < vs.drop_last().len() implies of_kind(kd, #[trigger] vs.drop_last()[i]) by { assert(of_kind(kd, vs[i])); }
        list_back(kd, s, p, p + m, vs.drop_last());
        assert(of_kind(kd, vs[vs.len() - 1]));
        item_back(kd, s, p + m + 1, e, vs.last());
        assert(vs.drop_last().push(vs.last()) =~= vs);
    }
}
/// the values after the first word
proof fn values_back(kd: int, ts: Seq<K>, n: K, vs: Seq<V>)
    requires line(ts, seq![n], vs), all_kind(kd, vs),
    ensures ts.len() > 0, ts[0] == n, list(kd, ts, 1) == Some(vs), ts.len() > 1 ==> ts[1] != K::Colon && ts[1] != K::Equals, vs.len() > 0 ==> ts.len() > 1,
{
    assert(ts.take(1)[0] == ts[0]);
    if vs.len() > 0 {
        assert(ts.skip(1) =~= ts.subrange(1, ts.len() as int));
        list_back(kd, ts, 1, ts.len() as int, vs);
    } else { assert(vs =~= Seq::empty()); assert(ts.skip(1).len() == ts.len() - 1); }
}
proof fn one(ts: Seq<K>, h: Seq<K>, v: V)
    requires line(ts, h, seq![v]),
    ensures val(ts.skip(h.len() as int), v), forall|i: int| 0 <= i < h.len() ==> #[trigger] ts[i] == h[i],
{ assert forall|i: int| 0 <= i < h.len() implies #[trigger] ts[i] == h[i] by { assert(ts.take(h.len() as int)[i] == ts[i]); } }
proof fn is_kind(s: Statement)
    ensures match s {
        Statement::Directive(Directive::Byte(_, v)) => all_kind(2, byte_vals(v@)) && byte_vals(v@).len() == v@.len(),
        Statement::Directive(Directive::Word(_, v)) => all_kind(0, word_vals(v@)) && word_vals(v@).len() == v@.len(),
        Statement::Instr(_, i) => all_kind(1, operands(i)),
        _ => true,
    },
{ reveal(operands); }
/// C18: the line that is written for a directive is read as it
proof fn dir_back(ts: Seq<K>, d: Directive)
    requires fine_dir(d), line(ts, dir_head(d), dir_vals(d)),
    ensures ts.len() > 1, ts[0] == dir_head(d)[0], dir_head(d)[0] is Name, dir_name(ts[0]->Name_0), ts[1] != K::Colon,
        dir_at(ts[0]->Name_0, ts, 0) == Some((dir_head(d), dir_vals(d), ts.len() as int)),
{
    reveal(dir_at);
    words_dot();
    is_kind(Statement::Directive(d));
    let n = dir_head(d)[0]->Name_0;
    match d {
        Directive::Byte(_, v) => { values_back(2, ts, K::Name(n), dir_vals(d)); }
        Directive::Word(_, v) => { values_back(0, ts, K::Name(n), dir_vals(d)); }
        Directive::Org(_, x) => { one(ts, dir_head(d), V::Num(x as int)); assert(ts.skip(1)[0] == ts[1]); }
        Directive::Text(_, x, b) => { one(ts, dir_head(d), V::Sized(x as int, b@)); assert(ts.skip(1)[0] == ts[1] && ts.skip(1)[1] == ts[2]); }
        Directive::String(_, x, b) => { one(ts, dir_head(d), V::Sized(x as int, b@)); assert(ts.skip(1)[0] == ts[1] && ts.skip(1)[1] == ts[2]); }
        Directive::Cnop(_, a, b) => {
            let vs = dir_vals(d);
            let x = ts.skip(1);
            assert(ts.take(1)[0] == ts[0]);
            let m = choose|m: int| #[trigger] cut(x, m) && x[m] == K::Comma && vals(x.take(m), vs.drop_last()) && val(x.skip(m + 1), vs.last());
            assert(vs.drop_last() =~= seq![V::Ex(tree(a))]);
            assert(x.take(m) =~= ts.subrange(1, m + 1));
            assert(x.skip(m + 1) =~= ts.subrange(m + 2, ts.len() as int));
            assert(ts[m + 1] == K::Comma);
            assert(val(x.take(m), vs.drop_last()[0]));
            expr_back(ts, 1, m + 1, tree(a));
            expr_back(ts, m + 2, ts.len() as int, tree(b));
        }
        _ => {}
    }
}
/// C18: the line that is written for a statement is read as it
proof fn stmt_back(ts: Seq<K>, a: Statement)
    requires readable(a), line(ts, head(a), values(a)), a is Instr && ts.len() > 1 ==> ts[1] != K::Name("equ"@),
    ensures ts.len() > 0, stmt(ts, 0) == Some((head(a), values(a), ts.len() as int)), !include_at(ts, 0),
{
    reveal(stmt);
    reveal(instr_at);
    words_dot();
    is_kind(a);
    match a {
        Statement::Directive(d) => { dir_back(ts, d); }
        Statement::Label(_, n) => {
            assert(ts.skip(2).len() == 0);
            assert(ts.take(2)[0] == ts[0] && ts.take(2)[1] == ts[1]);
            assert(head(a) =~= seq![K::Name(n@), K::Colon]);
        }
        Statement::Instr(_, i) => { grouped(i); values_back(1, ts, K::Name(mnemonic(i)), operands(i)); }
        Statement::Variable(_, n, e) => {
            one(ts, head(a), V::Ex(tree(e)));
            assert(ts[0] == head(a)[0] && ts[1] == head(a)[1]);
            assert(ts.skip(2) =~= ts.subrange(2, ts.len() as int));
            expr_back(ts, 2, ts.len() as int, tree(e));
            assert(head(a) =~= seq![K::Name(n@), ts[1]]);
        }
        Statement::Alias(_, n, e) => {
            one(ts, head(a), V::Ex(tree(e)));
            assert(ts[0] == head(a)[0] && ts[1] == head(a)[1]);
            assert(ts.skip(2) =~= ts.subrange(2, ts.len() as int));
            expr_back(ts, 2, ts.len() as int, tree(e));
            assert(head(a) =~= seq![K::Name(n@), ts[1]]);
        }
        _ => {}
    }
}
/// C18: there is one form of the instruction for what is written, so it is not rejected
proof fn no_misfit(ts: Seq<K>, a: Statement)
    requires readable(a), line(ts, head(a), values(a)), a is Instr && ts.len() > 1 ==> ts[1] != K::Name("equ"@),
    ensures line_of(ts) == Some(seq![Stmt { head: head(a), values: values(a) }]), !line_misfits(ts),
{
    stmt_back(ts, a);
    reveal(misfit);
    reveal(known);
    let (h, vs) = (head(a), values(a));
    match a {
        Statement::Instr(_, i) => {
            assert(h[0]->Name_0 == mnemonic(i));
            assert forall|x: Seq<Arg>| #[trigger] args_v(x) == vs && args_ok(x) implies fits(word(h[0]->Name_0), x) by { fit_any(i, x); }
        }
        Statement::Directive(d) => { dir_back(ts, d); words_dot(); if known(word(h[0]->Name_0)) { undotted(h[0]->Name_0); } }
        _ => { assert(h.len() == 2); }
    }
    assert(!misfit(h, vs));
}
/// C18: one statement is told in these words
proof fn told_once(ts: Seq<K>, a: Statement, b: Statement)
    requires readable(a), line(ts, head(a), values(a)), is_said(b, Stmt { head: head(a), values: values(a) }),
    ensures same_stmt(a, b),
{
    let (h, vs) = (head(a), values(a));
    reveal(known);
    match a {
        Statement::Directive(d) => {
            dir_back(ts, d);
            words_dot();
            match b {
                Statement::Instr(_, j) => { grouped(j); assert(first(b)[0] == h[0]); }
                Statement::MacroCall(_, n, _) => { assert(first(b)[0] == h[0]); }
                Statement::Directive(_) => {}
                _ => { assert(first(b).len() != h.len()); }
            }
        }
        Statement::Instr(_, i) => {
            grouped(i);
            match b {
                Statement::Instr(_, j) => { grouped(j); assert(first(b)[0] == h[0]); same_any(i, j); }
                Statement::MacroCall(_, n, _) => { assert(first(b)[0] == h[0]); }
                Statement::Directive(e) => { words_dot(); assert(first(b)[0] == h[0]); }
                _ => { assert(first(b).len() != h.len()); }
            }
        }
        _ => {
            assert(first(b).len() == 2);
            assert(first(b)[0] == h[0] && first(b)[1] == h[1]);
            if !(a is Label) { assert(then(b)[0] == vs[0]); }
        }
    }
}
/// C18: whatever parse_line makes of the line that is written for a statement, it is that statement, and it does not fail
proof fn read_again(ts: Seq<K>, a: Statement, r: Seq<Statement>)
    requires readable(a), line(ts, head(a), values(a)), a is Instr && ts.len() > 1 ==> ts[1] != K::Name("equ"@),
        line_of(ts) is Some ==> told(r, line_of(ts)->0),
    ensures !include_at(ts, 0), !line_misfits(ts), r.len() == 1, same_stmt(a, r[0]),
{
    stmt_back(ts, a);
    no_misfit(ts, a);
    told_once(ts, a, r[0]);
}
/// there are such lines
proof fn possible(sp: Span)
    ensures line(seq![K::Name("nop"@)], head(Statement::Instr(sp, Instr::Nop)), values(Statement::Instr(sp, Instr::Nop))), readable(Statement::Instr(sp, Instr::Nop)),
{
    reveal(mnemonic); reveal(operands); reveal(fine_instr);
    let ts = seq![K::Name("nop"@)];
    assert(ts.take(1) =~= ts);
    assert(ts.skip(1).len() == 0);
}
/// C18: what is written for a comment is nothing
proof fn nothing(r: Seq<Statement>)
    requires line_of(Seq::empty()) is Some ==> told(r, line_of(Seq::empty())->0),
    ensures !line_misfits(Seq::empty()), r.len() == 0,
{ reveal(stmt); }
"""


def build(srcs, gen):
    u = Unit("again")
    reading.types(u, srcs)
    u.lemmas(words())
    u.raw(ARGS)
    u.lemmas(groups())
    u.raw(SPEC)
    u.lemmas(LEMMAS)
    return u
