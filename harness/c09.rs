//! C09: programs with macros against the same programs expanded by hand, both through the real assembler.
use crate::vh_core::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum X {
    Num(i64),
    Name(String),
    Par(String),
    Lab(String),
    Un(char, Box<X>),
    Bin(char, Box<X>, Box<X>),
}
#[derive(Clone, Debug)]
enum A {
    Imm(X),
    Ex(X),
    Ind(usize),
    Par(String),
}
#[derive(Clone, Debug)]
enum B {
    Line(String, Vec<A>),
    Glob(String),
    Loc(String),
}
#[derive(Clone, Debug)]
struct Def {
    name: String,
    params: Vec<String>,
    body: Vec<B>,
}
/// the text is rejected, and why
type R<T> = Result<T, &'static str>;

fn x_text(x: &X, top: bool) -> String {
    match x {
        X::Num(n) => n.to_string(),
        X::Name(s) | X::Par(s) | X::Lab(s) => s.clone(),
        X::Un(c, a) => {
            let t = format!("{}{}", c, x_text(a, false));
            if top {
                t
            } else {
                format!("({})", t)
            }
        }
        X::Bin(c, a, b) => {
            let t = format!("{} {} {}", x_text(a, false), c, x_text(b, false));
            if top {
                t
            } else {
                format!("({})", t)
            }
        }
    }
}

fn a_text(a: &A) -> String {
    match a {
        A::Imm(x) => format!("#{}", x_text(x, false)),
        A::Ex(x) => x_text(x, true),
        A::Ind(n) => format!("@r{}", n),
        A::Par(s) => s.clone(),
    }
}

fn line(name: &str, args: &[A]) -> String {
    let v: Vec<String> = args.iter().map(a_text).collect();
    format!("    {} {}\n", name, v.join(", "))
}

fn put(x: &X, labels: &HashMap<String, String>, args: &HashMap<String, A>) -> R<X> {
    Ok(match x {
        X::Num(_) | X::Name(_) => x.clone(),
        X::Lab(s) => X::Name(labels.get(s).ok_or("no such macro label")?.clone()),
        X::Par(s) => match args.get(s).ok_or("unknown parameter")? {
            A::Ex(e) => plain(e)?,
            A::Imm(_) => return Err("immediate value in an expression"),
            A::Ind(_) => return Err("indirection mode in an expression"),
            A::Par(_) => return Err("parameter outside of a macro"),
        },
        X::Un(c, a) => X::Un(*c, Box::new(put(a, labels, args)?)),
        X::Bin(c, a, b) => X::Bin(*c, Box::new(put(a, labels, args)?), Box::new(put(b, labels, args)?)),
    })
}

fn plain(x: &X) -> R<X> {
    put(x, &HashMap::new(), &HashMap::new())
}

fn put_arg(a: &A, labels: &HashMap<String, String>, args: &HashMap<String, A>) -> R<A> {
    Ok(match a {
        A::Ind(_) => a.clone(),
        A::Imm(x) => A::Imm(put(x, labels, args)?),
        A::Ex(x) => A::Ex(put(x, labels, args)?),
        A::Par(s) => args.get(s).ok_or("unknown parameter")?.clone(),
    })
}

struct Expander<'a> {
    defs: &'a [Def],
    fresh: usize,
    out: String,
    size: usize,
}

impl<'a> Expander<'a> {
    fn def(&self, name: &str, n: usize) -> Option<&'a Def> {
        self.defs.iter().find(|d| d.name.eq_ignore_ascii_case(name) && d.params.len() == n)
    }
    fn call(&mut self, d: &'a Def, args: &[A], active: &mut Vec<(String, usize)>) -> R<()> {
        let id = (d.name.to_lowercase(), args.len());
        if active.contains(&id) {
            return Err("recursive macro");
        }
        self.fresh += 1;
        let map: HashMap<String, A> = d.params.iter().map(|p| p.to_lowercase()).zip(args.iter().cloned()).collect();
        let mut labels = HashMap::new();
        for b in d.body.iter() {
            if let B::Loc(l) = b {
                let name = format!("{}_vh{}", l.to_lowercase().replace('%', ""), self.fresh);
                if labels.insert(l.to_lowercase(), name).is_some() {
                    return Err("macro label twice");
                }
            }
        }
        active.push(id);
        for b in d.body.iter() {
            self.size += 1;
            match b {
                B::Glob(l) => self.out.push_str(&format!("{}:\n", l)),
                B::Loc(l) => self.out.push_str(&format!("{}:\n", labels[&l.to_lowercase()])),
                B::Line(n, a) => {
                    let mut na = vec![];
                    for x in a.iter() {
                        na.push(put_arg(x, &labels, &map)?);
                    }
                    match self.def(n, na.len()) {
                        Some(e) => self.call(e, &na, active)?,
                        None => self.out.push_str(&line(n, &na)),
                    }
                }
            }
        }
        active.pop();
        Ok(())
    }
}

fn d_text(d: &Def, upper: bool) -> String {
    let name = if upper { d.name.to_uppercase() } else { d.name.clone() };
    let mut t = format!("%macro {} {}\n", name, d.params.join(", "));
    for b in d.body.iter() {
        match b {
            B::Line(n, a) => t.push_str(&line(n, a)),
            B::Glob(l) => t.push_str(&format!("{}:\n", l)),
            B::Loc(l) if l.starts_with('.') => t.push_str(&format!("{}\n", l)),
            B::Loc(l) => t.push_str(&format!("{}:\n", l)),
        }
    }
    t + "%end\n"
}

fn check(r: &mut Report, what: &str, defs: &[Def], prog: &[B], after: bool) {
    let mut e = Expander { defs, fresh: 0, out: String::new(), size: 0 };
    let mut want: R<()> = Ok(());
    let mut text = String::new();
    for b in prog.iter() {
        match b {
            B::Glob(l) | B::Loc(l) => {
                text.push_str(&format!("{}:\n", l));
                e.out.push_str(&format!("{}:\n", l));
            }
            B::Line(n, a) => {
                text.push_str(&line(n, a));
                match e.def(n, a.len()) {
                    Some(d) => {
                        if want.is_ok() {
                            want = e.call(d, a, &mut vec![]);
                        }
                    }
                    None => e.out.push_str(&line(n, a)),
                }
            }
        }
        if e.size > 400 {
            return;
        }
    }
    let head: String = defs.iter().enumerate().map(|(i, d)| d_text(d, i % 3 == 2)).collect();
    let text = if after { text + &head } else { head + &text };
    let dir = r.dir.clone();
    let got = assemble_text(&dir, &text);
    let want = match want {
        Ok(()) => assemble_text(&dir, &e.out).map_err(|x| (x, "the expanded program is rejected")),
        Err(w) => Err((String::new(), w)),
    };
    r.case(&text, got.is_ok());
    if r.cases % 1000 == 1 {
        r.sample(text.clone());
    }
    let bad = match (&got, &want) {
        (Ok(a), Ok(b)) => a != b,
        (Err(x), Err(_)) => x.starts_with("panic"),
        _ => true,
    };
    if bad {
        let w = match want {
            Ok(b) => format!("as the expanded program: {}", hex(&b)),
            Err((k, w)) => format!("rejected: {} {}", w, k),
        };
        r.fail(what, format!("{}\n; expanded by hand:\n{}", text, e.out), w, show(&got));
    }
}

fn num(n: i64) -> X {
    X::Num(n)
}
fn par(s: &str) -> X {
    X::Par(s.into())
}
fn bin(c: char, a: X, b: X) -> X {
    X::Bin(c, Box::new(a), Box::new(b))
}
fn l(n: &str, a: Vec<A>) -> B {
    B::Line(n.into(), a)
}
fn def(n: &str, p: &[&str], body: Vec<B>) -> Def {
    Def { name: n.into(), params: p.iter().map(|s| s.to_string()).collect(), body }
}

fn fixed(r: &mut Report) {
    let ex = |x: X| A::Ex(x);
    // each parameter by each kind of argument, in each place
    let args: Vec<A> = vec![
        A::Imm(num(5)),
        A::Imm(bin('+', num(1), num(2))),
        ex(num(16)),
        ex(bin('+', num(1), num(2))),
        ex(X::Un('-', Box::new(X::Un('-', Box::new(num(4)))))),
        ex(X::Name("v".into())),
        A::Ind(0),
        A::Ind(3),
        A::Par("%q".into()),
        ex(X::Lab("lab%".into())),
        A::Imm(par("%q")),
        ex(bin('*', par("%q"), num(2))),
    ];
    let uses: Vec<Vec<A>> = vec![
        vec![A::Par("%x".into())],
        vec![A::Imm(par("%x"))],
        vec![ex(bin('*', par("%x"), num(3)))],
        vec![ex(bin('-', num(100), par("%x")))],
        vec![ex(X::Un('<', Box::new(par("%x"))))],
        vec![ex(X::Un('-', Box::new(par("%x"))))],
        vec![A::Imm(bin('-', par("%x"), par("%x")))],
        vec![A::Par("%y".into())],
        vec![A::Imm(par("%y"))],
        vec![ex(X::Lab("lab%".into()))],
    ];
    for a in args.iter() {
        for u in uses.iter() {
            for op in ["add", "st", "br", "inner"] {
                let d = [
                    def("outer", &["%x"], vec![l("nop", vec![]), l(op, u.clone()), l("nop", vec![])]),
                    def("inner", &["%y"], vec![B::Loc(".here%".into()), l("ld", vec![A::Par("%y".into())]), l("br", vec![ex(X::Lab(".here%".into()))])]),
                ];
                let p = [B::Glob("v".into()), l("outer", vec![a.clone()]), l("nop", vec![])];
                check(r, "argument", &d, &p, false);
                // the same parameter name further in
                let d = [
                    def("outer", &["%x"], vec![l("inner", vec![u[0].clone(), A::Imm(num(9))]), l("nop", vec![])]),
                    def("inner", &["%q", "%x"], vec![l("add", vec![A::Par("%x".into())]), l(if op == "inner" { "sub" } else { op }, vec![A::Par("%q".into())])]),
                ];
                check(r, "same parameter name further in", &d, &p, true);
                if r.stop() {
                    return;
                }
            }
        }
    }
    // an argument that names a parameter of the macro it is passed to stands for nothing
    for n in ["%x", "%y", "%z"] {
        let odd = [A::Par(n.into()), A::Imm(par(n)), ex(bin('+', par(n), num(1))), A::Imm(X::Un('<', Box::new(par(n)))), ex(X::Lab("lab%".into())), A::Imm(X::Lab("lab%".into()))];
        for o in odd.iter() {
            for other in [A::Imm(num(1)), ex(num(2)), A::Ind(1)] {
                for used in [0usize, 1, 2] {
                    let mut body = vec![B::Loc("lab%".into()), l("nop", vec![])];
                    if used != 1 {
                        body.push(l("add", vec![A::Par("%x".into())]));
                    }
                    if used != 0 {
                        body.push(l("ld", vec![A::Par("%y".into())]));
                    }
                    let d = [def("m", &["%x", "%y"], body)];
                    for (a, b) in [(o.clone(), other.clone()), (other.clone(), o.clone())] {
                        check(r, "parameter in a call", &d, &[l("m", vec![a, b])], false);
                    }
                }
            }
        }
    }
    // parameters in the other order
    for swap in [false, true] {
        for n in 0..4usize {
            let ps = ["%a", "%b", "%c", "%d"];
            let mut body: Vec<B> = (0..n).map(|i| l("mov", vec![A::Imm(par(ps[if swap { n - 1 - i } else { i }])), ex(num(i as i64))])).collect();
            body.push(l("ret", vec![]));
            let d = [def("m", &ps[..n], body), def("m", &["%a", "%b", "%c", "%d", "%e"], vec![l("nop", vec![])])];
            let p: Vec<B> = (0..6).map(|k| l("m", (0..k).map(|i| ex(num(10 + i))).collect())).collect();
            for k in 0..6 {
                check(r, "number of arguments", &d, &p[k..k + 1], false);
            }
        }
    }
    // recursion, directly and through others, by arity
    let par_of = |n: usize| -> Vec<A> { (0..n).map(|i| A::Par(format!("%p{}", (b'a' + i as u8) as char))).collect() };
    for len in 1..5usize {
        for back in 0..=len {
            for arity in [false, true] {
                let name = |i: usize| if arity { "m".to_string() } else { format!("m{}", i) };
                let pars = |i: usize| -> Vec<String> { (0..if arity { i } else { 1 }).map(|k| format!("%p{}", (b'a' + k as u8) as char)).collect() };
                let mut d = vec![];
                for i in 0..len {
                    let next = if i + 1 < len { i + 1 } else { back };
                    let mut body = vec![l("nop", vec![])];
                    if next < len {
                        let k = if arity { next } else { 1 };
                        let a = if arity { (0..k).map(|_| A::Imm(num(1))).collect() } else { par_of(1) };
                        body.push(l(&name(next), a));
                    }
                    let ps = pars(i);
                    d.push(Def { name: name(i), params: ps, body });
                }
                let a = if arity { vec![] } else { vec![A::Imm(num(3))] };
                check(r, "recursion", &d, &[l(&name(0), a)], false);
                if r.stop() {
                    return;
                }
            }
        }
    }
    // a macro used twice, side by side, is no recursion
    let d = [
        def("a", &[], vec![l("b", vec![]), l("b", vec![]), l("c", vec![]), l("b", vec![])]),
        def("b", &[], vec![B::Loc("x%".into()), l("br", vec![ex(X::Lab("x%".into()))]), l("c", vec![])]),
        def("c", &[], vec![l("br", vec![ex(X::Lab("x%".into()))]), B::Loc("x%".into())]),
    ];
    check(r, "twice", &d, &[l("a", vec![]), l("b", vec![]), l("a", vec![])], true);
    // local labels
    for (a, b) in [("x%", "y%"), (".x%", ".y%"), (".x%", "x%"), ("x%", "x%"), (".X%", ".x%"), ("xx%", "x%")] {
        let d = [def(
            "m",
            &["%p"],
            vec![
                l("br", vec![ex(X::Lab(b.into()))]),
                B::Loc(a.into()),
                l("br", vec![A::Par("%p".into())]),
                B::Loc(b.into()),
                l("br", vec![ex(X::Lab(a.into()))]),
            ],
        )];
        for at in [".l", "g"] {
            let p = [
                B::Glob("g".into()),
                l("nop", vec![]),
                B::Glob(".l".into()),
                l("m", vec![ex(X::Name(at.into()))]),
                l("m", vec![ex(X::Name("g".into()))]),
                l("br", vec![ex(X::Name(at.into()))]),
            ];
            check(r, "local labels", &d, &p, false);
        }
    }
    // names that look like generated or parameter names
    let d = [def("m", &["%p"], vec![l("ld", vec![ex(X::Name("p".into()))]), l("ld", vec![A::Par("%p".into())]), B::Loc("p%".into()), l("br", vec![ex(X::Lab("p%".into()))])])];
    check(r, "names", &d, &[B::Glob("p".into()), l("m", vec![ex(X::Name("p".into()))]), l("m", vec![ex(num(300))])], false);
}

/// a program, and what it stands for without macros
fn same(r: &mut Report, what: &str, text: &str, want: R<String>) {
    let dir = r.dir.clone();
    let got = assemble_text(&dir, text);
    let plain = match &want {
        Ok(t) => assemble_text(&dir, t).map_err(|e| format!("the expanded program is rejected {}", e)),
        Err(w) => Err(w.to_string()),
    };
    r.case(text, got.is_ok());
    let bad = match (&got, &plain) {
        (Ok(a), Ok(b)) => a != b,
        (Err(x), Err(_)) => x.starts_with("panic") || want.is_ok(),
        _ => true,
    };
    if bad {
        let w = match plain {
            Ok(b) => format!("as the expanded program: {}", hex(&b)),
            Err(w) => format!("rejected: {}", w),
        };
        r.fail(what, text.to_string(), w, show(&got));
    }
}

/// what makes a definition, and where it begins and ends
fn definitions(r: &mut Report) {
    let words = ["%a", "%b", "%A", "c", "5", "#1", "@r0", "%a%"];
    let judge = |ps: &[&str]| -> R<()> {
        let mut seen: Vec<String> = vec![];
        for p in ps {
            if !p.starts_with('%') || p[1..].contains('%') {
                return Err("not a parameter");
            }
            if seen.contains(&p.to_lowercase()) {
                return Err("the same parameter twice");
            }
            seen.push(p.to_lowercase());
        }
        Ok(())
    };
    for n in 0..5u32 {
        for i in 0..words.len().pow(n) {
            let ps: Vec<&str> = (0..n).map(|k| words[i / words.len().pow(k) % words.len()]).collect();
            let body = if ps.first() == Some(&"%a") { "add %a" } else { "nop" };
            let head = format!("%macro m {}\n    {}\n%end\n", ps.join(", "), body);
            let call: Vec<String> = (0..n).map(|k| format!("#{}", 3 + k)).collect();
            let want = judge(&ps).map(|_| format!("    {}\n", body.replace("%a", "#3")));
            same(r, "parameters of a macro", &format!("{}    m {}\n", head, call.join(", ")), want);
            // without a call
            same(r, "parameters of a macro that is not called", &format!("{}    nop\n", head), judge(&ps).map(|_| "    nop\n".to_string()));
            if r.stop() {
                return;
            }
        }
    }
    let known = [
        "add", "addc", "sub", "subc", "inc", "dec", "mul", "div", "and", "or", "xor", "rol", "rolc", "ror", "rorc", "ld", "st", "mov", "ldc", "push", "pop", "xch", "jmp", "jmpf", "br",
        "brf", "bz", "bnz", "bp", "bpc", "bn", "dbnz", "be", "bne", "call", "callf", "callr", "ret", "reti", "clr1", "set1", "not1", "nop", "ldf", "stf",
    ];
    let free = ["nops", "ad", "move", "equal", "l1", "retu", "callx", "x_y"];
    for (names, ok) in [(&known[..], false), (&free[..], true)] {
        for name in names.iter() {
            for n in 0..5usize {
                for before in [false, true] {
                    for up in [false, true] {
                        let nm = if up { name.to_uppercase() } else { name.to_string() };
                        let ps: Vec<&str> = ["%a", "%b", "%c", "%d"][..n].to_vec();
                        let args = vec!["#1"; n].join(", ");
                        let other = if before { "%macro first\n    ret\n%end\n" } else { "" };
                        let t = format!("{}%macro {} {}\n    nop\n    nop\n%end\n", other, nm, ps.join(", "));
                        if ok {
                            same(r, "name of a macro", &format!("{}    {} {}\n", t, name, args), Ok("    nop\n    nop\n".into()));
                        } else {
                            same(r, "a macro with the name of an instruction", &format!("{}    ret\n", t), Err("the name of an instruction"));
                        }
                    }
                }
            }
        }
    }
    // the same name, by number of parameters
    for n in 0..5usize {
        for m in 0..5usize {
            for between in ["", "%macro z\n    nop\n%end\n", "    nop\n"] {
                for (n1, n2) in [("q", "q"), ("q", "Q"), ("q", "qq")] {
                    let ps = ["%a", "%b", "%c", "%d"];
                    let qs = ["%d", "%a", "%e", "%f"];
                    let t = format!("%macro {} {}\n    ret\n%end\n{}%macro {} {}\n    reti\n%end\n", n1, ps[..n].join(", "), between, n2, qs[..m].join(", "));
                    let t = format!("{}    {} {}\n    {} {}\n", t, n1, vec!["5"; n].join(", "), n2, vec!["6"; m].join(", "));
                    let nop = if between.starts_with(' ') { between } else { "" };
                    let twice = n == m && n1.eq_ignore_ascii_case(n2);
                    same(r, "two macros", &t, if twice { Err("the same macro twice") } else { Ok(format!("{}    ret\n    reti\n", nop)) });
                }
            }
        }
    }
    // lines of a body
    let fine = [
        ("nop", "nop"), ("", ""), ("; only a comment", ""), ("g: nop", "g: nop"), ("g:", "g:"), (".l: nop", ".l: nop"), (".l", ".l:"), ("g% : nop", "g_vh: nop"), (".l%: nop", ".l_vh: nop"),
        (".l%", ".l_vh:"), ("g%:", "g_vh:"), ("add #%a", "add #3"), ("g: add %a", "g: add #3"), ("ADD %A", "add #3"), ("in %a", "dec 5"), ("st @r2 ; %end", "st @r2"),
    ];
    let wrong = [
        "%a:", "nop nop", ".byte 1", "x = 5", "x equ 5", "g: .byte 5", "g", "5", "nop,", "%macro z", "%foo", "g: h: nop", ".l nop", ".l% nop", "add #%a,", "g: %end", ", nop", ".org 5", ".include \"x\"",
        "in %a %a", "= 5", ".l .m", "%end x", "%end %end", "%end, 1",
    ];
    for first in 0..3usize {
        for last in 0..3usize {
            let pad = "    ret\n";
            let frame = |b: &str| format!("%macro in %q\n    dec 5\n%end\n%macro m %a\n{}    {}\n{}%end\n    m #3\n    reti\n", pad.repeat(first), b, pad.repeat(last));
            for (b, w) in fine.iter() {
                let b1 = frame(b);
                let b1 = if b.contains("in %a") {
                    b1.replace("m #3", "m 5")
                } else if b.contains("#%a") {
                    b1.replace("m #3", "m 3")
                } else {
                    b1
                };
                same(r, "a line of a macro", &b1, Ok(format!("{}    {}\n{}    reti\n", pad.repeat(first), w, pad.repeat(last))));
            }
            for b in wrong.iter() {
                same(r, "a line that a macro cannot hold", &frame(b), Err("no statement of a macro"));
            }
        }
    }
    // where a macro ends
    let defs = ["%macro a\n    ret\n%end\n", "%macro b %x\n%end\n", "%macro c %x\n    add %x\n    a\n%end ; done\n", "\n", "    inc 5\n", "    c #1\n", "    b 1\n", "l: a\n"];
    let outs = ["", "", "", "", "    inc 5\n", "    add #1\n    ret\n", "", "l: ret\n"];
    for a in 0..8usize {
        for b in 0..8usize {
            for c in 0..8usize {
                for open in [false, true] {
                    let order = [a, b, c];
                    let mut text = String::new();
                    let mut out = String::new();
                    let mut twice = order.iter().filter(|x| **x == 7).count() > 1;
                    for (k, i) in order.iter().enumerate() {
                        if *i < 3 && order[..k].contains(i) {
                            twice = true;
                        }
                        text.push_str(defs[*i]);
                        out.push_str(outs[*i]);
                    }
                    for i in 0..3 {
                        if !order.contains(&i) {
                            text.push_str(defs[i]);
                        }
                    }
                    // the end of the file ends the last one as well
                    if open {
                        text.push_str("    nop\n%macro last\n    dec 5\n    a\n");
                        out.push_str("    nop\n");
                    }
                    same(r, "where a macro ends", &text, if twice { Err("twice") } else { Ok(out) });
                    if r.stop() {
                        return;
                    }
                }
            }
        }
    }
    for t in ["%end\n", "    nop\n%end\n", "%macro a\n%end\n%end\n", "%macro\n%end\n", "%macro 5\n%end\n", "%macro .a\n%end\n    nop\n.x: .a\n", "%macro a %b %c\n%end\n", "%macro a, %b\n%end\n", "%macro a %b,\n%end\n", "%foo\n"] {
        same(r, "no definition", &format!("{}    nop\n", t), Err("no definition"));
    }
}

struct G<'a> {
    g: &'a mut Rng,
}

impl<'a> G<'a> {
    fn x(&mut self, d: usize, ps: &[String], labs: &[String]) -> X {
        match self.g.below(if d == 0 { 5 } else { 9 }) {
            0 => X::Num(self.g.range(0, 9)),
            1 => X::Name((*self.g.pick(&["v", "w", "two", "p0"])).into()),
            2 | 3 if !ps.is_empty() => X::Par(self.g.pick(ps).clone()),
            4 if !labs.is_empty() && self.g.chance(1, 2) => X::Lab(self.g.pick(labs).clone()),
            5 => X::Un(*self.g.pick(&['-', '<', '>']), Box::new(self.x(d - 1, ps, labs))),
            6 | 7 | 8 => {
                let c = *self.g.pick(&['+', '-', '*', '/', '&', '|', '^']);
                bin(c, self.x(d - 1, ps, labs), self.x(d - 1, ps, labs))
            }
            _ => X::Num(self.g.range(0, 99)),
        }
    }
    fn a(&mut self, ps: &[String], labs: &[String]) -> A {
        match self.g.below(8) {
            0 => A::Imm(self.x(2, ps, labs)),
            1 => A::Ind(self.g.below(4)),
            2 | 3 | 4 if !ps.is_empty() => A::Par(self.g.pick(ps).clone()),
            _ => match self.x(2, ps, labs) {
                X::Par(s) => A::Par(s),
                x => A::Ex(x),
            },
        }
    }
    fn line(&mut self, ps: &[String], labs: &[String], ms: &[(String, usize)]) -> B {
        if !ms.is_empty() && self.g.chance(2, 5) {
            let (n, k) = self.g.pick(ms).clone();
            let k = if self.g.chance(1, 20) { k + 1 } else { k };
            return B::Line(n, (0..k).map(|_| self.a(ps, labs)).collect());
        }
        match self.g.below(5) {
            0 => l("nop", vec![]),
            1 => l("add", vec![self.a(ps, labs)]),
            2 => l("ld", vec![self.a(ps, labs)]),
            3 => {
                let i = A::Imm(self.x(2, ps, labs));
                l("mov", vec![i, self.a(ps, labs)])
            }
            _ => {
                if labs.is_empty() {
                    return l("callf", vec![A::Ex(X::Name("v".into()))]);
                }
                l("callf", vec![A::Ex(X::Lab(self.g.pick(labs).clone()))])
            }
        }
    }
}

pub fn run(r: &mut Report) {
    r.rule = "up to four parameters of every kind, names of instructions, macros given twice, lines of a body and the places where a macro ends; every kind of argument in every kind of place, nesting, recursion and local labels; then random sets of macros \
              and calls; non-trivial when it assembles"
        .into();
    fixed(r);
    definitions(r);
    let mut rng = Rng::new(r.seed);
    while r.more() {
        let mut g = G { g: &mut rng };
        let n = 1 + g.g.below(4);
        let names = ["m0", "m1", "mm", "M3"];
        let mut ids: Vec<(String, usize)> = vec![];
        for i in 0..n {
            let id = (names[if g.g.chance(1, 6) { 0 } else { i }].to_string(), g.g.below(4));
            if !ids.iter().any(|x| x.0.eq_ignore_ascii_case(&id.0) && x.1 == id.1) {
                ids.push(id);
            }
        }
        let mut defs = vec![];
        for (i, id) in ids.iter().enumerate() {
            let params: Vec<String> = (0..id.1).map(|k| format!("%{}{}", ["p", "q", "P"][g.g.below(3)], k)).collect();
            let low: Vec<String> = params.iter().map(|p| p.to_lowercase()).collect();
            let labs: Vec<String> = (0..g.g.below(3)).map(|k| format!("{}l{}%", if g.g.chance(1, 2) { "." } else { "" }, k)).collect();
            let from = if g.g.chance(1, 12) { 0 } else { i + 1 };
            let ms: Vec<(String, usize)> = ids[from..].to_vec();
            let mut body = vec![];
            for _ in 0..1 + g.g.below(4) {
                let ps: Vec<String> = if g.g.chance(1, 30) { vec!["%zz".into()] } else { low.clone() };
                body.push(g.line(&ps, &labs, &ms));
            }
            for x in labs.iter() {
                let at = g.g.below(body.len() + 1);
                body.insert(at, B::Loc(x.clone()));
            }
            defs.push(Def { name: id.0.clone(), params, body });
        }
        let mut prog = vec![];
        for x in ["v", "w"] {
            prog.push(B::Glob(x.into()));
            prog.push(l("nop", vec![]));
        }
        for x in ["two", "p0"] {
            prog.push(l(&format!("{} = {} ;", x, if x == "two" { 2 } else { 77 }), vec![]));
        }
        for _ in 0..1 + g.g.below(4) {
            let outside: Vec<String> = if g.g.chance(1, 30) { vec!["%p0".into()] } else { vec![] };
            prog.push(g.line(&outside, &[], &ids));
        }
        let after = rng.chance(1, 3);
        check(r, "program", &defs, &prog, after);
    }
}
