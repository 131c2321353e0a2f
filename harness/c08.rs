//! C08: definitions and references of names, against the reference assembler.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::*;

fn name(s: &str) -> E {
    E::Name(s.into())
}

/// statement k of the small alphabet
fn letter(k: usize) -> St {
    match k {
        0 => St::Label("a".into()),
        1 => St::Label("B".into()),
        2 => St::Label(".a".into()),
        3 => St::Label(".A".into()),
        4 => St::Word(vec![name("A")]),
        5 => St::Word(vec![name(".A"), name("b")]),
        6 => St::Def("C".into(), E::Num(700), false),
        7 => St::Def("c".into(), name("A"), true),
        8 => St::Def("d".into(), name("C"), false),
        _ => St::Byte(vec![Bv::Val(name("d"))]),
    }
}

pub fn run(r: &mut Report) {
    r.rule = "all sequences of up to four statements over ten that define and use four names in either letter case, then random \
              programs over eight names; non-trivial when it assembles"
        .into();
    let mut rng = Rng::new(r.seed);
    for n in 1..5u32 {
        for c in 0..10usize.pow(n) {
            if !r.more() {
                return;
            }
            let mut p = vec![];
            let mut x = c;
            for _ in 0..n {
                p.push(letter(x % 10));
                x /= 10;
            }
            compare(r, "names", &p);
        }
    }
    let all = ["a", "bb", "long_name1", "z9", ".a", ".bb", ".long_name1", ".z"];
    let branch = FORMS.iter().position(|f| f.0 == "Brf").unwrap_or(0);
    while r.more() {
        let mut g = Gen::new(&mut rng);
        let used: Vec<String> = all[..].iter().map(|s| s.to_string()).collect();
        let k = if g.g.chance(1, 2) { 1 } else { 3 };
        let mut p = vec![];
        // definitions of most names once, some twice, at random places
        let mut todo: Vec<usize> = (0..all.len()).filter(|_| g.g.chance(7, 8)).collect();
        if g.g.chance(1, 6) {
            todo.push(g.g.below(all.len()));
        }
        for _ in 0..g.g.below(4) {
            todo.push(4 + g.g.below(4));
        }
        while !todo.is_empty() || g.g.chance(3, 4) {
            if p.len() > 40 {
                break;
            }
            if !todo.is_empty() && g.g.chance(1, 2) {
                let i = g.g.below(todo.len());
                let n = all[todo.swap_remove(i)];
                let shown = vary_case(g.g, n);
                if n.starts_with('.') || g.g.chance(k, 4) {
                    p.push(St::Label(shown));
                } else {
                    g.names = used.iter().filter(|n| !n.starts_with('.')).cloned().collect();
                    let e = if g.g.chance(1, 3) { g.expr(1) } else { g.small(400) };
                    p.push(St::Def(shown, e, g.g.chance(1, 2)));
                }
            } else {
                let n = all[g.g.below(all.len())];
                let shown = E::Name(vary_case(g.g, n));
                p.push(match g.g.below(4) {
                    0 => g.ins(branch, 0, Some(shown)),
                    1 => St::Byte(vec![Bv::Val(E::Lo(Box::new(shown)))]),
                    _ => St::Word(vec![shown]),
                });
            }
        }
        if !p.is_empty() {
            compare(r, "names", &p);
        }
    }
}
