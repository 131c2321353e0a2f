//! C05: expression trees and values against exact arithmetic.
use crate::expression::{Expr, Radix};
use crate::location::Span;
use crate::vh_core::*;
use crate::vh_model::*;
use std::collections::HashMap;

fn build(e: &E) -> Expr {
    let s = Span::default;
    match e {
        E::Num(x) => Expr::Number(s(), *x as i32, Radix::Decimal),
        E::Name(n) => Expr::Name(s(), n.clone()),
        E::Neg(x) => Expr::UnaryMinus(s(), Box::new(build(x))),
        E::Hi(x) => Expr::UpperByte(s(), Box::new(build(x))),
        E::Lo(x) => Expr::LowerByte(s(), Box::new(build(x))),
        E::Bin(o, a, b) => {
            let (a, b) = (Box::new(build(a)), Box::new(build(b)));
            match o {
                '+' => Expr::Plus(s(), a, b),
                '-' => Expr::Minus(s(), a, b),
                '*' => Expr::Times(s(), a, b),
                '/' => Expr::Divide(s(), a, b),
                '&' => Expr::BitwiseAnd(s(), a, b),
                '|' => Expr::BitwiseOr(s(), a, b),
                _ => Expr::BitwiseXor(s(), a, b),
            }
        }
    }
}

fn check(r: &mut Report, e: &E, env: &HashMap<String, i32>) {
    let t = text(e);
    let want = value(e, &|n| env.get(n).map(|x| *x as i64));
    let x = build(e);
    let got = match guarded(|| x.eval(env).map_err(|e| kind(&e))) {
        Ok(g) => g,
        Err(p) => Err(p),
    };
    r.case(&t, true);
    let same = match (&want, &got) {
        (Ok(a), Ok(b)) => *a == *b as i64,
        (Err(k), Err(g)) => k.iter().any(|y| y == g),
        _ => false,
    };
    if !same {
        r.fail("eval", format!("{} with {:?}", t, env), format!("{:?}", want), format!("{:?}", got));
    }
}

pub fn run(r: &mut Report) {
    r.rule = "every operator on all pairs of boundary values, then random trees to depth 6 over boundary values and names, \
              directly and as .word operands of an assembled program; every case is non-trivial".into();
    let ed = edges();
    let mut env: HashMap<String, i32> = HashMap::new();
    env.insert("a".into(), 0);
    env.insert("b".into(), 0);
    let v = |s: &str| Box::new(E::Name(s.into()));
    for a in ed.iter() {
        env.insert("a".into(), *a);
        for e in [E::Neg(v("A")), E::Hi(v("a")), E::Lo(v("A"))] {
            check(r, &e, &env);
        }
        for b in ed.iter() {
            env.insert("b".into(), *b);
            for o in ['+', '-', '*', '/', '&', '|', '^'] {
                check(r, &E::Bin(o, v("a"), v("B")), &env);
                if r.stop() {
                    return;
                }
            }
        }
    }
    for b in [-255i32, -3, -2, -1, 1, 2, 3, 7, 255, 256] {
        env.insert("b".into(), b);
        for a in -600..600 {
            env.insert("a".into(), a);
            check(r, &E::Bin('/', v("a"), v("b")), &env);
        }
    }
    for e in [E::Bin('+', v("nope"), Box::new(E::Num(1))), E::Bin('/', Box::new(E::Num(1)), Box::new(E::Num(0)))] {
        check(r, &e, &env);
    }
    let mut rng = Rng::new(r.seed);
    let mut k = 0u64;
    while r.more() && (r.thorough || k < 150000) {
        k += 1;
        for n in ["a", "b", "c"] {
            let x = if rng.chance(1, 2) { *rng.pick(&ed) } else { rng.next() as i32 };
            env.insert(n.into(), x);
        }
        let mut g = Gen::new(&mut rng);
        g.names = vec!["a".into(), "b".into(), "c".into()];
        if g.g.chance(1, 20) {
            g.names.push("missing".into());
        }
        let d = 1 + g.g.below(6);
        let e = g.expr(d);
        check(r, &e, &env);
        if k % 50 == 0 {
            // and through the assembler: the low 16 bits of the value
            let val = value(&e, &|n| env.get(n).map(|x| *x as i64));
            let mut p: Vec<St> = vec![];
            for n in ["a", "b", "c"] {
                let x = env[n] as i64;
                let d = if x == i32::MIN as i64 {
                    E::Bin('-', Box::new(num(x + 1)), Box::new(E::Num(1)))
                } else {
                    num(x)
                };
                p.push(St::Def(n.into(), d, false));
            }
            p.push(St::Word(vec![E::Bin('&', Box::new(e.clone()), Box::new(E::Num(65535)))]));
            let _ = val;
            compare(r, "assembled expression", &p);
        }
    }
}
