//! C17: every short sequence of tokens, and random longer ones, against a parser that splits at the loosest operator;
//! what is printed, read again.
use crate::expression::{Expr, Radix};
use crate::files::FileID;
use crate::input::Input;
use crate::lexer;
use crate::lexer::{Token, TokenType};
use crate::location::Span;
use crate::parser::{Parser, TokenStream};
use crate::vh_core::*;

#[derive(Clone, PartialEq, Debug)]
enum T {
    Atom(String),
    Un(String, Box<T>),
    Bin(String, Box<T>, Box<T>),
}

fn text(t: &T) -> String {
    match t {
        T::Atom(x) => x.clone(),
        T::Un(o, x) => format!("{}[{}]", o, text(x)),
        T::Bin(o, x, y) => format!("[{} {} {}]", text(x), o, text(y)),
    }
}

fn level(o: &str) -> u8 {
    match o {
        "&" | "^" | "|" => 1,
        "+" | "-" => 2,
        "*" | "/" => 3,
        _ => 0,
    }
}

/// the tree of all of the tokens: split at the last one of the loosest operators outside of parentheses
fn reference(ts: &[&str]) -> Option<T> {
    if ts.is_empty() {
        return None;
    }
    let mut depth = 0;
    let mut best: Option<(u8, usize)> = None;
    for i in 0..ts.len() {
        match ts[i] {
            "(" => depth += 1,
            ")" => {
                depth -= 1;
                if depth < 0 {
                    return None;
                }
            }
            o if depth == 0 && level(o) > 0 && i > 0 => {
                let ends = !matches!(ts[i - 1], "(" | "<" | ">") && level(ts[i - 1]) == 0;
                if ends && best.map(|b| level(o) <= b.0).unwrap_or(true) {
                    best = Some((level(o), i));
                }
            }
            _ => {}
        }
    }
    if depth != 0 {
        return None;
    }
    if let Some((_, i)) = best {
        return Some(T::Bin(ts[i].into(), Box::new(reference(&ts[..i])?), Box::new(reference(&ts[i + 1..])?)));
    }
    if matches!(ts[0], "-" | "<" | ">") {
        return Some(T::Un(ts[0].into(), Box::new(reference(&ts[1..])?)));
    }
    if ts[0] == "(" && ts[ts.len() - 1] == ")" && ts.len() > 2 {
        return reference(&ts[1..ts.len() - 1]);
    }
    if ts.len() == 1 && ts[0] != "(" && level(ts[0]) == 0 && ts[0] != "," {
        return Some(T::Atom(ts[0].into()));
    }
    None
}

/// the expression that begins the tokens, and its length
fn longest(ts: &[&str]) -> Option<(T, usize)> {
    for e in (1..ts.len() + 1).rev() {
        if e < ts.len() && level(ts[e]) > 0 {
            continue;
        }
        if let Some(t) = reference(&ts[..e]) {
            return Some((t, e));
        }
    }
    None
}

fn token(t: &str) -> TokenType {
    match t {
        "(" => TokenType::LeftParen,
        ")" => TokenType::RightParen,
        "+" => TokenType::Plus,
        "-" => TokenType::Minus,
        "*" => TokenType::Times,
        "/" => TokenType::Divide,
        "&" => TokenType::Ampersand,
        "|" => TokenType::Pipe,
        "^" => TokenType::Caret,
        "<" => TokenType::LowerByte,
        ">" => TokenType::UpperByte,
        "," => TokenType::Comma,
        x => {
            let c = x.as_bytes()[0];
            if c.is_ascii_digit() {
                TokenType::Number(x.parse().unwrap(), lexer::Radix::Decimal)
            } else if c == b'%' {
                TokenType::MacroIdent(x.into())
            } else if x.ends_with('%') {
                TokenType::MacroLabel(x.into())
            } else {
                TokenType::Name(x.into())
            }
        }
    }
}

fn radix(r: &Radix) -> &'static str {
    match r {
        Radix::Decimal => "",
        Radix::Hex => "hex",
        Radix::Binary => "bin",
        Radix::Octal => "oct",
    }
}

fn tree(e: &Expr) -> T {
    let bin = |o: &str, x: &Expr, y: &Expr| T::Bin(o.into(), Box::new(tree(x)), Box::new(tree(y)));
    let un = |o: &str, x: &Expr| T::Un(o.into(), Box::new(tree(x)));
    match e {
        Expr::Name(_, n) | Expr::MacroArg(_, n) | Expr::MacroLabel(_, n) => T::Atom(n.clone()),
        Expr::Number(_, n, r) => T::Atom(format!("{}{}", radix(r), n)),
        Expr::Plus(_, x, y) => bin("+", x, y),
        Expr::Minus(_, x, y) => bin("-", x, y),
        Expr::Times(_, x, y) => bin("*", x, y),
        Expr::Divide(_, x, y) => bin("/", x, y),
        Expr::BitwiseAnd(_, x, y) => bin("&", x, y),
        Expr::BitwiseOr(_, x, y) => bin("|", x, y),
        Expr::BitwiseXor(_, x, y) => bin("^", x, y),
        Expr::UnaryMinus(_, x) => un("-", x),
        Expr::UpperByte(_, x) => un(">", x),
        Expr::LowerByte(_, x) => un("<", x),
    }
}

fn check(r: &mut Report, p: &Parser, ts: &[&str]) {
    let toks: Vec<Token> = ts.iter().map(|t| Token::new(token(t), Span::default())).collect();
    let got = guarded(|| {
        let mut s = TokenStream::from(&toks);
        match p.parse_expr(&mut s) {
            Ok(e) => Some((tree(&e), ts.len() - s.len())),
            Err(_) => None,
        }
    });
    let want = longest(ts);
    let key = ts.join(" ");
    r.case(&key, want.as_ref().map(|w| !matches!(w.0, T::Atom(_))).unwrap_or(false));
    let sh = |x: &Option<(T, usize)>| match x {
        Some((t, n)) => format!("{} ({} tokens)", text(t), n),
        None => "no expression".into(),
    };
    match got {
        Ok(g) => {
            if g != want {
                r.fail("parse", key, sh(&want), sh(&g));
            }
        }
        Err(e) => r.fail("parse", key, sh(&want), e),
    }
}

fn read(p: &Parser, t: &str) -> Result<Expr, String> {
    let input = Input::new(FileID::new(7), t);
    let toks = lexer::lex_input(&input).map_err(|e| kind(&e))?;
    let mut s = TokenStream::from(&toks);
    let e = p.parse_expr(&mut s).map_err(|e| kind(&e))?;
    if s.len() > 0 && !s.is_empty() {
        return Err("more after the expression".into());
    }
    Ok(e)
}

/// what is printed is read as the same expression
fn check_print(r: &mut Report, p: &Parser, t: &str) {
    let res = guarded(|| {
        let e = read(p, t)?;
        let out = format!("{}", e);
        let back = read(p, &out).map(|x| text(&tree(&x)));
        Ok::<_, String>((text(&tree(&e)), out, back))
    });
    r.case(t, true);
    match res {
        Ok(Ok((want, out, back))) => {
            if back.as_ref() != Ok(&want) {
                r.fail("print", format!("{}, printed as {}", t, out), want, format!("{:?}", back));
            }
        }
        // not an expression, and there is nothing to print
        Ok(Err(_)) => {}
        Err(e) => r.fail("print", t.into(), "no panic".into(), e),
    }
}

fn random_expr(g: &mut Rng, depth: usize) -> String {
    if depth == 0 || g.chance(1, 5) {
        return match g.below(12) {
            0 => "name".into(),
            1 => ".local".into(),
            2 => "_x.y$1".into(),
            3 => "%arg".into(),
            4 => "lbl%".into(),
            5 => ".l_2%".into(),
            k => {
                let n = if g.chance(1, 2) { *g.pick(&edges()) as i64 } else { g.range(0, 70000) }.max(0);
                match k {
                    6 => format!("${:x}", n),
                    7 => format!("%{:b}", n),
                    8 => format!("0o{:o}", n),
                    9 => format!("0x{:X}", n),
                    10 => format!("0b{:08b}", n),
                    _ => format!("{}", n),
                }
            }
        };
    }
    let sp = |g: &mut Rng| if g.chance(1, 2) { " " } else { "" };
    let one = |g: &mut Rng, d: usize| {
        let x = random_expr(g, d);
        if g.chance(1, 3) {
            format!("({})", x)
        } else {
            x
        }
    };
    if g.chance(1, 4) {
        let o = *g.pick(&["-", "<", ">"]);
        format!("{}{}{}", o, sp(g), one(g, depth - 1))
    } else {
        let o = *g.pick(&["+", "-", "*", "/", "&", "|", "^"]);
        // a binary number or a macro argument begins with the sign that ends a macro label
        format!("{} {} {}", one(g, depth - 1), o, one(g, depth - 1))
    }
}

pub fn run(r: &mut Report) {
    let long = if r.thorough { 6 } else { 5 };
    r.rule = format!(
        "every sequence of up to {} tokens over two operands, all operators, parentheses and a comma; random sequences of up to 16; \
         random expressions in every radix, printed and read again; non-trivial: an expression with an operator",
        long
    );
    let p = Parser::create();
    let alpha = ["a", "5", "(", ")", "+", "-", "*", "/", "&", "|", "^", "<", ">", ","];
    for r_ in ["0", "7", "8", "15", "16", "255", "256", "4095", "65535", "65536", "2147483647"] {
        let n: i64 = r_.parse().unwrap();
        for t in [format!("{}", n), format!("${:X}", n), format!("%{:b}", n), format!("0o{:o}", n), format!("0b{:b}", n), format!("0x{:x}", n)] {
            for u in [t.clone(), format!("-{}", t), format!(">{}", t), format!("a - ({} - {})", t, t), format!("-(-{})", t)] {
                check_print(r, &p, &u);
                if r.stop() {
                    return;
                }
            }
        }
    }
    for n in 1..long + 1 {
        let mut ix = vec![0usize; n];
        loop {
            let ts: Vec<&str> = ix.iter().map(|i| alpha[*i]).collect();
            check(r, &p, &ts);
            if r.stop() {
                return;
            }
            let mut k = n;
            while k > 0 {
                ix[k - 1] += 1;
                if ix[k - 1] < alpha.len() {
                    break;
                }
                ix[k - 1] = 0;
                k -= 1;
            }
            if k == 0 {
                break;
            }
        }
    }
    r.sample("every sequence of up to 5 tokens".into());
    let mut g = Rng::new(r.seed);
    let ops = ["+", "-", "*", "/", "&", "|", "^"];
    while r.more() {
        // mostly well formed
        let mut ts: Vec<&str> = vec![];
        let mut open = 0;
        while ts.len() < 14 {
            while g.chance(1, 3) {
                ts.push(*g.pick(&["-", "<", ">", "("]));
                if ts[ts.len() - 1] == "(" {
                    open += 1;
                }
            }
            ts.push(*g.pick(&["a", "5", "b", "%x", "y%"]));
            while open > 0 && g.chance(1, 3) {
                ts.push(")");
                open -= 1;
            }
            if g.chance(1, 6) {
                break;
            }
            ts.push(*g.pick(&ops));
        }
        while open > 0 {
            ts.push(")");
            open -= 1;
        }
        if g.chance(1, 5) {
            let i = g.below(ts.len());
            ts[i] = *g.pick(&alpha);
        }
        check(r, &p, &ts);
        let d = 1 + g.below(5);
        let t = random_expr(&mut g, d);
        check_print(r, &p, &t);
        if r.cases % 1000 == 0 {
            r.sample(t);
        }
    }
}
