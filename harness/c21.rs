//! C21: every short line of tokens, and random programs, against a reader written by hand.
use crate::ast::{ByteValue, Directive, Statement};
use crate::expression::{Arg, Expr, IndirectionMode, Radix};
use crate::files::FileID;
use crate::input::Input;
use crate::lexer;
use crate::lexer::{Token, TokenType};
use crate::location::Span;
use crate::parser::Parser;
use crate::vh_core::*;
use crate::vh_isa::*;

/// without positions
fn plain(s: String) -> String {
    let mut out = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find("Span {") {
        out.push_str(&rest[..i]);
        let mut depth = 0;
        let mut end = rest.len();
        for (k, c) in rest[i..].char_indices() {
            if c == '{' {
                depth += 1;
            } else if c == '}' {
                depth -= 1;
                if depth == 0 {
                    end = i + k + 1;
                    break;
                }
            }
        }
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

fn show_all(xs: Vec<String>) -> String {
    xs.join(" ; ")
}

/// a statement as the parser made it
fn real(s: &Statement) -> String {
    let bytes = |b: &ByteValue| match b {
        ByteValue::Expr(e) => format!("{:?}", e),
        ByteValue::String(_, v) => format!("bytes {:?}", v),
    };
    plain(match s {
        Statement::Label(_, n) => format!("label {}", n),
        Statement::Variable(_, n, e) => format!("{} = {:?}", n, e),
        Statement::Alias(_, n, e) => format!("{} equ {:?}", n, e),
        Statement::MacroCall(_, n, a) => format!("call {} {}", n, a.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" , ")),
        Statement::Instr(_, i) => format!("{:?}", i),
        Statement::Comment(t) => format!("comment {}", t),
        Statement::Directive(d) => match d {
            Directive::Byte(_, v) => format!("byte {}", v.iter().map(bytes).collect::<Vec<_>>().join(" , ")),
            Directive::Word(_, v) => format!("word {}", v.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>().join(" , ")),
            Directive::Org(_, n) => format!("org {}", n),
            Directive::Text(_, n, b) => format!("text {} {:?}", n, b),
            Directive::String(_, n, b) => format!("string {} {:?}", n, b),
            Directive::Cnop(_, x, y) => format!("cnop {:?} , {:?}", x, y),
            Directive::Include(..) => "include".into(),
        },
    })
}

// ---------------------------------------------------------------- the reader

fn level(t: &TokenType) -> u8 {
    match t {
        TokenType::Ampersand | TokenType::Caret | TokenType::Pipe => 1,
        TokenType::Plus | TokenType::Minus => 2,
        TokenType::Times | TokenType::Divide => 3,
        _ => 0,
    }
}

fn prefix(t: &TokenType) -> bool {
    matches!(t, TokenType::Minus | TokenType::LowerByte | TokenType::UpperByte)
}

/// the expression of all of the tokens: split at the last one of the loosest operators outside of parentheses
fn reference(ts: &[TokenType]) -> Option<Expr> {
    let sp = Span::default;
    let mut depth = 0;
    let mut best: Option<(u8, usize)> = None;
    for i in 0..ts.len() {
        match &ts[i] {
            TokenType::LeftParen => depth += 1,
            TokenType::RightParen => {
                depth -= 1;
                if depth < 0 {
                    return None;
                }
            }
            o if depth == 0 && level(o) > 0 && i > 0 => {
                let p = &ts[i - 1];
                let ends = *p != TokenType::LeftParen && !prefix(p) && level(p) == 0;
                if ends && best.map(|b| level(o) <= b.0).unwrap_or(true) {
                    best = Some((level(o), i));
                }
            }
            _ => {}
        }
    }
    if depth != 0 || ts.is_empty() {
        return None;
    }
    if let Some((_, i)) = best {
        let (x, y) = (Box::new(reference(&ts[..i])?), Box::new(reference(&ts[i + 1..])?));
        return Some(match &ts[i] {
            TokenType::Ampersand => Expr::BitwiseAnd(sp(), x, y),
            TokenType::Caret => Expr::BitwiseXor(sp(), x, y),
            TokenType::Pipe => Expr::BitwiseOr(sp(), x, y),
            TokenType::Plus => Expr::Plus(sp(), x, y),
            TokenType::Minus => Expr::Minus(sp(), x, y),
            TokenType::Times => Expr::Times(sp(), x, y),
            _ => Expr::Divide(sp(), x, y),
        });
    }
    if prefix(&ts[0]) {
        let x = Box::new(reference(&ts[1..])?);
        return Some(match &ts[0] {
            TokenType::Minus => Expr::UnaryMinus(sp(), x),
            TokenType::LowerByte => Expr::LowerByte(sp(), x),
            _ => Expr::UpperByte(sp(), x),
        });
    }
    if ts[0] == TokenType::LeftParen && ts.len() > 2 {
        return reference(&ts[1..ts.len() - 1]);
    }
    if ts.len() > 1 {
        return None;
    }
    match &ts[0] {
        TokenType::Name(n) => Some(Expr::Name(sp(), n.clone())),
        TokenType::MacroIdent(n) => Some(Expr::MacroArg(sp(), n.clone())),
        TokenType::MacroLabel(n) => Some(Expr::MacroLabel(sp(), n.clone())),
        TokenType::Number(n, r) => Some(Expr::Number(
            sp(),
            *n,
            match r {
                lexer::Radix::Decimal => Radix::Decimal,
                lexer::Radix::Hex => Radix::Hex,
                lexer::Radix::Binary => Radix::Binary,
                lexer::Radix::Octal => Radix::Octal,
            },
        )),
        _ => None,
    }
}

/// the longest expression that begins the tokens, and its length
fn expr(ts: &[TokenType]) -> Option<(Expr, usize)> {
    for e in (1..ts.len() + 1).rev() {
        if e < ts.len() && level(&ts[e]) > 0 {
            continue;
        }
        if let Some(x) = reference(&ts[..e]) {
            return Some((x, e));
        }
    }
    None
}

fn register(t: &TokenType) -> Option<IndirectionMode> {
    match t {
        TokenType::R0 => Some(IndirectionMode::R0),
        TokenType::R1 => Some(IndirectionMode::R1),
        TokenType::R2 => Some(IndirectionMode::R2),
        TokenType::R3 => Some(IndirectionMode::R3),
        _ => None,
    }
}

/// pieces between commas: every comma separates, for none is part of an expression
fn pieces(ts: &[TokenType]) -> Vec<&[TokenType]> {
    if ts.is_empty() {
        return vec![];
    }
    ts.split(|t| *t == TokenType::Comma).collect()
}

fn whole(ts: &[TokenType]) -> Option<Expr> {
    reference(ts)
}

fn arg(ts: &[TokenType]) -> Option<Arg> {
    if ts.len() == 1 {
        if let Some(m) = register(&ts[0]) {
            return Some(Arg::IM(Span::default(), m));
        }
    }
    if !ts.is_empty() && ts[0] == TokenType::Hash {
        return whole(&ts[1..]).map(Arg::Imm);
    }
    match whole(ts)? {
        Expr::MacroArg(s, n) => Some(Arg::MacroArg(s, n)),
        e => Some(Arg::Ex(e)),
    }
}

fn form(name: &str, args: &[Arg]) -> Option<String> {
    for f in 0..FORMS.len() {
        if mnemonic(f) != name || FORMS[f].1.len() != args.len() {
            continue;
        }
        let fits = FORMS[f].1.iter().zip(args).all(|(k, a)| match a {
            Arg::Imm(_) => *k == "i8",
            Arg::IM(..) => *k == "ri",
            Arg::Ex(_) => *k != "i8" && *k != "ri",
            Arg::MacroArg(..) => false,
        });
        if fits {
            let ops: Vec<String> = args
                .iter()
                .map(|a| match a {
                    Arg::Imm(e) | Arg::Ex(e) => format!("{:?}", e),
                    Arg::IM(_, m) => format!("{:?}", m),
                    Arg::MacroArg(_, n) => n.clone(),
                })
                .collect();
            return Some(if ops.is_empty() { FORMS[f].0.into() } else { format!("{}({})", FORMS[f].0, ops.join(", ")) });
        }
    }
    None
}

fn mnemonic(f: usize) -> String {
    FORMS[f].0.split('_').next().unwrap().to_lowercase()
}

fn instr(ts: &[TokenType]) -> Option<String> {
    let n = match ts.first()? {
        TokenType::Name(n) => n,
        _ => return None,
    };
    let args: Vec<Arg> = pieces(&ts[1..]).into_iter().map(arg).collect::<Option<_>>()?;
    if (0..FORMS.len()).any(|f| mnemonic(f) == *n) {
        return form(n, &args);
    }
    if n.starts_with('.') {
        return None;
    }
    Some(format!("call {} {}", n, args.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" , ")))
}

/// the statements of a line
fn line(ts: &[TokenType]) -> Option<Vec<String>> {
    if ts.is_empty() {
        return Some(vec![]);
    }
    let n = match &ts[0] {
        TokenType::Name(n) => n.clone(),
        _ => return None,
    };
    let second = ts.get(1);
    if second == Some(&TokenType::Colon) {
        let mut out = vec![format!("label {}", n)];
        if ts.len() > 2 {
            out.push(instr(&ts[2..])?);
        }
        return Some(out);
    }
    let names = second == Some(&TokenType::Equals) || second == Some(&TokenType::Name("equ".into()));
    if !n.starts_with('.') && !names {
        return Some(vec![instr(ts)?]);
    }
    let rest = &ts[1..];
    let number = |t: Option<&TokenType>| match t {
        Some(TokenType::Number(n, _)) => Some(*n),
        _ => None,
    };
    let string = |t: Option<&TokenType>| match t {
        Some(TokenType::String(s)) => Some(s.clone().into_bytes()),
        _ => None,
    };
    let s = match n.as_str() {
        ".byte" => {
            let v: Vec<String> = pieces(rest)
                .into_iter()
                .map(|p| match p {
                    [TokenType::String(s)] => Some(format!("bytes {:?}", s.as_bytes())),
                    p => whole(p).map(|e| format!("{:?}", e)),
                })
                .collect::<Option<_>>()?;
            if v.is_empty() {
                return None;
            }
            format!("byte {}", v.join(" , "))
        }
        ".word" => {
            let v: Vec<String> = pieces(rest).into_iter().map(|p| whole(p).map(|e| format!("{:?}", e))).collect::<Option<_>>()?;
            if v.is_empty() {
                return None;
            }
            format!("word {}", v.join(" , "))
        }
        ".org" => {
            if rest.len() != 1 {
                return None;
            }
            format!("org {}", number(rest.first())?)
        }
        ".text" | ".string" => {
            if rest.len() != 2 {
                return None;
            }
            format!("{} {} {:?}", &n[1..], number(rest.first())?, string(rest.get(1))?)
        }
        ".cnop" => {
            let p = pieces(rest);
            if p.len() != 2 {
                return None;
            }
            format!("cnop {:?} , {:?}", whole(p[0])?, whole(p[1])?)
        }
        _ if names => {
            let e = whole(&ts[2..])?;
            if second == Some(&TokenType::Equals) {
                format!("{} = {:?}", n, e)
            } else {
                format!("{} equ {:?}", n, e)
            }
        }
        _ => {
            if ts.len() > 1 {
                return None;
            }
            format!("label {}", n)
        }
    };
    Some(vec![s])
}

// ---------------------------------------------------------------- the search

fn token(t: &str) -> TokenType {
    match t {
        ":" => TokenType::Colon,
        "=" => TokenType::Equals,
        "#" => TokenType::Hash,
        "," => TokenType::Comma,
        "(" => TokenType::LeftParen,
        ")" => TokenType::RightParen,
        "+" => TokenType::Plus,
        "-" => TokenType::Minus,
        "*" => TokenType::Times,
        "<" => TokenType::LowerByte,
        "@R0" => TokenType::R0,
        "@R1" => TokenType::R1,
        "@R2" => TokenType::R2,
        "@R3" => TokenType::R3,
        x if x.starts_with('"') => TokenType::String(x[1..x.len() - 1].into()),
        x if x.as_bytes()[0].is_ascii_digit() => TokenType::Number(x.parse().unwrap(), lexer::Radix::Decimal),
        x if x.starts_with('%') => TokenType::MacroIdent(x.into()),
        x if x.ends_with('%') => TokenType::MacroLabel(x.into()),
        x => TokenType::Name(x.into()),
    }
}

fn compare(r: &mut Report, key: String, want: Option<Vec<String>>, got: Result<Result<Vec<String>, String>, String>) {
    let want = want.map(|v| v.into_iter().map(plain).collect::<Vec<_>>());
    r.case(&key, want.as_ref().map(|w| !w.is_empty()).unwrap_or(false));
    let w = match &want {
        Some(v) => show_all(v.clone()),
        None => "an error".into(),
    };
    match (&want, &got) {
        (Some(a), Ok(Ok(b))) if a == b => {}
        (None, Ok(Err(_))) => {}
        (_, Ok(Ok(b))) => r.fail("read", key, w, show_all(b.clone())),
        (_, Ok(Err(e))) => r.fail("read", key, w, format!("error {}", e)),
        (_, Err(p)) => r.fail("read", key, w, p.clone()),
    }
}

fn parse(p: &Parser, toks: &[Token]) -> Result<Result<Vec<String>, String>, String> {
    guarded(|| match p.parse(toks) {
        Ok(s) => Ok(s.iter().map(real).collect()),
        Err(e) => Err(kind(&e)),
    })
}

fn check(r: &mut Report, p: &Parser, ts: &[&str]) {
    let types: Vec<TokenType> = ts.iter().map(|t| token(t)).collect();
    check_types(r, p, &ts.join(" "), &types);
}

fn check_types(r: &mut Report, p: &Parser, key: &str, types: &[TokenType]) {
    match types.first() {
        // not covered here
        Some(TokenType::Name(n)) if n == ".include" => return,
        Some(TokenType::MacroIdent(n)) if n == "%macro" => return,
        _ => {}
    }
    let ts = types;
    let mut toks: Vec<Token> = types.iter().map(|t| Token::new(t.clone(), Span::default())).collect();
    let want = line(types);
    if ts.len() < 4 {
        compare(r, format!("{} (and the end of the file)", key), want.clone(), {
            let mut t = toks.clone();
            t.push(Token::new(TokenType::EOF, Span::default()));
            parse(p, &t)
        });
    }
    if ts.len() % 2 == 0 {
        toks.push(Token::new(TokenType::EOF, Span::default()));
    }
    compare(r, key.into(), want, parse(p, &toks));
}

/// words that look like those that mean something, and the like
const WORDS: &[&str] = &[
    ".byte", ".word", ".org", ".text", ".string", ".cnop", "..byte", ".Byte", "byte", ".bytes", ".byt", ".wor", ".words", "..word", ".ORG", "org", ".text2", ".cnop.", ".str", ".string8", ".", "..", ".a", "equ",
    "EQU", "eq", "equal", "nop", "Nop", "nop1", "mov", "mo", "movx", "add", "bpc", "bp", "callf", "callfr", "set1", "set", "not1", "r0", "R1", "a", "b.c", "_", "$", ":", "=", "#", ",", "(", ")", "+", "-", "*", "<", "@R0", "@R1",
    "@R2", "@R3", "0", "1", "65536", "2147483647", "\"\"", "\"s\"", "\"\u{e9}\"", "\"a\u{1f600}\u{301}b\"", "\"\\\"", "\"\n\"", "%a", "%macro", "%end", "l%", ".l%",
];

/// a line with some of its tokens replaced, left out, doubled or moved
fn mutated(g: &mut Rng, types: &mut Vec<TokenType>) {
    for _ in 0..1 + g.below(2) {
        let w = token(g.pick(WORDS));
        let n = types.len();
        match g.below(6) {
            0 | 1 if n > 0 => {
                let i = g.below(n);
                types[i] = w;
            }
            2 => types.insert(g.below(n + 1), w),
            3 if n > 0 => {
                types.remove(g.below(n));
            }
            4 if n > 1 => types.swap(g.below(n), n - 1),
            5 if n > 0 && n < 9 => {
                let l = Token::new(TokenType::Colon, Span::default()).token_type().clone();
                types.insert(0, l);
                types.insert(0, w);
            }
            _ => types.push(w),
        }
    }
}

/// a program text: its lines are read one by one
fn check_text(r: &mut Report, p: &Parser, text: &str) {
    let mut want = Some(vec![]);
    for l in text.split('\n') {
        let types: Vec<TokenType> = match lexer::lex_input(&Input::new(FileID::new(7), l)) {
            Ok(ts) => ts.iter().map(|t| t.token_type().clone()).filter(|t| *t != TokenType::EOF).collect(),
            Err(_) => return,
        };
        want = match (want, line(&types)) {
            (Some(mut a), Some(b)) => {
                a.extend(b);
                Some(a)
            }
            _ => None,
        };
    }
    let toks = match lexer::lex_input(&Input::new(FileID::new(7), text)) {
        Ok(t) => t,
        Err(_) => return,
    };
    compare(r, text.into(), want, parse(p, &toks));
}

fn each(r: &mut Report, p: &Parser, heads: &[&str], alpha: &[&str], n: usize) {
    for h in heads {
        let mut ix = vec![0usize; n];
        loop {
            let mut ts: Vec<&str> = vec![h];
            ts.extend(ix.iter().map(|i| alpha[*i]));
            check(r, p, &ts);
            if r.stop() {
                return;
            }
            let mut k = n;
            while k > 0 {
                ix[k - 1] += 1;
                if ix[k - 1] < alpha.len() {
                    break;
                }
                ix[k - 1] = 0;
                k -= 1;
            }
            if k == 0 {
                break;
            }
        }
    }
}

fn some_expr(g: &mut Rng, depth: usize) -> String {
    if depth == 0 || g.chance(1, 2) {
        let n = g.range(0, 70000);
        return match g.below(7) {
            0 => "lab".into(),
            1 => ".loc".into(),
            2 => format!("${:x}", n),
            3 => format!("%{:b}", n),
            4 => "equ".into(),
            _ => n.to_string(),
        };
    }
    let (a, b) = (some_expr(g, depth - 1), some_expr(g, depth - 1));
    match g.below(6) {
        0 => format!("({})", a),
        1 => format!("-{}", a),
        2 => format!("<({})", a),
        _ => format!("{} {} {}", a, g.pick(&["+", "-", "*", "/", "&", "|", "^"]), b),
    }
}

fn some_line(g: &mut Rng) -> String {
    let e = |g: &mut Rng| {
        let d = g.below(3);
        some_expr(g, d)
    };
    let list = |g: &mut Rng, f: &dyn Fn(&mut Rng) -> String| {
        let n = g.below(4);
        (0..n).map(|_| f(g)).collect::<Vec<_>>().join(",")
    };
    let string = |g: &mut Rng| format!("\"{}\"", g.pick(&["", "abc", "\u{e9}\u{1f600}", "a \\\"b\\\" ;c", "1, 2", ".byte", "x:"]));
    let operand = |g: &mut Rng| match g.below(6) {
        0 => format!("@{}{}", g.pick(&["r", "R"]), g.below(4)),
        1 => format!("#{}", e(g)),
        _ => e(g),
    };
    let label = |g: &mut Rng| if g.chance(1, 4) { format!("{}: ", g.pick(&["lab", ".loc", ".byte", "nop"])) } else { String::new() };
    match g.below(14) {
        0 => String::new(),
        1 => format!("{}:", g.pick(&["lab", ".loc", "add", ".org"])),
        2 => g.pick(&[".loc", ".x", "nop", "mac", "42", ":"]).to_string(),
        3 => format!("{} {} {}", g.pick(&["v", "add", ".v", ".byte"]), g.pick(&["=", "equ"]), e(g)),
        4 => format!(".org {}", e(g)),
        5 => format!(".byte {}", list(g, &|g| if g.chance(1, 3) { string(g) } else { e(g) })),
        6 => format!(".word {}", list(g, &|g| e(g))),
        7 => format!("{} {} {}", g.pick(&[".text", ".string"]), e(g), string(g)),
        8 => format!(".cnop {},{}", e(g), e(g)),
        9 => format!("{}mac {}", label(g), list(g, &operand)),
        _ => {
            let f = g.below(FORMS.len());
            let mut ops: Vec<String> = FORMS[f]
                .1
                .iter()
                .map(|k| match *k {
                    "i8" => format!("#{}", e(g)),
                    "ri" => format!("@R{}", g.below(4)),
                    _ => e(g),
                })
                .collect();
            if g.chance(1, 10) {
                ops.push(operand(g));
            }
            let l = label(g);
            format!("{}{} {}{}", l, mnemonic(f), ops.join(if g.chance(1, 12) { " " } else { ", " }), if g.chance(1, 12) { "," } else { "" })
        }
    }
}

/// the lines of an included file stand where it is included
fn included(r: &mut Report) {
    let dir = r.dir.clone();
    std::fs::create_dir_all(dir.join("sub")).expect("directory");
    let texts = ["    nop", "    nop\n", "", "; nothing\n", "\n    inc 5\n    ret", "%macro q\n    reti\n%end", "    .byte 1, 2 ; two\n\n", "    .include asm \"sub/three.s\"\n    .include asm \"sub/three.s\""];
    let threes = ["    dec 5", "    .text 3 \"a\"\n    pop 7\n"];
    let items = [".include \"one.s\"", ".include asm \"sub/two.s\"", ".include bytes \"d.bin\"", ".include bytes \"e.bin\"", "ret", ""];
    let data: Vec<u8> = (0..=255u8).rev().collect();
    std::fs::write(dir.join("d.bin"), &data).expect("write");
    std::fs::write(dir.join("e.bin"), [0u8; 0]).expect("write");
    let data: Vec<String> = data.iter().map(|b| b.to_string()).collect();
    for (i, one) in texts.iter().enumerate() {
        for (k, two) in texts.iter().enumerate() {
            for three in threes.iter() {
                std::fs::write(dir.join("one.s"), one).expect("write");
                std::fs::write(dir.join("sub/two.s"), two.replace("sub/three", "three")).expect("write");
                std::fs::write(dir.join("sub/three.s"), three).expect("write");
                let inner = |t: &str| if t.contains("three") { format!("{}\n{}", three, three) } else { t.to_string() };
                for n in 0..items.len().pow(4) {
                    let pick: Vec<usize> = (0..4).map(|j| n / items.len().pow(j) % items.len()).collect();
                    // a macro only once
                    let twice = |which: usize, t: &str| t.starts_with('%') && pick.iter().filter(|x| **x == which).count() > 1;
                    if twice(0, one) || twice(1, two) || (i == k && i == 5 && pick.contains(&0) && pick.contains(&1)) {
                        continue;
                    }
                    if !r.thorough && n % 41 != (7 * i + k) % 41 {
                        continue;
                    }
                    let text: Vec<String> = pick.iter().map(|x| format!("    {}", items[*x])).collect();
                    let text = text.join("\n");
                    let want: Vec<String> = pick
                        .iter()
                        .map(|x| match x {
                            0 => inner(one),
                            1 => inner(two),
                            2 => format!("    .byte {}", data.join(", ")),
                            3 => String::new(),
                            _ => format!("    {}", items[*x]),
                        })
                        .collect();
                    let got = assemble_text(&dir, &text);
                    let want = assemble_text(&dir, &want.join("\n"));
                    r.case(&format!("{} {} {} {}", i, k, three, text), got.is_ok());
                    if got != want {
                        r.fail(
                            "included files",
                            format!("{}\n; one.s:\n{}\n; sub/two.s:\n{}\n; sub/three.s:\n{}", text, one, two, three),
                            format!("as with the lines of the files: {}", shown(&want)),
                            shown(&got),
                        );
                    }
                    if r.stop() {
                        return;
                    }
                }
            }
        }
    }
}

/// a file that includes itself is an error, not the end of the assembler
fn circles(r: &mut Report) {
    let dir = r.dir.join("circles");
    std::fs::create_dir_all(dir.join("in")).expect("directory");
    for (n, a, b, c) in [
        (1, ".include \"a.s\"", "nop", "nop"),
        (2, "nop\n.include asm \"in/../a.s\"", "nop", "nop"),
        (3, ".include \"in/b.s\"", ".include \"../a.s\"", "nop"),
        (4, ".include \"in/b.s\"\n ret", "nop\n.include \"c.s\"", "nop\n.include asm \"../in/b.s\""),
        (5, ".include \"in/c.s\"\n.include \"in/b.s\"", ".include \"c.s\"", "nop"),
    ] {
        for (f, t) in [("a.s", a), ("in/b.s", b), ("in/c.s", c)] {
            std::fs::write(dir.join(f), t).expect("write");
        }
        let _ = std::fs::remove_file(dir.join("out"));
        let (code, _, _) = cli(&dir, &["assemble", "a.s", "-o", "out"]);
        let out = std::fs::read(dir.join("out")).ok();
        let want: Option<Vec<u8>> = if n == 5 { Some(vec![0, 0]) } else { None };
        r.case(&format!("circle {}", n), out.is_some());
        if out != want || code >= 128 || code < 0 {
            r.fail(
                "a file that includes itself",
                format!("; a.s:\n{}\n; in/b.s:\n{}\n; in/c.s:\n{}", a, b, c),
                if n == 5 { "2 bytes: 00 00".into() } else { "an error".into() },
                format!("exit {} output {:?}", code, out),
            );
        }
    }
}

/// .include bytes gives the bytes of a file
fn raw(r: &mut Report) {
    let dir = r.dir.clone();
    let mut g = Rng::new(r.seed ^ 77);
    for size in [1usize, 2, 3, 15, 16, 17, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000, 33000] {
        for kind in 0..4 {
            let data: Vec<u8> = (0..size)
                .map(|i| match kind {
                    0 => g.below(256) as u8,
                    1 => i as u8,
                    2 => *g.pick(&[0u8, 10, 13, 0x1a, 0xff, 0x80, 0x22]),
                    _ => 0,
                })
                .collect();
            std::fs::write(dir.join("raw.bin"), &data).expect("write");
            let got = assemble_text(&dir, "    inc 5\n    .include bytes \"raw.bin\"\n    ret\n");
            let mut want = vec![0x62, 5];
            want.extend(&data);
            want.push(0xa0);
            r.case(&format!("bytes {} {}", size, kind), got.is_ok());
            if got != Ok(want.clone()) {
                r.fail("included bytes", format!("{} bytes, {}", size, hex(&data)), shown(&Ok(want)), shown(&got));
            }
        }
    }
}

fn shown(o: &Outcome) -> String {
    crate::vh_core::show(o)
}

pub fn run(r: &mut Report) {
    let p = Parser::create();
    let heads = ["add", "nop", "mov", "bne", "callf", "mac", "equ", ".x", ".byte", ".word", ".org", ".text", ".string", ".cnop", ".BYTE", "5", ":", "%a", "l%", "\"s\""];
    let alpha = [":", "=", "equ", "#", "@R1", ",", "a", "5", "-", "\"s\"", "nop", "%a"];
    let n = if r.thorough { 4 } else { 3 };
    r.rule = format!(
        "files of up to two lines, included in every order; every two of {} words, with some between them; every line of {} first tokens and up to {} more out of {}; random programs of one to four lines, well formed for the most part, through the lexer; \
         non-trivial: there is a statement to read",
        WORDS.len(),
        heads.len(),
        n,
        alpha.len()
    );
    included(r);
    circles(r);
    raw(r);
    for a in WORDS {
        check(r, &p, &[a]);
        for b in WORDS {
            check(r, &p, &[a, b]);
            check(r, &p, &[a, ":", b]);
            check(r, &p, &[a, ":", b, "5"]);
            check(r, &p, &[a, ":", b, "=", "5"]);
            check(r, &p, &[a, "5", b]);
            check(r, &p, &[a, "5", ",", b]);
            check(r, &p, &[a, "=", b]);
            check(r, &p, &[a, "equ", b]);
            if r.stop() {
                return;
            }
        }
    }
    for k in 0..n + 1 {
        each(r, &p, &heads, &alpha, k);
        if r.stop() {
            return;
        }
    }
    // longer ones, of the tokens that lists are made of
    each(r, &p, &["bne", "mac", ".byte", ".word", ".cnop", ".x"], &[",", "a", "5", "#", "@R2", ":"], n + 2);
    if r.stop() {
        return;
    }
    r.sample("every line of up to 4 tokens".into());
    let mut g = Rng::new(r.seed);
    while r.more() {
        let k = 1 + g.below(4);
        let ls: Vec<String> = (0..k).map(|_| some_line(&mut g)).collect();
        let t = ls.join("\n");
        check_text(r, &p, &t);
        for _ in 0..4 {
            let l = some_line(&mut g);
            if let Ok(ts) = lexer::lex_input(&Input::new(FileID::new(7), &l)) {
                let mut types: Vec<TokenType> = ts.iter().map(|t| t.token_type().clone()).filter(|t| *t != TokenType::EOF).collect();
                mutated(&mut g, &mut types);
                if !types.is_empty() {
                    let key = format!("{:?}", types);
                    check_types(r, &p, &key, &types);
                }
            }
        }
        if r.stop() {
            return;
        }
        if r.cases % 1000 == 0 {
            r.sample(t);
        }
    }
}
