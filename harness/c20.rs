//! C20: a source text is cut into tokens from its beginning to its end.
use crate::files::FileID;
use crate::input::Input;
use crate::lexer::{LexerError, Token, TokenType};
use crate::parser::ParseError;
use crate::vh_core::*;
use std::sync::mpsc;
use std::time::Duration;

#[derive(PartialEq, Debug, Clone)]
enum Want {
    /// kind, first byte, end, line of both
    Tokens(Vec<(String, usize, usize, usize, usize)>),
    Error(usize, usize),
}

fn word(s: &str) -> usize {
    let mut n = 0;
    for (i, c) in s.char_indices() {
        let ok = c.is_ascii_alphabetic() || c == '_' || c == '.' || (i > 0 && (c.is_ascii_digit() || c == '$'));
        if !ok {
            break;
        }
        n = i + 1;
    }
    n
}

/// digits with ' between them: length and whether the number fits
fn digits(s: &str, radix: u32) -> Option<(usize, bool)> {
    let b = s.as_bytes();
    let digit = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(radix));
    digit(0)?;
    let (mut k, mut v) = (0, 0u128);
    loop {
        if let Some(d) = digit(k) {
            v = (v * radix as u128 + d as u128).min(1 << 100);
            k += 1;
        } else if b.get(k) == Some(&b'\'') && digit(k + 1).is_some() {
            k += 1;
        } else {
            return Some((k, v <= 0x7fff_ffff));
        }
    }
}

/// the token at the beginning of s: kind and length
fn token(s: &str) -> Option<(String, usize)> {
    let c = s.chars().next()?;
    let is = |k: &str, n: usize| Some((k.to_owned(), n));
    if c == '%' && word(&s[1..]) > 0 {
        return is("MacroIdent", 1 + word(&s[1..]));
    }
    let w = word(s);
    if w > 0 && s[w..].starts_with('%') {
        return is("MacroLabel", w + 1);
    }
    if s.starts_with("::") {
        return is("DoubleColon", 2);
    }
    let one = [
        ('(', "LeftParen"), (')', "RightParen"), ('#', "Hash"), (',', "Comma"), (':', "Colon"), ('=', "Equals"), ('+', "Plus"),
        ('*', "Times"), ('-', "Minus"), ('/', "Divide"), ('&', "Ampersand"), ('|', "Pipe"), ('^', "Caret"), ('>', "UpperByte"),
        ('<', "LowerByte"),
    ];
    if let Some(x) = one.iter().find(|x| x.0 == c) {
        return is(x.1, 1);
    }
    if c == '"' {
        let mut esc = false;
        for (i, d) in s.char_indices().skip(1) {
            if esc {
                if d == '\n' {
                    return None;
                }
                esc = false;
            } else if d == '\\' {
                esc = true;
            } else if d == '"' {
                return is("String", i + 1);
            }
        }
        return None;
    }
    if c == '@' {
        let b = s.as_bytes();
        if b.len() > 2 && (b[1] == b'r' || b[1] == b'R') && (b'0'..b'4').contains(&b[2]) {
            return Some((format!("R{}", b[2] as char), 3));
        }
        return None;
    }
    if w > 0 {
        return is("Name", w);
    }
    let lower = s.get(..2).unwrap_or("").to_ascii_lowercase();
    let tries: [(bool, usize, u32); 6] =
        [(c == '$', 1, 16), (lower == "0o", 2, 8), (lower == "0x", 2, 16), (c == '%', 1, 2), (lower == "0b", 2, 2), (true, 0, 10)];
    for (go, skip, radix) in tries.iter() {
        if *go {
            if let Some((n, fits)) = digits(&s[*skip..], *radix) {
                return if fits { is("Number", skip + n) } else { None };
            }
        }
    }
    None
}

fn eol(s: &str, from: usize) -> usize {
    let b = s.as_bytes();
    (from..b.len()).find(|k| b[*k] == b'\n' || (b[*k] == b'\r' && b.get(k + 1) == Some(&b'\n'))).unwrap_or(b.len())
}

fn skip(s: &str, mut p: usize, c: bool) -> usize {
    loop {
        let q = p;
        while let Some(x) = s[p..].chars().next() {
            if !x.is_whitespace() {
                break;
            }
            p += x.len_utf8();
        }
        let r = &s[p..];
        if c && r.starts_with("//") {
            p = eol(s, p);
        } else if c && r.starts_with("/*") {
            p = r[2..].find("*/").map(|k| p + 2 + k + 2).unwrap_or(s.len());
        } else if !c && (r.starts_with(';') || (r.starts_with('*') && (p == 0 || s.as_bytes()[p - 1] == b'\n'))) {
            p = eol(s, p);
        }
        if p == q {
            return p;
        }
    }
}

fn reference(s: &str, c: bool) -> Want {
    let line = |p: usize| 1 + s[..p].bytes().filter(|b| *b == b'\n').count();
    let mut out = vec![];
    let mut p = 0;
    loop {
        p = skip(s, p, c);
        if p == s.len() {
            return Want::Tokens(out);
        }
        match token(&s[p..]) {
            Some((k, n)) => {
                out.push((k, p, p + n, line(p), line(p + n)));
                p += n;
            }
            None => return Want::Error(p, line(p)),
        }
    }
}

fn name(t: &Token) -> String {
    let s = format!("{:?}", t.token_type());
    s.split('(').next().unwrap().to_owned()
}

fn real(s: &str, c: bool) -> Want {
    let input = Input::new(FileID::new(7), s);
    let r = if c {
        crate::cheader::lex_input(&input).map_err(|e| match e {
            ParseError::UnexpectedChar(l) => Some(l),
            _ => None,
        })
    } else {
        crate::lexer::lex_input(&input).map_err(|LexerError::UnexpectedChar(l)| Some(l))
    };
    match r {
        Ok(ts) => {
            let mut v: Vec<_> = ts
                .iter()
                .map(|t| (name(t), t.span().start().pos(), t.span().end().pos(), t.span().start().line(), t.span().end().line()))
                .collect();
            match v.pop() {
                Some(x) if x.0 == "EOF" => Want::Tokens(v),
                x => Want::Tokens(x.into_iter().chain(v).chain(vec![("no end of file".to_owned(), 0, 0, 0, 0)]).collect()),
            }
        }
        Err(Some(l)) => Want::Error(l.pos(), l.line()),
        Err(None) => Want::Error(usize::MAX, 0),
    }
}

/// None if it does not end
fn bounded(s: &str, c: bool) -> Option<Result<Want, String>> {
    let (tx, rx) = mpsc::channel();
    let t = s.to_owned();
    std::thread::spawn(move || {
        let _ = tx.send(guarded(|| real(&t, c)));
    });
    rx.recv_timeout(Duration::from_secs(8)).ok()
}

fn check(r: &mut Report, s: &str, c: bool) -> bool {
    let want = reference(s, c);
    let got = bounded(s, c);
    r.case(&format!("{}{}", c, s), matches!(&want, Want::Tokens(t) if t.len() > 1));
    if let Want::Tokens(t) = &want {
        if t.len() == 4 {
            r.sample(format!("{:?}: {:?}", s, t));
        }
    }
    if !matches!(&got, Some(Ok(x)) if *x == want) {
        let kind = if c { "C header" } else { "assembly" };
        r.fail("tokens", format!("{} text {:?}", kind, s), format!("{:?}", want), match &got { None => "it does not end".to_owned(), Some(x) => format!("{:?}", x) });
    }
    got.is_some()
}

pub fn run(r: &mut Report) {
    r.rule = "random sequences of tokens, white space, comments, line ends, combining characters and odd characters, read as assembly \
              and as a C header, against a lexer written by hand; all pairs of such pieces; non-trivial: at least two tokens"
        .into();
    let pieces = [
        "", " ", "\t", "\n", "\r\n", "\r", "\u{a0}", "\u{2028}", "\u{85}", ";", "; a ; b\n", ";é😀\r\n", "*", "*x\n", "* é\r\n", "//", "// x\n", "//\r\n", "/*", "*/", "/* a\n b */", "/*/", "/**/",
        "/* \u{301}*/", "\u{301}", "\u{200d}", "\u{fe0f}", "é", "!", "'", "\\", "@", "@r", "@R0", "@r3", "@r4", "%", "%a", "%1", "%0'1", "a%", "a.b$c%", "a", ".byte", "_$", "$", "$f", "$F'f", "$g", "$80000000",
        "0", "0x", "0X1f", "0b", "0B1", "0b2", "0o", "0O17", "0o8", "9'9", "9'", "2147483647", "2147483648", "9999999999", "(", ")", ",", ":", "::", ":::", "=", "+", "-", "/", "&", "|", "^", ">", "<", "\"", "\"a\"",
        "\"\\\"\"", "\"\\\n\"", "\"a\nb\"", "\"é\u{301}\"", "\"\\", "\"\\é\"", "\u{301}\n", "a\u{301}", "k\u{200d}", "\r\n\u{301}", "\u{1f1e9}\u{1f1ea}", "x\u{327}\u{301}", "\u{0}", "\u{feff}",
    ];
    // in a C header, a line that begins with # is read in another way; the pieces have no #
    for c in [false, true] {
        for a in pieces {
            for b in pieces {
                if !check(r, &format!("{}{}", a, b), c) || r.stop() {
                    return;
                }
            }
        }
    }
    if !check(r, "# #1 (", false) {
        return;
    }
    let mut g = Rng::new(r.seed);
    let n = if r.thorough { 2_000_000 } else { 60_000 };
    for _ in 0..n {
        let k = 1 + g.below(9);
        let mut s = String::new();
        // text that is mostly good, so that it goes on
        let wild = g.chance(1, 3);
        for _ in 0..k {
            let p = *g.pick(&pieces);
            if wild || (!matches!(reference(p, false), Want::Error(..)) && !p.contains('"')) || g.chance(1, 12) {
                s.push_str(p);
                if g.chance(1, 2) {
                    s.push_str(*g.pick(&[" ", "\n", "\r\n", " \t", ""]));
                }
            }
        }
        let c = g.chance(1, 2);
        if !check(r, &s, c) || r.stop() || !r.more() {
            return;
        }
    }
}
