//! C16: the line shown in an error message, and the grouping of tokens into lines.
use crate::files::FileID;
use crate::lexer::{Token, TokenType};
use crate::location::{Location, Span};
use crate::vh_core::*;

fn line_of(text: &str, pos: usize) -> &str {
    let b = text.as_bytes();
    let mut a = pos;
    while a > 0 && b[a - 1] != b'\n' {
        a -= 1;
    }
    let mut z = pos;
    while z < b.len() && b[z] != b'\n' && !(b[z] == b'\r' && b.get(z + 1) == Some(&b'\n')) {
        z += 1;
    }
    &text[a..z]
}

fn message(r: &mut Report, text: &str, pos: usize) {
    std::fs::write(r.dir.join("case.s"), text).unwrap();
    let (rc, _, err) = cli(&r.dir.clone(), &["assemble", "case.s", "-o", "out.bin"]);
    let err = String::from_utf8_lossy(&err).into_owned();
    let line = line_of(text, pos);
    let want = format!("\n  {}\n", line);
    // the line after the one that names the file
    let shown = err.find("\ncase.s:").map(|i| i + 1).and_then(|i| err[i..].find('\n').map(|k| err[i + k..].to_owned()));
    let ok = rc == 1 && shown.as_ref().map(|s| s.starts_with(&want)).unwrap_or(false);
    r.case(text, !line.is_empty());
    r.sample(format!("{:?} at {}: {:?}", text, pos, line));
    if !ok {
        r.fail(
            "line of a message",
            format!("{:?}, error at byte {}", text, pos),
            format!("the line {:?}", line),
            format!("exit code {}, message {:?}", rc, err),
        );
    }
}

/// a token on lines `a` to `b` of file `f`
fn tok(n: usize, a: usize, b: usize, f: usize) -> Token {
    let l = |pos, line| Location::new(FileID::new(f), pos, line, 0);
    Token::new(TokenType::Name(format!("t{}", n)), Span::new(l(2 * n, a), l(2 * n + 1, b)))
}

fn grouped(r: &mut Report, spec: &[(usize, usize, usize)]) {
    let tokens: Vec<Token> = spec.iter().enumerate().map(|(n, (a, b, f))| tok(n, *a, *b, *f)).collect();
    let mut want: Vec<Vec<Token>> = vec![];
    let mut last: Option<usize> = None;
    for (n, t) in tokens.iter().enumerate() {
        let same = match last {
            Some(first) => spec[first].1 == spec[n].0 && spec[first].2 == spec[n].2,
            None => false,
        };
        if same {
            want.last_mut().unwrap().push(t.clone());
        } else {
            want.push(vec![t.clone()]);
            last = Some(n);
        }
    }
    let got = guarded(|| crate::parser::lines(&tokens).take(tokens.len() + 1).map(|g| g.to_vec()).collect::<Vec<_>>());
    let show = |g: &Vec<Vec<Token>>| {
        g.iter().map(|x| x.iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" / ")
    };
    let input = format!("tokens (first line, last line, file): {:?}", spec);
    r.case(&input, want.len() > 1);
    if got.as_ref().ok() != Some(&want) {
        r.fail("groups", input, show(&want), got.map(|g| show(&g)).unwrap_or_else(|e| e));
    }
}

pub fn run(r: &mut Report) {
    r.rule = "all sequences of up to four tokens on up to three lines of two files; programs with an error between all \
              combinations of line ends, blanks and comments, compiled by the command line; non-trivial: several groups, a line \
              that is not empty"
        .into();
    let mut one = vec![];
    for a in 1..4usize {
        for b in a..4usize {
            for f in 0..2usize {
                one.push((a, b, f));
            }
        }
    }
    grouped(r, &[]);
    for x in &one {
        grouped(r, &[*x]);
        for y in &one {
            grouped(r, &[*x, *y]);
            for z in &one {
                grouped(r, &[*x, *y, *z]);
                if r.thorough || x.0 == 1 {
                    for w in &one {
                        grouped(r, &[*x, *y, *z, *w]);
                    }
                }
            }
        }
        if !r.more() {
            return;
        }
    }
    let mut g = Rng::new(r.seed);
    for _ in 0..2000 {
        let n = g.below(30);
        let mut l = 1;
        let s: Vec<_> = (0..n)
            .map(|_| {
                l += g.below(5) / 3;
                let e = l + g.below(6) / 5;
                (l, e, g.below(12) / 11)
            })
            .collect();
        grouped(r, &s);
    }
    // messages
    let before = ["", " ", "\n", "\r\n", "\r", ";é\n", " nop ; é€😀\r\n", " .byte \"a\nb\"\n", "*\n"];
    // the error is at the bar
    let core = ["|x", " .byte |nope", " .byte 1, |nope + 2", " mov #|nope, 3", "\t.word |nope", " .byte \"é\" |.byte", " .org |\"a\nb\"", " .byte \"a\r\nb\"|, 3"];
    let after = ["", " ", "\n", "\r\n", "\r", ";é", "\n\n", "\r\n nop\r\n", " ; a\rb\r\n", "\n;\n"];
    let mut case = |r: &mut Report, a: &str, b: &str, c: &str, d: &str, e: &str| {
        let text = format!("{}{}{}{}{}", a, b, c.replace("|", ""), d, e);
        let comment = |s: &str| s.rsplit('\n').next().unwrap().contains(';');
        // an error inside a comment line, or a second statement on a line, is another program
        let star = b.starts_with('*') && !(a.is_empty() || a.ends_with('\n'));
        if star || comment(&format!("{}{}", a, b)) || format!("{}{}", a, b).ends_with('"') {
            return;
        }
        let pos = a.len() + b.len() + c.find('|').unwrap();
        message(r, &text, pos);
    };
    for a in before {
        for c in core {
            for d in after {
                case(r, a, "", c, d, "");
                if !r.more() {
                    return;
                }
            }
        }
    }
    for _ in 0..if r.thorough { 20000 } else { 400 } {
        let (a, b, c) = (*g.pick(&before), *g.pick(&before), *g.pick(&core));
        let (d, e) = (*g.pick(&after), *g.pick(&after));
        case(r, a, b, c, d, e);
        if !r.more() {
            return;
        }
    }
    // the end of the file
    for a in before {
        for c in [" .byte (1", " .text", " .byte 1 +"] {
            let text = format!("{}{}", a, c);
            if c == " .text" {
                continue;
            }
            message(r, &text, text.len());
        }
    }
}
