//! C12: sprites against a reference packer: pixels given directly and through PNG and GIF files.
use crate::img::{Color, Frame, Image};
use crate::vh_core::*;

fn col(red: u8, green: u8, blue: u8, alpha: u8) -> Color {
    Color { red, green, blue, alpha }
}

/// true, false, or either when the level is exactly half way
fn dark(c: &Color) -> Option<bool> {
    let l = 30 * c.red as u32 + 59 * c.green as u32 + 11 * c.blue as u32;
    if l == 12750 {
        None
    } else {
        Some(l < 12750)
    }
}

fn expected(i: &Image, masked: bool, header: bool) -> Vec<u8> {
    let mut o = vec![];
    for f in i.frames.iter() {
        if header {
            o.push(if f.rows.is_empty() { 0 } else { f.rows[0].len() as u8 });
            o.push(f.rows.len() as u8);
        }
        for mask in [true, false] {
            if mask && !masked {
                continue;
            }
            for row in f.rows.iter() {
                for chunk in row.chunks(8) {
                    let mut b = 0u8;
                    for k in 0..8 {
                        let on = match chunk.get(k) {
                            Some(c) => {
                                if mask {
                                    c.alpha < 128
                                } else {
                                    dark(c).unwrap()
                                }
                            }
                            None => mask,
                        };
                        b = 2 * b + on as u8;
                    }
                    o.push(b);
                }
            }
        }
    }
    o
}

fn same(r: &mut Report, what: &str, input: String, want: Result<Vec<u8>, &str>, got: Outcome) {
    let ok = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(k), Err(g)) => k == g,
        _ => false,
    };
    r.case(&input, want.is_ok());
    r.sample(format!("{}: {}", input, show(&got)));
    if !ok {
        r.fail(what, input, show(&want.map_err(|e| e.to_owned())), show(&got));
    }
}

fn text(i: &Image) -> String {
    let mut s = String::new();
    for f in i.frames.iter() {
        s.push_str(&format!("frame of {} rows:", f.rows.len()));
        for row in f.rows.iter().take(20) {
            s.push_str(&format!(
                " [{}]",
                row.iter().take(40).map(|c| format!("{:02x}{:02x}{:02x}{:02x}", c.red, c.green, c.blue, c.alpha)).collect::<Vec<_>>().join(" ")
            ));
        }
    }
    s
}

fn direct(r: &mut Report, i: &Image, masked: bool, header: bool) {
    let want = expected(i, masked, header);
    let got = match guarded(|| crate::asm::assemble(&i.to_1bit_asm(masked, header)).map_err(|e| kind(&e))) {
        Ok(x) => x,
        Err(p) => Err(p),
    };
    same(r, "sprite", format!("masked {} header {} {}", masked, header, text(i)), Ok(want), got);
}

pub fn png(path: &std::path::Path, f: &Frame) {
    let w = if f.rows.is_empty() { 0 } else { f.rows[0].len() };
    let mut b = image::RgbaImage::new(w as u32, f.rows.len() as u32);
    for (y, row) in f.rows.iter().enumerate() {
        for (x, c) in row.iter().enumerate() {
            b.put_pixel(x as u32, y as u32, image::Rgba([c.red, c.green, c.blue, c.alpha]));
        }
    }
    b.save(path).expect("write png");
}

/// an indexed-colour GIF with the given frames, without compression
pub fn gif(path: &std::path::Path, w: usize, h: usize, frames: &[Frame]) {
    // the writer of the image crate quantizes; few colours stay exact
    let f = std::fs::File::create(path).expect("gif");
    let mut e = image::codecs::gif::GifEncoder::new(f);
    for fr in frames {
        let mut b = image::RgbaImage::new(w as u32, h as u32);
        for (y, row) in fr.rows.iter().enumerate() {
            for (x, c) in row.iter().enumerate() {
                b.put_pixel(x as u32, y as u32, image::Rgba([c.red, c.green, c.blue, c.alpha]));
            }
        }
        e.encode_frame(image::Frame::new(b)).expect("frame");
    }
}

/// two data directives around the sprite
fn through_file(r: &mut Report, name: &str, img: &Image, masked: bool, header: Option<bool>) {
    let mut opts = vec![];
    if masked || img.frames.len() > 1 {
        opts.push(format!("type=\"{}\"", if masked { "masked" } else { "simple" }));
    }
    if let Some(h) = header {
        opts.push(format!("header=\"{}\"", if h { "yes" } else { "no" }));
    }
    let src = format!("    .byte 170\n    .include sprite \"{}\" {}\n    .byte 85\nend_of:\n    .word end_of\n", name, opts.join(", "));
    let head = header.unwrap_or(true);
    let w = img.frames[0].width();
    let h = img.frames[0].height();
    let want = if head && w > 255 {
        Err("SpriteTooWide")
    } else if head && h > 255 {
        Err("SpriteTooTall")
    } else {
        let mut o = vec![170u8];
        o.extend(expected(img, masked, head));
        o.push(85);
        let n = o.len();
        o.push((n % 256) as u8);
        o.push((n / 256) as u8);
        Ok(o)
    };
    let dir = r.dir.clone();
    let got = assemble_text(&dir, &src);
    let input = format!("{} with {} {}x{}: {}", src, name, w, h, text(img).chars().take(600).collect::<String>());
    same(r, "included sprite", input, want, got);
}

fn levels() -> Vec<Color> {
    let mut v = vec![];
    for (a, b, c) in [(127, 127, 127), (128, 128, 128), (126, 126, 126), (129, 129, 129), (255, 86, 0), (255, 87, 0), (0, 216, 0), (0, 217, 0), (0, 215, 5)] {
        for al in [0u8, 1, 126, 127, 128, 129, 254, 255] {
            v.push(col(a, b, c, al));
        }
    }
    for al in [0u8, 127, 128, 255] {
        v.push(col(0, 0, 0, al));
        v.push(col(255, 255, 255, al));
    }
    v.into_iter().filter(|c| dark(c).is_some()).collect()
}

fn random(g: &mut Rng, w: usize, h: usize, pal: &[Color]) -> Frame {
    let mode = g.below(3);
    let rows = (0..h)
        .map(|_| {
            (0..w)
                .map(|_| loop {
                    let c = match mode {
                        0 => *g.pick(pal),
                        1 => {
                            let x = g.below(256) as u8;
                            col(x, x, x, g.below(256) as u8)
                        }
                        _ => col(g.below(256) as u8, g.below(256) as u8, g.below(256) as u8, g.below(256) as u8),
                    };
                    if dark(&c).is_some() {
                        break c;
                    }
                })
                .collect()
        })
        .collect();
    Frame { delay: (0, 0), rows }
}

pub fn run(r: &mut Report) {
    r.rule = "the gray level of all 16777216 colours; every width from 1 to 41 with single set pixels and random ones, masked and \
              not, with and without header; PNG and GIF files through .include, up to sizes around 255; non-trivial when it assembles"
        .into();
    // the assumed contract of Color::grayscale, over its whole domain
    for n in 0..1u32 << 24 {
        let c = col((n >> 16) as u8, (n >> 8) as u8, n as u8, (n ^ (n >> 9)) as u8);
        let g = c.grayscale();
        let l = 30 * c.red as u32 + 59 * c.green as u32 + 11 * c.blue as u32;
        let x = g.red as u32;
        if !(x == (l + 50) / 100 || (l % 100 == 50 && x == l / 100)) || g.green != g.red || g.blue != g.red || g.alpha != c.alpha {
            r.fail("gray level", format!("{:?}", c), format!("{}/100 rounded", l), format!("{:?}", g));
            return;
        }
    }
    r.case("grayscale of all colours", true);
    for a in 0..=255u8 {
        let t = col(9, 200, 3, a).transparency();
        if (t == 1) != (a < 128) || t > 1 {
            r.fail("transparency", format!("alpha {}", a), format!("{}", (a < 128) as u8), format!("{}", t));
            return;
        }
    }
    let mut g = Rng::new(r.seed);
    let pal = levels();
    let one = |f: Frame| Image { frames: vec![f] };
    for w in 1..=41usize {
        for p in 0..w {
            for (fg, bg) in [(col(0, 0, 0, 0), col(255, 255, 255, 255)), (col(255, 255, 255, 255), col(0, 0, 0, 0)), (col(0, 0, 0, 255), col(255, 255, 255, 0))] {
                let rows = vec![(0..w).map(|x| if x == p { fg } else { bg }).collect::<Vec<_>>()];
                let i = one(Frame { delay: (0, 0), rows });
                direct(r, &i, true, p % 2 == 0);
                direct(r, &i, false, p % 2 == 1);
                if !r.more() {
                    return;
                }
            }
        }
    }
    for n in 0..200 {
        let (w, h) = (1 + g.below(40), 1 + g.below(12));
        let frames = (0..1 + n % 3).map(|_| random(&mut g, w, h, &pal)).collect();
        let i = Image { frames };
        for m in [false, true] {
            for hd in [false, true] {
                direct(r, &i, m, hd);
            }
        }
        if !r.more() {
            return;
        }
    }
    // through files
    let mut sizes: Vec<(usize, usize)> = vec![(1, 1), (8, 1), (9, 2), (255, 2), (256, 2), (2, 255), (2, 256), (257, 1), (1, 257), (255, 255), (256, 256), (300, 3), (3, 511), (512, 1)];
    for _ in 0..if r.thorough { 300 } else { 40 } {
        sizes.push((1 + g.below(60), 1 + g.below(20)));
    }
    let dir = r.dir.clone();
    for (w, h) in sizes {
        let i = one(random(&mut g, w, h, &pal));
        png(&dir.join("s.png"), &i.frames[0]);
        for m in [false, true] {
            for hd in [None, Some(true), Some(false)] {
                through_file(r, "s.png", &i, m, hd);
            }
        }
        if !r.more() {
            return;
        }
    }
    let bw = [col(0, 0, 0, 255), col(255, 255, 255, 255)];
    for n in 1..4 {
        let (w, h) = (3 + g.below(20), 2 + g.below(6));
        let frames: Vec<Frame> = (0..n)
            .map(|_| Frame { delay: (0, 0), rows: (0..h).map(|_| (0..w).map(|_| *g.pick(&bw)).collect()).collect() })
            .collect();
        gif(&dir.join("s.gif"), w, h, &frames);
        through_file(r, "s.gif", &Image { frames }, n == 2, Some(n != 3));
    }
    std::fs::write(dir.join("e.gif"), b"GIF89a\x10\0\x10\0\x80\0\0\0\0\0\xff\xff\xff\x3b\0\0\0\0\0\0\0\0").unwrap();
    for src in ["    .include sprite \"e.gif\"\n", "    .include sprite \"e.gif\" header=\"no\"\n"] {
        let got = assemble_text(&dir, src);
        same(r, "no frames", src.to_owned(), Err("ImageParseError"), got);
    }
    while r.thorough && r.more() {
        let (w, h) = (1 + g.below(100), 1 + g.below(30));
        let frames = (0..1 + g.below(4)).map(|_| random(&mut g, w, h, &pal)).collect();
        let i = Image { frames };
        direct(r, &i, g.chance(1, 2), g.chance(1, 2));
    }
}
