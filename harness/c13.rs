//! C13: icons and eyecatches through files; every pixel is looked up in the palette that was written.
use crate::img::{Color, Frame};
use crate::vh_core::*;
use std::collections::HashSet;

type Px = [u8; 4];

fn four(x: u8) -> u32 {
    (2 * x as u32 + 17) / 34
}
fn word(c: &Px) -> u32 {
    four(c[3]) * 4096 + four(c[0]) * 256 + four(c[1]) * 16 + four(c[2])
}

#[derive(Clone)]
struct Pic {
    w: usize,
    h: usize,
    frames: Vec<Vec<Px>>,
}

impl Pic {
    fn colors(&self, n: usize) -> usize {
        let mut s = HashSet::new();
        for f in self.frames.iter().take(n) {
            for p in f.iter() {
                s.insert(word(p));
            }
        }
        s.len()
    }
    fn save(&self, path: &std::path::Path) {
        if self.frames.len() > 1 || path.extension().map(|e| e == "gif").unwrap_or(false) {
            let f = std::fs::File::create(path).expect("gif");
            let mut e = image::codecs::gif::GifEncoder::new(f);
            for fr in self.frames.iter() {
                let mut b = image::RgbaImage::new(self.w as u32, self.h as u32);
                for (i, c) in fr.iter().enumerate() {
                    b.put_pixel((i % self.w) as u32, (i / self.w) as u32, image::Rgba(*c));
                }
                e.encode_frame(image::Frame::new(b)).expect("frame");
            }
        } else {
            let mut b = image::RgbaImage::new(self.w as u32, self.h as u32);
            for (i, c) in self.frames[0].iter().enumerate() {
                b.put_pixel((i % self.w) as u32, (i / self.w) as u32, image::Rgba(*c));
            }
            b.save(path).expect("png");
        }
    }
    fn text(&self) -> String {
        format!(
            "{}x{}, {} frames, {} colours, first pixels {:?}",
            self.w,
            self.h,
            self.frames.len(),
            self.colors(self.frames.len()),
            &self.frames[0][..self.frames[0].len().min(8)]
        )
    }
}

fn w16(b: &[u8], at: usize) -> u32 {
    b[at] as u32 + 256 * b[at + 1] as u32
}

/// palette and pixels at `at`; the position behind them, or what is wrong
fn coded(b: &[u8], mut at: usize, p: &Pic, frames: usize, slots: usize) -> Result<usize, String> {
    let pal = at;
    let total = p.w * p.h;
    at += 2 * slots;
    let size = match slots {
        16 => total / 2,
        256 => total,
        _ => 2 * total,
    };
    if b.len() < at + frames * size {
        return Err(format!("only {} bytes", b.len()));
    }
    for f in 0..frames {
        for i in 0..total {
            let got = match slots {
                16 => {
                    let x = b[at + i / 2];
                    let n = if i % 2 == 0 { x >> 4 } else { x & 15 };
                    w16(b, pal + 2 * n as usize)
                }
                256 => w16(b, pal + 2 * b[at + i] as usize),
                _ => w16(b, at + 2 * i),
            };
            let want = word(&p.frames[f][i]);
            if got != want {
                return Err(format!("frame {} pixel {},{} is {:04x}, want {:04x}", f, i % p.w, i / p.w, got, want));
            }
        }
        at += size;
    }
    Ok(at)
}

fn judge(b: &[u8], icon: &Pic, eye: Option<&Pic>, speed: u32) -> Result<(), String> {
    let etype = match eye {
        None => 0,
        Some(e) => match e.colors(1) {
            0..=16 => 3,
            17..=256 => 2,
            _ => 1,
        },
    };
    if b.len() < 32 {
        return Err(format!("only {} bytes", b.len()));
    }
    let mut head = vec![icon.frames.len() as u8, (icon.frames.len() / 256) as u8, speed as u8, (speed / 256) as u8, etype, 0];
    head.resize(32, 0);
    if b[..32] != head[..] {
        return Err(format!("head {} instead of {}", hex(&b[..32]), hex(&head)));
    }
    let mut at = coded(b, 32, icon, icon.frames.len(), 16)?;
    if let Some(e) = eye {
        at = coded(b, at, e, 1, match etype { 3 => 16, 2 => 256, _ => 0 })?;
    }
    if at != b.len() {
        return Err(format!("{} bytes instead of {}", b.len(), at));
    }
    Ok(())
}

fn check(r: &mut Report, icon: &Pic, gif: bool, eye: Option<&Pic>, speed: Option<u32>) {
    let dir = r.dir.clone();
    let name = if gif || icon.frames.len() > 1 { "i.gif" } else { "i.png" };
    icon.save(&dir.join(name));
    let mut opts = vec![];
    if let Some(s) = speed {
        opts.push(format!("speed={}", s));
    }
    if let Some(e) = eye {
        let n = if e.frames.len() > 1 { "e.gif" } else { "e.png" };
        e.save(&dir.join(n));
        opts.push(format!("eyecatch=\"{}\"", n));
    }
    let src = format!("    .include icon \"{}\" {}\n", name, opts.join(", "));
    let got = assemble_text(&dir, &src);
    let want: Vec<&str> = {
        let mut v = vec![];
        if icon.colors(icon.frames.len()) > 16 {
            v.push("InvalidPaletteSize");
        }
        if (icon.w, icon.h) != (32, 32) || eye.map(|e| (e.w, e.h) != (72, 56)).unwrap_or(false) {
            v.push("InvalidIconSize");
        }
        v
    };
    let what = match (&got, want.is_empty()) {
        (Ok(b), true) => judge(b, icon, eye, speed.unwrap_or(10)).err(),
        (Err(e), false) if want.contains(&e.as_str()) => None,
        (x, _) => Some(show(x)),
    };
    let input = format!("{} icon {}; eyecatch {}", src.trim(), icon.text(), eye.map(|e| e.text()).unwrap_or("none".into()));
    r.case(&format!("{}{}", input, r.cases), got.is_ok());
    r.sample(format!("{}: {}", input, show(&got).chars().take(200).collect::<String>()));
    if let Some(w) = what {
        r.fail("icon", input, if want.is_empty() { "every pixel keeps its colour".into() } else { format!("error {:?}", want) }, w);
    }
}

/// n colours that differ in four bits per channel
fn palette(g: &mut Rng, n: usize, opaque: bool) -> Vec<Px> {
    let mut v: Vec<Px> = vec![];
    let mut s = HashSet::new();
    while v.len() < n {
        let c = if opaque {
            [g.below(256) as u8, g.below(256) as u8, g.below(256) as u8, 255]
        } else {
            [g.below(256) as u8, g.below(256) as u8, g.below(256) as u8, g.below(256) as u8]
        };
        if s.insert(word(&c)) {
            v.push(c);
        }
    }
    v
}

/// a picture that has all these colours
fn pic(g: &mut Rng, w: usize, h: usize, frames: usize, pal: &[Px], wobble: bool) -> Pic {
    let mut fs = vec![];
    for f in 0..frames {
        let mut px: Vec<Px> = (0..w * h).map(|_| *g.pick(pal)).collect();
        if f == 0 {
            for (i, c) in pal.iter().enumerate() {
                if i < px.len() {
                    px[i] = *c;
                }
            }
            for i in (1..px.len()).rev() {
                let j = g.below(i + 1);
                px.swap(i, j);
            }
        }
        if wobble {
            // other colours with the same four bits
            for p in px.iter_mut() {
                let old = word(p);
                let k = g.below(4);
                let o = *p;
                p[k] = p[k].wrapping_add(g.below(9) as u8).wrapping_sub(4);
                if word(p) != old {
                    *p = o;
                }
            }
        }
        fs.push(px);
    }
    Pic { w, h, frames: fs }
}

pub fn run(r: &mut Report) {
    r.rule = "icons of 1 to 17 colours and more, still and animated, with eyecatches of 1 to 4032 colours and wrong sizes, written as \
              PNG and GIF files and included; every pixel looked up in the written palette; non-trivial when it assembles"
        .into();
    // the contract that Kani proves of Color::scale_channels, once more on the built code
    for x in 0..=255u8 {
        let c = Color { red: x, green: x.wrapping_add(1), blue: 255 - x, alpha: x ^ 0x55 }.scale_channels(15);
        let want = (four(x), four(x.wrapping_add(1)), four(255 - x), four(x ^ 0x55));
        let got = (c.red as u32, c.green as u32, c.blue as u32, c.alpha as u32);
        if got != want {
            r.fail("scale_channels", format!("{}", x), format!("{:?}", want), format!("{:?}", got));
            return;
        }
    }
    for n in 0..65536u32 {
        let c = Color { red: (n >> 8 & 15) as u8, green: (n >> 4 & 15) as u8, blue: (n & 15) as u8, alpha: (n >> 12) as u8 };
        if c.to_palette_color() as u32 != n {
            r.fail("to_palette_color", format!("{:?}", c), format!("{}", n), format!("{}", c.to_palette_color()));
            return;
        }
    }
    let mut g = Rng::new(r.seed);
    let base = palette(&mut g, 5, false);
    let plain = pic(&mut g, 32, 32, 1, &base, false);
    for n in (1..=20).chain([40, 255, 256, 257, 1000]) {
        for k in 0..3 {
            let p = palette(&mut g, n, k == 2);
            let i = pic(&mut g, 32, 32, 1, &p, k == 1);
            check(r, &i, k == 2, None, if k == 0 { None } else { Some(*g.pick(&[0u32, 1, 9, 10, 255, 256, 65535])) });
            if !r.more() {
                return;
            }
        }
    }
    for frames in 2..=6 {
        for n in [2usize, 3, 9, 15, 16, 17] {
            let p = palette(&mut g, n, true);
            let i = pic(&mut g, 32, 32, frames, &p, false);
            check(r, &i, true, None, Some(frames as u32));
        }
    }
    for n in [1usize, 2, 15, 16, 17, 18, 100, 255, 256, 257, 300, 4032] {
        for k in 0..2 {
            let p = palette(&mut g, n, false);
            let e = pic(&mut g, 72, 56, 1, &p, k == 1);
            check(r, &plain, false, Some(&e), None);
            if !r.more() {
                return;
            }
        }
    }
    // only the first frame of an eyecatch counts
    let p = palette(&mut g, 14, true);
    let e = pic(&mut g, 72, 56, 3, &p, false);
    check(r, &plain, false, Some(&e), Some(3));
    for (w, h) in [(31, 32), (32, 31), (33, 32), (32, 33), (64, 64), (1, 1), (16, 64), (64, 16), (72, 56), (8, 128), (32, 64), (32, 1)] {
        for n in [1usize, 4, 16, 17] {
            let p = palette(&mut g, n, false);
            let i = pic(&mut g, w, h, 1, &p, false);
            check(r, &i, false, None, None);
        }
    }
    for (w, h) in [(32, 32), (71, 56), (73, 56), (72, 55), (72, 57), (56, 72), (144, 28), (36, 112), (72, 1), (1, 56)] {
        for n in [3usize, 17, 300] {
            let p = palette(&mut g, n, false);
            let e = pic(&mut g, w, h, 1, &p, false);
            check(r, &plain, false, Some(&e), None);
        }
    }
    // the packing on its own, for any even width and any palette
    while r.more() {
        let n = *g.pick(&[1usize, 2, 3, 7, 15, 16, 17, 31, 255, 256, 257, 400]);
        let (w, h) = (2 * (1 + g.below(24)), 1 + g.below(20));
        let p: Vec<Px> = (0..n).map(|i| [(i % 16) as u8, (i / 16 % 16) as u8, (i / 256) as u8, 15]).collect();
        let frames = 1 + g.below(3);
        let q = pic(&mut g, w, h, frames, &p, false);
        let image = crate::img::Image {
            frames: q
                .frames
                .iter()
                .map(|f| Frame {
                    delay: (0, 0),
                    rows: f.chunks(w).map(|r| r.iter().map(|c| Color { red: c[0], green: c[1], blue: c[2], alpha: c[3] }).collect()).collect(),
                })
                .collect(),
        };
        let got = match guarded(|| crate::asm::assemble(&image.to_icon(&image.get_palette(), "x")).map_err(|e| kind(&e))) {
            Ok(x) => x,
            Err(p) => Err(p),
        };
        let count = q.frames.iter().flatten().collect::<HashSet<_>>().len();
        let slots = if count <= 16 { 16 } else if count <= 256 { 256 } else { 0 };
        // the colours are in four bits already: undo the reduction of the judge
        let mut z = q.clone();
        for f in z.frames.iter_mut() {
            for c in f.iter_mut() {
                for k in 0..4 {
                    c[k] *= 17;
                }
            }
        }
        let res = match &got {
            Ok(b) => coded(b, 0, &z, frames, slots).and_then(|n| if n == b.len() { Ok(()) } else { Err(format!("{} bytes", b.len())) }),
            Err(e) => Err(e.clone()),
        };
        r.case(&format!("{} {} {} {} {}", w, h, n, frames, r.cases), got.is_ok());
        if let Err(e) = res {
            r.fail("palette and pixels", format!("{}x{}, {} frames, {} colours", w, h, frames, count), "every pixel keeps its colour".into(), e);
        }
        if r.cases > 3000 && !r.thorough {
            break;
        }
    }
}
