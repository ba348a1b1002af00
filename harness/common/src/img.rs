//! Hostile image workloads.
use crate::color::rgb_to_lab;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub data: Vec<u8>,
    pub family: &'static str,
}

pub type Rgb = (u8, u8, u8);

impl Img {
    pub fn n(&self) -> usize {
        self.data.len() / 4
    }
    pub fn rgb(&self, i: usize) -> Rgb {
        (self.data[4 * i], self.data[4 * i + 1], self.data[4 * i + 2])
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64 ^ ((self.w as u64) << 32 | self.h as u64);
        for b in &self.data {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }
    pub fn describe(&self) -> String {
        format!("{} {}x{} hash={:016x}", self.family, self.w, self.h, self.hash())
    }
    pub fn from_fn(
        w: u32,
        h: u32,
        family: &'static str,
        mut f: impl FnMut(u32, u32) -> Rgb,
    ) -> Img {
        let mut data = Vec::with_capacity((w * h * 4) as usize);
        for y in 0..h {
            for x in 0..w {
                let (r, g, b) = f(x, y);
                data.extend_from_slice(&[r, g, b, 255]);
            }
        }
        Img { w, h, data, family }
    }
    pub fn transposed(&self) -> Img {
        let mut out = Img { w: self.h, h: self.w, data: vec![0; self.data.len()], family: self.family };
        for y in 0..self.h as usize {
            for x in 0..self.w as usize {
                let (s, d) = (4 * (y * self.w as usize + x), 4 * (x * self.h as usize + y));
                out.data[d..d + 4].copy_from_slice(&self.data[s..s + 4]);
            }
        }
        out
    }
    pub fn mirrored(&self, horizontal: bool, vertical: bool) -> Img {
        let mut out = self.clone();
        let (w, h) = (self.w as usize, self.h as usize);
        for y in 0..h {
            for x in 0..w {
                let nx = if horizontal { w - 1 - x } else { x };
                let ny = if vertical { h - 1 - y } else { y };
                let (s, d) = (4 * (y * w + x), 4 * (ny * w + nx));
                out.data[d..d + 4].copy_from_slice(&self.data[s..s + 4]);
            }
        }
        out
    }
    pub fn with_alpha(mut self, rng: &mut Rng, mode: usize) -> Img {
        for i in 0..self.n() {
            self.data[4 * i + 3] = match mode {
                0 => 255,
                1 => rng.byte(),
                2 => 0,
                3 => *rng.pick(&[0u8, 255]),
                _ => *rng.pick(&[0u8, 1, 127, 128, 254, 255]),
            };
        }
        self
    }
}

pub fn color(rng: &mut Rng) -> Rgb {
    match rng.below(8) {
        0 => *rng.pick(&[
            (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 255, 255),
            (255, 0, 255), (0, 0, 0), (255, 255, 255),
        ]),
        1 => {
            let v = rng.byte();
            (v, v, v)
        }
        2 => (rng.below(20) as u8, rng.below(20) as u8, rng.below(20) as u8),
        3 => (255 - rng.below(20) as u8, 255 - rng.below(20) as u8, 255 - rng.below(20) as u8),
        _ => (rng.byte(), rng.byte(), rng.byte()),
    }
}

pub fn lab_distance(a: Rgb, b: Rgb) -> f64 {
    let (p, q) = (rgb_to_lab(a.0, a.1, a.2), rgb_to_lab(b.0, b.1, b.2));
    let d = [(p[0] - q[0]) / 100.0, (p[1] - q[1]) / 255.0, (p[2] - q[2]) / 255.0];
    (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
}

/// Up to `n` colours that are pairwise farther apart than `min` in normalised Lab.
pub fn palette(rng: &mut Rng, n: usize, min: f64) -> Vec<Rgb> {
    let mut out: Vec<Rgb> = vec![color(rng)];
    let mut tries = 0;
    while out.len() < n && tries < 40 * n {
        tries += 1;
        let c = color(rng);
        if out.iter().all(|o| lab_distance(*o, c) > min) {
            out.push(c);
        }
    }
    out
}

fn off40(v: usize) -> u32 {
    if v % 40 == 0 { (v + 1) as u32 } else { v as u32 }
}

fn lerp(a: Rgb, b: Rgb, t: f64) -> Rgb {
    let l = |x: u8, y: u8| (x as f64 + (y as f64 - x as f64) * t).round() as u8;
    (l(a.0, b.0), l(a.1, b.1), l(a.2, b.2))
}

fn edge_color(rng: &mut Rng) -> Rgb {
    // on an edge or corner of the RGB cube
    let mut c = [0u8, 0, 0];
    for v in c.iter_mut() {
        *v = if rng.chance(0.5) { 0 } else { 255 };
    }
    if rng.chance(0.5) {
        c[rng.below(3)] = rng.byte();
    }
    (c[0], c[1], c[2])
}

pub fn tiny(rng: &mut Rng, _s: f64) -> Img {
    let (w, h) = (rng.below(20) as u32, rng.below(20) as u32);
    let flat = rng.chance(0.3);
    let c = color(rng);
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "tiny", |_, _| if flat { c } else { color(&mut r2) })
}

pub fn strips(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(1, (7.0 * s).max(2.0) as usize) as u32;
    let h = off40(rng.range(481, 481 + (500.0 * s) as usize));
    let np = rng.range(1, 7);
    let pal = palette(rng, np, 0.06);
    let mut cuts: Vec<Vec<(u32, Rgb)>> = Vec::new();
    for _ in 0..w {
        let mut col = Vec::new();
        let mut y = 0u32;
        while y < h {
            let len = rng.range(20, (h as usize).max(60)) as u32;
            col.push((y + len, *rng.pick(&pal)));
            y += len;
        }
        cuts.push(col);
    }
    Img::from_fn(w, h, "strips", |x, y| cuts[x as usize].iter().find(|(e, _)| y < *e).unwrap().1)
}

pub fn threshold(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(1, (4.0 * s).max(2.0) as usize) as u32;
    let h = off40(rng.range(470, 470 + (600.0 * s) as usize));
    let np = rng.range(2, 5);
    let pal = palette(rng, np, 0.06);
    let mut runs = Vec::new();
    for _ in 0..w {
        let mut col = vec![];
        while col.len() < h as usize {
            let c = *rng.pick(&pal);
            let len = rng.range(8, 60);
            col.extend(std::iter::repeat(c).take(len));
        }
        runs.push(col);
    }
    Img::from_fn(w, h, "threshold", |x, y| runs[x as usize][y as usize])
}

pub fn jitter(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(1, (4.0 * s).max(2.0) as usize) as u32;
    let h = off40(rng.range(481, 481 + (900.0 * s) as usize));
    let np = rng.range(1, 4);
    let pal = palette(rng, np, 0.08);
    let amp = rng.below(14) as i32;
    let noise = rng.fr(0.0, 0.3);
    let mut r2 = rng.clone();
    rng.u64();
    let band = h / (rng.range(1, 4) as u32) + 1;
    Img::from_fn(w, h, "jitter", |x, y| {
        if r2.chance(noise) {
            return color(&mut r2);
        }
        let c = pal[((y / band + x) as usize) % pal.len()];
        let mut j = |v: u8| (v as i32 + r2.below(2 * amp as usize + 1) as i32 - amp).clamp(0, 255) as u8;
        (j(c.0), j(c.1), j(c.2))
    })
}

pub fn gradient(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(1, 2) as u32;
    let h = off40(rng.range(900, 900 + (900.0 * s) as usize));
    let stops: Vec<Rgb> = (0..rng.range(2, 4))
        .map(|_| if rng.chance(0.75) { edge_color(rng) } else { color(rng) })
        .collect();
    let dither = rng.chance(0.3);
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "gradient", |_, y| {
        let jit = if dither { r2.f() * 0.5 } else { 0.0 };
        let t = (y as f64 + jit) / h as f64 * (stops.len() - 1) as f64;
        let i = (t as usize).min(stops.len() - 2);
        lerp(stops[i], stops[i + 1], (t - i as f64).min(1.0))
    })
}

/// One of the gradients along an edge of the RGB cube: their mean Lab colour is often out of gamut.
pub fn gamut_edge(rng: &mut Rng, s: f64) -> Img {
    let h = off40(rng.range(900, 900 + (700.0 * s) as usize));
    let axis = rng.below(3);
    let mut base = [0u8; 3];
    for v in base.iter_mut() {
        *v = if rng.chance(0.5) { 0 } else { 255 };
    }
    let two = rng.chance(0.3);
    let lo = rng.below(100) as f64;
    let hi = 255.0 - rng.below(100) as f64;
    Img::from_fn(1, h, "gamut_edge", |_, y| {
        let mut c = base;
        let t = y as f64 / h as f64;
        c[axis] = (lo + (hi - lo) * t).round() as u8;
        if two {
            c[(axis + 1) % 3] = (lo + (hi - lo) * (1.0 - t)).round() as u8;
        }
        (c[0], c[1], c[2])
    })
}

/// Bands barely as long as a neighbourhood, their colours jittered by a few levels: whether a pixel has
/// enough neighbours hangs on differences of a thousandth of the radius.
pub fn razor(rng: &mut Rng, s: f64) -> Img {
    let w = if rng.chance(0.8) { 1 } else { rng.range(2, 3) as u32 };
    let h = off40(rng.range(481, 481 + (70.0 * s.min(1.0)) as usize));
    let np = rng.range(2, 9);
    let pal = palette(rng, np, 0.08);
    let amp = rng.range(1, 4) as i32;
    let mut r2 = rng.clone();
    rng.u64();
    let mut cols = Vec::new();
    for _ in 0..w {
        let mut cells: Vec<Rgb> = Vec::new();
        let mut last = r2.below(pal.len());
        while cells.len() < h as usize {
            last = (last + 1 + r2.below((pal.len() - 1).max(1))) % pal.len();
            let c = pal[last];
            for _ in 0..r2.range(25, 27) {
                let mut j = |v: u8| (v as i32 + r2.below(2 * amp as usize + 1) as i32 - amp).clamp(0, 255) as u8;
                cells.push((j(c.0), j(c.1), j(c.2)));
            }
        }
        cols.push(cells);
    }
    Img::from_fn(w, h, "razor", |x, y| cols[x as usize][y as usize])
}

/// One very long row: a few bands, some of them with noise.
pub fn long(rng: &mut Rng, s: f64) -> Img {
    let h = off40(rng.range(2500, 2600 + (6000.0 * s.min(1.0)) as usize));
    let np = rng.range(2, 6);
    let pal = palette(rng, np, 0.06);
    let mut r2 = rng.clone();
    rng.u64();
    let mut cells: Vec<Rgb> = Vec::new();
    let mut last = r2.below(pal.len());
    while cells.len() < h as usize {
        last = (last + 1 + r2.below((pal.len() - 1).max(1))) % pal.len();
        let noise = if r2.chance(0.5) { 0.0 } else { r2.fr(0.0, 0.7) };
        for _ in 0..r2.range(30, h as usize / 2) {
            cells.push(if noise > 0.0 && r2.chance(noise) { (r2.byte(), r2.byte(), r2.byte()) } else { pal[last] });
        }
    }
    Img::from_fn(1, h, "long", |_, y| cells[y as usize])
}

pub fn interleaved(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(1, 2) as u32;
    let h = off40(rng.range(900, 900 + (1500.0 * s) as usize));
    let np = rng.range(2, 6);
    let pal = palette(rng, np, 0.05);
    let p = rng.range(1, 6) as u32;
    let random = rng.chance(0.5);
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "interleaved", |x, y| {
        if random {
            *r2.pick(&pal)
        } else {
            pal[((y / p + x) as usize) % pal.len()]
        }
    })
}

pub fn ties(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(2, (8.0 * s).max(3.0) as usize) as u32;
    let h = off40(rng.range(481, 560));
    let pal = palette(rng, w as usize, 0.05);
    Img::from_fn(w, h, "ties", |x, _| pal[x as usize % pal.len()])
}

/// More clusters than ties or strips usually have: many equal or nearly equal columns.
pub fn many(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(9, (36.0 * s).max(12.0) as usize) as u32;
    let h = off40(rng.range(481, 600));
    let pal = palette(rng, 12, 0.05);
    let holes: Vec<f64> = (0..w).map(|_| if rng.chance(0.5) { 0.0 } else { rng.fr(0.0, 0.04) }).collect();
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "many", |x, _| {
        if r2.chance(holes[x as usize]) {
            color(&mut r2)
        } else {
            pal[x as usize % pal.len()]
        }
    })
}

/// Hundreds of regions of about 25 to 30 pixels, stacked in columns that are far from each other.
pub fn crowd(rng: &mut Rng, s: f64) -> Img {
    let w = rng.range(6, (21.0 * s).max(7.0) as usize) as u32;
    let h = off40(rng.range(505, 560));
    let np = rng.range(3, 9);
    let pal = palette(rng, np, 0.06);
    let mut col = Vec::new();
    for _ in 0..w {
        let mut cells: Vec<Rgb> = Vec::new();
        let mut last = rng.below(pal.len());
        while cells.len() < h as usize {
            let len = if rng.chance(0.1) { rng.range(20, 25) } else { rng.range(25, 29) };
            last = (last + 1 + rng.below((pal.len() - 1).max(1))) % pal.len();
            cells.extend(std::iter::repeat(pal[last]).take(len));
        }
        col.push(cells);
    }
    Img::from_fn(w, h, "crowd", |x, y| col[x as usize][y as usize])
}

pub fn blocks(rng: &mut Rng, s: f64) -> Img {
    let side = 115 + (60.0 * s) as usize;
    let (w, h) = (off40(rng.range(113, side)), off40(rng.range(113, side)));
    let np = rng.range(1, 7);
    let pal = palette(rng, np, 0.06);
    let mut rects: Vec<(u32, u32, u32, u32, Rgb)> = vec![(0, 0, w, h, pal[0])];
    for _ in 0..rng.below(7) {
        let (x0, y0) = (rng.below(w as usize) as u32, rng.below(h as usize) as u32);
        let (x1, y1) = (x0 + rng.range(4, 90) as u32, y0 + rng.range(4, 90) as u32);
        rects.push((x0, y0, x1, y1, *rng.pick(&pal)));
    }
    let noise = if rng.chance(0.5) { 0.0 } else { rng.fr(0.0, 0.3) };
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "blocks", |x, y| {
        if noise > 0.0 && r2.chance(noise) {
            return color(&mut r2);
        }
        rects.iter().rev().find(|r| x >= r.0 && x < r.2 && y >= r.1 && y < r.3).unwrap().4
    })
}

pub fn gradient2d(rng: &mut Rng, s: f64) -> Img {
    let side = 120 + (40.0 * s) as usize;
    let (w, h) = (off40(rng.range(118, side)), off40(rng.range(118, side)));
    let c = [edge_color(rng), color(rng), color(rng), edge_color(rng)];
    let k = rng.fr(0.1, 1.0);
    Img::from_fn(w, h, "gradient2d", |x, y| {
        let (u, v) = (k * x as f64 / w as f64, k * y as f64 / h as f64);
        lerp(lerp(c[0], c[1], u), lerp(c[2], c[3], u), v)
    })
}

/// More than 65536 pixels, with clusters.
pub fn large(rng: &mut Rng, _s: f64) -> Img {
    let pal = palette(rng, 14, 0.05);
    match rng.below(5) {
        4 => {
            // one region of more than 65,536 pixels
            let (w, h) = (off40(rng.range(262, 275)), off40(rng.range(262, 275)));
            let spot = rng.range(5, 30) as u32;
            Img::from_fn(w, h, "large", |x, y| pal[usize::from(x < spot && y < spot) % pal.len()])
        }
        3 => {
            // regions whose mean row lies above 65535, among unrelated pixels
            let h = off40(rng.range(70_000, 95_000));
            let gap = rng.range(20, 31) as u32;
            let last = h - rng.range(300, 4000) as u32;
            let mut r2 = rng.clone();
            rng.u64();
            let img = Img::from_fn(1, h, "large", |_, y| {
                if y % gap == 0 && (y >= last || y < h / 2) {
                    pal[usize::from(y >= last) % pal.len()]
                } else {
                    (r2.byte(), r2.byte(), r2.byte())
                }
            });
            if rng.chance(0.5) { img.transposed() } else { img }
        }
        0 => {
            let (w, h) = (off40(rng.range(30, 39)), off40(rng.range(1900, 2300)));
            let mut r2 = rng.clone();
            rng.u64();
            Img::from_fn(w, h, "large", |x, y| {
                if r2.chance(0.6) { pal[((x + y / 700) % 14) as usize % pal.len()] } else { *r2.pick(&pal) }
            })
        }
        1 => {
            let (w, h) = (off40(rng.range(261, 300)), off40(rng.range(255, 270)));
            let mut r2 = rng.clone();
            rng.u64();
            Img::from_fn(w, h, "large", |x, y| {
                if x < w / 3 && y < h / 3 { pal[0] } else { *r2.pick(&pal) }
            })
        }
        _ => {
            // one dimension above 65535
            let h = off40(rng.range(65537, 66000));
            let mut r2 = rng.clone();
            rng.u64();
            let mut extra = Vec::new();
            for _ in 0..60 {
                extra.push((r2.byte(), r2.byte(), r2.byte()));
            }
            let img = Img::from_fn(1, h, "large", |_, y| {
                if y % 3 == 0 { pal[(y / 9000) as usize % pal.len()] } else { *r2.pick(&extra) }
            });
            if rng.chance(0.5) { img.transposed() } else { img }
        }
    }
}

/// Several hundred thousand pixels: small regions, one of them towards the end, in a sea of noise.
pub fn vast(rng: &mut Rng, _s: f64) -> Img {
    let (w, h) = (off40(rng.range(540, 680)), off40(rng.range(540, 680)));
    let pal = palette(rng, 6, 0.05);
    let mut spots = Vec::new();
    for k in 0..rng.range(4, 10) as u32 {
        let (sw, sh) = (rng.range(7, 30) as u32, rng.range(7, 30) as u32);
        let (x, y) = (rng.below((w - sw) as usize) as u32, if k == 0 { h - sh - k } else { rng.below((h - sh) as usize) as u32 });
        spots.push((x, y, sw, sh, k as usize % pal.len()));
    }
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "vast", |x, y| {
        match spots.iter().find(|s| x >= s.0 && y >= s.1 && x < s.0 + s.2 && y < s.1 + s.3) {
            Some(s) => pal[s.4],
            None => (r2.byte(), r2.byte(), r2.byte()),
        }
    })
}

/// More than a thousand regions: blocks of 5 x 5 pixels and a little more, equal colours out of each other's reach.
pub fn swarm(rng: &mut Rng, _s: f64) -> Img {
    let (w, h) = (off40(rng.range(205, 235)), off40(rng.range(205, 235)));
    let pal = palette(rng, 4, 0.06);
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "swarm", |x, y| {
        let (u, v) = (x % 12, y % 12);
        let k = (u / 6 + 2 * (v / 6)) as usize;
        if k < pal.len() && (u % 6 < 5 && v % 6 < 5 || r2.chance(0.3)) {
            pal[k]
        } else {
            (r2.byte(), r2.byte(), r2.byte())
        }
    })
}

pub fn noise(rng: &mut Rng, s: f64) -> Img {
    let (w, h) = (rng.range(1, 10 + (80.0 * s) as usize) as u32, rng.range(1, 10 + (80.0 * s) as usize) as u32);
    let mut r2 = rng.clone();
    rng.u64();
    Img::from_fn(w, h, "noise", |_, _| (r2.byte(), r2.byte(), r2.byte()))
}

/// Two flat regions whose rims are so sparse or so close that border pixels may touch both.
pub fn touching(rng: &mut Rng, s: f64) -> Img {
    let h = off40(rng.range(500, 500 + (600.0 * s) as usize));
    let a = color(rng);
    let mut b = a;
    // a second colour around the linking distance
    for _ in 0..400 {
        let d = |rng: &mut Rng, v: u8| (v as i32 + rng.below(61) as i32 - 30).clamp(0, 255) as u8;
        let c = (d(rng, a.0), d(rng, a.1), d(rng, a.2));
        let dist = lab_distance(a, c);
        if dist > 0.018 && dist < 0.034 {
            b = c;
            break;
        }
    }
    let gap = rng.below(12) as u32;
    let cut = h / 2 + rng.below(40) as u32;
    let c = color(rng);
    let sparse = rng.range(1, 3) as u32;
    Img::from_fn(1, h, "touching", |_, y| {
        if y < cut {
            if sparse > 1 && y + 30 > cut && y % sparse == 0 { c } else { a }
        } else if y < cut + gap {
            c
        } else {
            b
        }
    })
}

type Family = fn(&mut Rng, f64) -> Img;
pub const FAST: &[Family] = &[
    strips, threshold, jitter, gradient, gamut_edge, interleaved, ties, touching, tiny, razor,
];
pub const SLOW: &[Family] = &[blocks, many, gradient2d, noise, crowd, long];

/// The one case of a run that is a vast image.
const VAST: u64 = 273;
/// The case of more than a thousand regions.
const SWARM: u64 = 28;

/// Whether `generate` makes something rare of this index.
pub fn special(idx: u64, scale: f64) -> bool {
    scale >= 1.0 && (idx == VAST || idx == SWARM || idx % 61 == 60)
}

/// Picks a family by case index so that every family is exercised whatever the seed.
pub fn generate(rng: &mut Rng, idx: u64, scale: f64) -> Img {
    let img = if idx == VAST && scale >= 1.0 {
        vast(rng, scale)
    } else if idx == SWARM && scale >= 1.0 {
        swarm(rng, scale)
    } else if idx % 61 == 60 && scale >= 1.0 {
        large(rng, scale)
    } else if idx % 8 == 7 {
        SLOW[(idx / 8) as usize % SLOW.len()](rng, scale)
    } else {
        FAST[(idx - idx / 8) as usize % FAST.len()](rng, scale)
    };
    let img = if rng.chance(0.35) { img.transposed() } else { img };
    let mode = rng.below(5);
    img.with_alpha(rng, mode)
}

/// An image aligned with decimal grids (dimension a multiple of 40), for checks that do not need
/// distances clear of the threshold.
pub fn aligned(rng: &mut Rng) -> Img {
    let h = (rng.range(12, 25) * 40) as u32;
    let c = color(rng);
    let d = color(rng);
    let cut = rng.below(h as usize) as u32;
    Img::from_fn(rng.range(1, 3) as u32, h, "aligned", |_, y| if y < cut { c } else { d })
}
