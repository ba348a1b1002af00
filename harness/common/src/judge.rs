//! The oracle for palette extraction: recomputes the dense groups of an image independently and
//! decides whether the returned swatches describe them.
use crate::color::{rgb_matches_lab, rgb_to_lab};
use crate::density::density;
use crate::img::Img;

pub const MIN_POINTS: usize = 25;
pub const RADIUS: f64 = 0.025;

#[derive(Clone, Debug, PartialEq)]
pub struct Sw {
    pub color: (u8, u8, u8),
    pub pos: (u32, u32),
    pub pct: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prec {
    F32,
    F64,
}

/// A dense group: members that certainly belong to it, and border pixels shared with others.
#[derive(Clone, Debug, Default)]
pub struct Group {
    pub count: usize,
    /// Sums of L, a, b, x, y over the certain members.
    pub sum: [f64; 5],
    /// L, a, b, x, y of the shared border pixels.
    pub shared: Vec<[f64; 5]>,
}

#[derive(Clone, Debug)]
pub struct Truth {
    pub n: usize,
    pub groups: Vec<Group>,
    pub noise: usize,
    pub border: usize,
    pub shared: usize,
    /// False when a pixel pair lies so close to the radius that rounding may change the groups.
    pub certain: bool,
}

pub fn truth(img: &Img, prec: Prec) -> Truth {
    let n = img.n();
    let delta = match prec {
        Prec::F64 => 1e-7,
        Prec::F32 => 1e-5,
    };
    let (lo, hi) = (RADIUS - delta, RADIUS + delta);
    let (w, h) = (img.w as usize, img.h as usize);
    let mut raw: Vec<[f64; 5]> = Vec::with_capacity(n);
    let mut pts: Vec<[f64; 5]> = Vec::with_capacity(n);
    for i in 0..n {
        let c = img.rgb(i);
        let lab = rgb_to_lab(c.0, c.1, c.2);
        let (x, y) = ((i % w) as f64, (i / w) as f64);
        raw.push([lab[0], lab[1], lab[2], x, y]);
        pts.push([
            lab[0] / 100.0,
            lab[1] / 255.0,
            lab[2] / 255.0,
            x / w as f64,
            y / h as f64,
        ]);
    }
    // A window of pixels that contains everything within `hi` in position.
    let (rx, ry) = ((hi * w as f64) as usize + 1, (hi * h as f64) as usize + 1);
    let hi2 = hi * hi * (1.0 + 1e-12);
    let near = |i: usize, f: &mut dyn FnMut(usize, f64)| {
        let (x, y) = (i % w, i / w);
        let p = &pts[i];
        for yy in y.saturating_sub(ry)..=(y + ry).min(h - 1) {
            for xx in x.saturating_sub(rx)..=(x + rx).min(w - 1) {
                let j = yy * w + xx;
                let q = &pts[j];
                let mut d2 = (p[0] - q[0]) * (p[0] - q[0]);
                if d2 > hi2 {
                    continue;
                }
                for k in 1..5 {
                    d2 += (p[k] - q[k]) * (p[k] - q[k]);
                }
                if d2 <= hi2 {
                    f(j, d2.sqrt())
                }
            }
        }
    };
    let (d, certain) = density(n, MIN_POINTS, lo, hi, &near);
    let mut groups = vec![Group::default(); d.n_comps];
    let mut add = |g: u32, i: usize| {
        let g = &mut groups[g as usize];
        g.count += 1;
        for k in 0..5 {
            g.sum[k] += raw[i][k];
        }
    };
    for i in 0..n {
        if d.comp[i] != u32::MAX {
            add(d.comp[i], i);
        }
    }
    let mut shared = 0;
    for (i, t) in &d.border {
        if t.len() == 1 {
            add(t[0], *i as usize);
        } else {
            shared += 1;
        }
    }
    for (i, t) in &d.border {
        if t.len() > 1 {
            for g in t {
                groups[*g as usize].shared.push(raw[*i as usize]);
            }
        }
    }
    Truth { n, groups, noise: d.noise.len(), border: d.border.len(), shared, certain }
}

/// Pixel count of a swatch if its percentage is a whole number of pixels.
pub fn pixels(s: &Sw, n: usize, prec: Prec) -> Option<usize> {
    let c = s.pct * n as f64;
    let r = c.round();
    let tol = match prec {
        Prec::F64 => 1e-9 * n as f64 + 1e-9,
        Prec::F32 => 1.5e-7 * c.abs() + 1e-6,
    };
    if (c - r).abs() <= tol && r >= 0.0 {
        Some(r as usize)
    } else {
        None
    }
}

fn sum_error(count: usize, prec: Prec) -> f64 {
    // relative error of a left-to-right sum of `count` terms, plus a few operations
    (count as f64 + 8.0)
        * match prec {
            Prec::F64 => 1.2e-16,
            Prec::F32 => 6.0e-8,
        }
}

fn position_ok(p: u32, mean: f64, count: usize, prec: Prec) -> bool {
    let slack = mean.abs() * sum_error(count, prec)
        + match prec {
            Prec::F64 => 1e-6,
            Prec::F32 => 1e-3,
        };
    (p as f64) >= (mean - slack).floor() && (p as f64) <= (mean + slack).floor()
}

fn color_tol(count: usize, prec: Prec) -> f64 {
    match prec {
        Prec::F64 => 0.6,
        Prec::F32 => 1.0 + 100.0 * sum_error(count, prec) * 10.0,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Aspects {
    pub count: bool,
    pub color: bool,
    pub pos: bool,
}
pub const ALL: Aspects = Aspects { count: true, color: true, pos: true };

fn mean_ok(s: &Sw, sum: &[f64; 5], count: usize, prec: Prec, a: Aspects) -> bool {
    let m: Vec<f64> = sum.iter().map(|v| v / count as f64).collect();
    (!a.pos || (position_ok(s.pos.0, m[3], count, prec) && position_ok(s.pos.1, m[4], count, prec)))
        && (!a.color || rgb_matches_lab(s.color, [m[0], m[1], m[2]], color_tol(count, prec)))
}

/// Whether the swatch can describe the group in the given aspects.
pub fn describes(s: &Sw, g: &Group, n: usize, prec: Prec, a: Aspects) -> bool {
    let counts: Vec<usize> = if a.count {
        match pixels(s, n, prec) {
            Some(c) if c >= g.count && c <= g.count + g.shared.len() => vec![c],
            _ => return false,
        }
    } else {
        (g.count..=g.count + g.shared.len()).collect()
    };
    if !a.color && !a.pos {
        return true;
    }
    counts.into_iter().any(|c| {
        let extra = c - g.count;
        if g.shared.len() <= 10 {
            (0u32..1 << g.shared.len()).any(|m| {
                m.count_ones() as usize == extra && {
                    let mut sum = g.sum;
                    for (i, p) in g.shared.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            for k in 0..5 {
                                sum[k] += p[k];
                            }
                        }
                    }
                    mean_ok(s, &sum, c, prec, a)
                }
            })
        } else {
            // bounding box of the possible means
            let mut lo = g.sum;
            let mut hi = g.sum;
            for k in 0..5 {
                let mut v: Vec<f64> = g.shared.iter().map(|p| p[k]).collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                lo[k] = (g.sum[k] + v.iter().take(extra).sum::<f64>()) / c as f64;
                hi[k] = (g.sum[k] + v.iter().rev().take(extra).sum::<f64>()) / c as f64;
            }
            let slack = 1.0;
            let inside = |p: u32, k: usize| {
                (p as f64) >= (lo[k] - slack).floor() && (p as f64) <= (hi[k] + slack).floor()
            };
            let mid = [
                (lo[0] + hi[0]) / 2.0,
                (lo[1] + hi[1]) / 2.0,
                (lo[2] + hi[2]) / 2.0,
            ];
            let spread: f64 = (0..3).map(|k| hi[k] - lo[k]).sum();
            (!a.pos || (inside(s.pos.0, 3) && inside(s.pos.1, 4)))
                && (!a.color || rgb_matches_lab(s.color, mid, color_tol(c, prec) + 1.0 + 12.0 * spread))
        }
    })
}

/// Perfect matching between swatches and groups.
pub fn matches(sw: &[Sw], t: &Truth, prec: Prec, a: Aspects) -> bool {
    if sw.len() != t.groups.len() {
        return false;
    }
    let adj: Vec<Vec<usize>> = sw
        .iter()
        .map(|s| (0..t.groups.len()).filter(|g| describes(s, &t.groups[*g], t.n, prec, a)).collect())
        .collect();
    let mut owner = vec![usize::MAX; t.groups.len()];
    fn augment(s: usize, adj: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
        for &g in &adj[s] {
            if !seen[g] {
                seen[g] = true;
                if owner[g] == usize::MAX || augment(owner[g], adj, owner, seen) {
                    owner[g] = s;
                    return true;
                }
            }
        }
        false
    }
    (0..sw.len()).all(|s| augment(s, &adj, &mut owner, &mut vec![false; t.groups.len()]))
}

pub fn explain(sw: &[Sw], t: &Truth) -> String {
    let mut out = format!("{} swatches for {} groups;", sw.len(), t.groups.len());
    for s in sw.iter().take(12) {
        out += &format!(" got(color={:?} pos={:?} px={:.3})", s.color, s.pos, s.pct * t.n as f64);
    }
    for g in t.groups.iter().take(12) {
        let c = g.count.max(1) as f64;
        let xyz = crate::color::lab_to_xyz([g.sum[0] / c, g.sum[1] / c, g.sum[2] / c]);
        let v = crate::color::xyz_to_rgbf(xyz);
        out += &format!(
            " want(color={:.2?} pos=({:.3}, {:.3}) px={}+{})",
            v, g.sum[3] / c, g.sum[4] / c, g.count, g.shared.len()
        );
    }
    out
}
