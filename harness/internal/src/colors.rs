//! P10, P11, P12: colour conversions.
use crate::pts::Fl;
use auto_palette::verif::colors::{Lab, Rgba, D65, XYZ};
use vcommon::color::*;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

type X<F> = XYZ<F, D65>;

fn xyz<F: Fl>(x: &X<F>) -> [f64; 3] {
    [x.x.up(), x.y.up(), x.z.up()]
}
fn lab<F: Fl>(x: &Lab<F>) -> [f64; 3] {
    [x.l.up(), x.a.up(), x.b.up()]
}

fn roundtrip<F: Fl>(r: u8, g: u8, b: u8) -> Option<String> {
    let c = Rgba::new(r, g, b, 255);
    let x: X<F> = XYZ::from(&c);
    let d = Rgba::from(&x);
    if d != c {
        return Some(format!("{} through XYZ: {:?} -> {:?} -> {:?}", F::NAME, c, xyz(&x), d));
    }
    let l: Lab<F> = Lab::from(&x);
    let y: X<F> = XYZ::from(&l);
    let e = Rgba::from(&y);
    if e != c {
        return Some(format!("{} through Lab: {:?} -> {:?} -> {:?} -> {:?}", F::NAME, c, lab(&l), xyz(&y), e));
    }
    None
}

fn conformance<F: Fl>(r: u8, g: u8, b: u8) -> Option<String> {
    let c = Rgba::new(r, g, b, 255);
    let x: X<F> = XYZ::from(&c);
    let want = clamp_xyz(rgb_to_xyz(r, g, b));
    let got = xyz(&x);
    if (0..3).any(|k| !((got[k] - want[k]).abs() <= 2e-6)) {
        return Some(format!("{} {:?} has XYZ {:?}, converted to {:?}", F::NAME, c, want, got));
    }
    let l: Lab<F> = Lab::from(&x);
    let wl = xyz_to_lab(got);
    let gl = lab(&l);
    if (0..3).any(|k| !((gl[k] - wl[k]).abs() <= 0.0005)) {
        return Some(format!("{} XYZ {:?} has Lab {:?}, converted to {:?}", F::NAME, got, wl, gl));
    }
    // also against the definition from the colour itself
    let wl2 = xyz_to_lab(want);
    if (0..3).any(|k| !((gl[k] - wl2[k]).abs() <= 0.0005)) {
        return Some(format!("{} {:?} has Lab {:?}, converted to {:?}", F::NAME, c, wl2, gl));
    }
    let y: X<F> = XYZ::from(&l);
    let gy = xyz(&y);
    if (0..3).any(|k| !((gy[k] - got[k]).abs() <= 2e-6)) {
        return Some(format!("{} XYZ {:?} returns from Lab {:?} as {:?}", F::NAME, got, gl, gy));
    }
    let d = Rgba::from(&x);
    let v = xyz_to_rgbf(got);
    let dv = [d.r as f64, d.g as f64, d.b as f64];
    if (0..3).any(|k| !((dv[k] - v[k].clamp(0.0, 255.0)).abs() <= 0.51)) || d.a != 255 {
        return Some(format!("{} XYZ {:?} is sRGB {:?}, converted to {:?}", F::NAME, got, v, d));
    }
    None
}

/// Every 8-bit colour, split over the workers in an order that depends on the seed.
fn all(c: &mut Ctx, f: impl Fn(u8, u8, u8) -> Option<String>) -> bool {
    let one = |c: &mut Ctx, v: u64| -> bool {
        let (r, g, b) = ((v >> 16) as u8, (v >> 8) as u8, v as u8);
        match guard(|| f(r, g, b)) {
            Ok(None) => true,
            Ok(Some(e)) => {
                c.violate(v, e);
                false
            }
            Err(e) => {
                c.violate(v, format!("({r}, {g}, {b}): ended in {e}"));
                false
            }
        }
    };
    if let Some(v) = c.only {
        if v < 1 << 24 {
            one(c, v);
            c.eval(v, true);
        }
        return v < 1 << 24;
    }
    let mut v = c.worker;
    let mut n = 0;
    while v < 1 << 24 {
        if n % 4096 == 0 {
            c.note(v);
        }
        if !one(c, v) {
            return true;
        }
        n += 1;
        v += c.workers;
    }
    c.add("colours", n);
    c.add_exact(n);
    false
}

pub fn p10(c: &mut Ctx) {
    all(c, |r, g, b| roundtrip::<f64>(r, g, b).or_else(|| roundtrip::<f32>(r, g, b)));
    c.sample(|| {
        let x: X<f32> = XYZ::from(&Rgba::new(12, 200, 3, 255));
        let l: Lab<f32> = Lab::from(&x);
        format!("(12, 200, 3) -> {:?} -> {:?} -> {}", xyz(&x), lab(&l), Rgba::from(&XYZ::from(&l)))
    });
}

/// Continuous colours: random in-gamut linear light, with emphasis on the dark branches.
fn continuous<F: Fl>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let mut lin = [0.0; 3];
    let dark = rng.chance(0.5);
    for v in lin.iter_mut() {
        *v = if dark { 10f64.powf(rng.fr(-5.0, -1.0)) } else { rng.f() };
        if rng.chance(0.08) {
            *v = *rng.pick(&[0.0, 1.0, 0.0031308, 0.0031307, 0.0031309]);
        }
    }
    let want = [
        0.412391 * lin[0] + 0.357584 * lin[1] + 0.180481 * lin[2],
        0.212639 * lin[0] + 0.715169 * lin[1] + 0.072192 * lin[2],
        0.019331 * lin[0] + 0.119195 * lin[1] + 0.950532 * lin[2],
    ];
    let r = guard(|| {
        let x: X<F> = XYZ::new(F::of(want[0]), F::of(want[1]), F::of(want[2]));
        let l: Lab<F> = Lab::from(&x);
        let y: X<F> = XYZ::from(&l);
        let d = Rgba::from(&x);
        let e = Rgba::from(&y);
        (xyz(&x), lab(&l), xyz(&y), [d.r as f64, d.g as f64, d.b as f64], [e.r as f64, e.g as f64, e.b as f64])
    });
    let (x, l, y, d, e) = match r {
        Ok(r) => r,
        Err(m) => {
            c.violate(idx, format!("{} XYZ {:?}: ended in {m}", F::NAME, want));
            return;
        }
    };
    c.eval(vcommon::runner::hash_f64s(x), true);
    c.add("continuous_colours", 1);
    let wl = xyz_to_lab(x);
    let v = xyz_to_rgbf(x);
    let back = lab_to_xyz(l);
    let bad = if (0..3).any(|k| !((l[k] - wl[k]).abs() <= 0.0005)) {
        format!("Lab {l:?} instead of {wl:?}")
    } else if (0..3).any(|k| !((y[k] - x[k]).abs() <= 2e-6)) {
        format!("returns from Lab {l:?} as {y:?}")
    } else if (0..3).any(|k| !((y[k] - back[k]).abs() <= 2e-6)) {
        format!("Lab {l:?} is XYZ {back:?}, converted to {y:?}")
    } else if (0..3).any(|k| !((d[k] - v[k].clamp(0.0, 255.0)).abs() <= 0.51)) {
        format!("sRGB {d:?} instead of {v:?}")
    } else if (0..3).any(|k| !((e[k] - v[k].clamp(0.0, 255.0)).abs() <= 0.51)) {
        format!("sRGB through Lab {e:?} instead of {v:?}")
    } else {
        String::new()
    };
    if !bad.is_empty() {
        c.violate(idx, format!("{} XYZ {:?}: {bad}", F::NAME, x));
    }
    if x.iter().zip(&WHITE).any(|(a, w)| a / w < 0.008856) {
        c.add("in_linear_lab_branch", 1);
    }
    if lin.iter().any(|a| *a <= 0.0031308) {
        c.add("in_linear_srgb_branch", 1);
    }
    c.sample(|| format!("case {idx}: {} XYZ {x:?} -> Lab {l:?} -> sRGB {d:?}", F::NAME));
}

pub fn p11(c: &mut Ctx) {
    // indices of continuous cases start beyond the colours
    if all(c, |r, g, b| conformance::<f64>(r, g, b).or_else(|| conformance::<f32>(r, g, b))) {
        return;
    }
    let only = c.only;
    if let Some(v) = only {
        c.only = Some(v - (1 << 24));
    }
    c.offset = 1 << 24;
    c.run(|c, idx, rng| {
        for _ in 0..200 {
            if rng.chance(0.5) { continuous::<f64>(c, idx, rng) } else { continuous::<f32>(c, idx, rng) }
        }
    });
}

fn component(rng: &mut Rng, lo: f64, hi: f64) -> f64 {
    match rng.below(14) {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        2 => 1e30,
        3 => -1e30,
        4 => lo,
        5 => hi,
        6 => hi + 1e-6,
        7 => lo - 1e-6,
        8 => -0.0,
        9 => hi + rng.fr(0.0, 2.0) * (hi - lo),
        10 => lo - rng.fr(0.0, 2.0) * (hi - lo),
        11 => *rng.pick(&[f32::MAX as f64, f32::MIN as f64, 1e-30, -1e-30, 255.0, 256.0, -128.5, 127.5]),
        _ => rng.fr(lo, hi),
    }
}

fn saturate<F: Fl>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let hi = XYZ_MAX;
    let raw: Vec<f64> = (0..3).map(|k| F::of(component(rng, 0.0, hi[k])).up()).collect();
    let rl: Vec<f64> = vec![
        F::of(component(rng, 0.0, 100.0)).up(),
        F::of(component(rng, -128.0, 127.0)).up(),
        F::of(component(rng, -128.0, 127.0)).up(),
    ];
    let clip = |v: f64, lo: f64, hi: f64| if v < F::of(lo).up() { F::of(lo).up() } else if v > F::of(hi).up() { F::of(hi).up() } else { v };
    let r = guard(|| {
        let x: X<F> = XYZ::new(F::of(raw[0]), F::of(raw[1]), F::of(raw[2]));
        let l: Lab<F> = Lab::new(F::of(rl[0]), F::of(rl[1]), F::of(rl[2]));
        (xyz(&x), lab(&l))
    });
    let (x, l) = match r {
        Ok(r) => r,
        Err(e) => {
            c.violate(idx, format!("{} creating XYZ {raw:?} or Lab {rl:?} ended in {e}", F::NAME));
            return;
        }
    };
    c.eval(vcommon::runner::hash_f64s(raw.iter().chain(&rl).copied()), raw.iter().any(|v| *v < 0.0 || *v > 1.1) || rl.iter().any(|v| v.abs() > 128.0));
    let wx: Vec<f64> = (0..3).map(|k| clip(raw[k], 0.0, hi[k])).collect();
    let wl = vec![clip(rl[0], 0.0, 100.0), clip(rl[1], -128.0, 127.0), clip(rl[2], -128.0, 127.0)];
    if x.to_vec() != wx {
        c.violate(idx, format!("{} XYZ {raw:?} becomes {x:?} instead of {wx:?}", F::NAME));
        return;
    }
    if l.to_vec() != wl {
        c.violate(idx, format!("{} Lab {rl:?} becomes {l:?} instead of {wl:?}", F::NAME));
        return;
    }
    // every conversion of these colours succeeds and stays in range
    let r = guard(|| {
        let x: X<F> = XYZ::new(F::of(raw[0]), F::of(raw[1]), F::of(raw[2]));
        let l: Lab<F> = Lab::new(F::of(rl[0]), F::of(rl[1]), F::of(rl[2]));
        let x2: X<F> = XYZ::from(&l);
        let l2: Lab<F> = Lab::from(&x);
        let c1 = Rgba::from(&x);
        let c2 = Rgba::from(&x2);
        (lab(&l2), xyz(&x2), (c1.r, c1.g, c1.b, c1.a), (c2.r, c2.g, c2.b, c2.a))
    });
    let (l2, x2, c1, c2) = match r {
        Ok(r) => r,
        Err(e) => {
            c.violate(idx, format!("{} converting XYZ {x:?} or Lab {l:?} ended in {e}", F::NAME));
            return;
        }
    };
    c.add("conversions", 4);
    let wl2 = xyz_to_lab(x);
    let wl2 = [wl2[0].clamp(0.0, 100.0), wl2[1].clamp(-128.0, 127.0), wl2[2].clamp(-128.0, 127.0)];
    let wx2 = clamp_xyz(lab_to_xyz(l));
    let (v1, v2) = (xyz_to_rgbf(x), xyz_to_rgbf(x2));
    let clipped = v1.iter().chain(&v2).filter(|v| **v < 0.0 || **v > 255.0).count();
    c.add("channels_clipped", clipped as u64);
    let chan = |v: [f64; 3], c: (u8, u8, u8, u8)| {
        let g = [c.0, c.1, c.2];
        (0..3).all(|k| (g[k] as f64 - v[k].clamp(0.0, 255.0)).abs() <= 1.0) && c.3 == 255
    };
    let bad = if (0..3).any(|k| !((l2[k] - wl2[k]).abs() <= 0.005)) {
        format!("XYZ {x:?} becomes Lab {l2:?} instead of {wl2:?}")
    } else if (0..3).any(|k| !((x2[k] - wx2[k]).abs() <= 0.001)) {
        format!("Lab {l:?} becomes XYZ {x2:?} instead of {wx2:?}")
    } else if !chan(v1, c1) {
        format!("XYZ {x:?} becomes sRGB {c1:?} instead of {v1:?} clipped")
    } else if !chan(v2, c2) {
        format!("XYZ {x2:?} (of Lab {l:?}) becomes sRGB {c2:?} instead of {v2:?} clipped")
    } else {
        String::new()
    };
    if !bad.is_empty() {
        c.violate(idx, format!("{} {bad}", F::NAME));
    }
    c.sample(|| format!("case {idx}: {} XYZ {raw:?} -> {x:?} -> {c1:?}; Lab {rl:?} -> {l:?} -> {c2:?}", F::NAME));
}

pub fn p12(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        for _ in 0..50 {
            if rng.chance(0.5) { saturate::<f64>(c, idx, rng) } else { saturate::<f32>(c, idx, rng) }
        }
    });
}
