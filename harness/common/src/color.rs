//! Reference colour conversions in f64, written from the sRGB (IEC 61966-2-1) and CIE 1976
//! definitions with the D65 white point the library documents.
pub const WHITE: [f64; 3] = [0.95046, 1.0, 1.08906];
pub const XYZ_MAX: [f64; 3] = [0.950456, 1.0, 1.088644];

pub fn srgb_to_linear(v: f64) -> f64 {
    if v <= 0.04045 {
        v / 12.92
    } else {
        ((v + 0.055) / 1.055).powf(2.4)
    }
}

pub fn linear_to_srgb(v: f64) -> f64 {
    if v <= 0.0031308 {
        12.92 * v
    } else {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    }
}

thread_local! {
    static LIN: [f64; 256] = {
        let mut t = [0.0; 256];
        for (i, x) in t.iter_mut().enumerate() { *x = srgb_to_linear(i as f64 / 255.0); }
        t
    };
}

pub fn rgb_to_xyz(r: u8, g: u8, b: u8) -> [f64; 3] {
    let (r, g, b) = LIN.with(|t| (t[r as usize], t[g as usize], t[b as usize]));
    [
        0.412391 * r + 0.357584 * g + 0.180481 * b,
        0.212639 * r + 0.715169 * g + 0.072192 * b,
        0.019331 * r + 0.119195 * g + 0.950532 * b,
    ]
}

pub fn xyz_to_lab(xyz: [f64; 3]) -> [f64; 3] {
    let e = 6.0 / 29.0f64;
    let f = |t: f64| {
        if t > e * e * e {
            t.cbrt()
        } else {
            t / (3.0 * e * e) + 4.0 / 29.0
        }
    };
    let (fx, fy, fz) = (f(xyz[0] / WHITE[0]), f(xyz[1] / WHITE[1]), f(xyz[2] / WHITE[2]));
    [116.0 * fy - 16.0, 500.0 * (fx - fy), 200.0 * (fy - fz)]
}

pub fn lab_to_xyz(lab: [f64; 3]) -> [f64; 3] {
    let e = 6.0 / 29.0f64;
    let f = |t: f64| {
        if t > e {
            t * t * t
        } else {
            3.0 * e * e * (t - 4.0 / 29.0)
        }
    };
    let l = (lab[0] + 16.0) / 116.0;
    [
        WHITE[0] * f(l + lab[1] / 500.0),
        WHITE[1] * f(l),
        WHITE[2] * f(l - lab[2] / 200.0),
    ]
}

pub fn clamp_xyz(x: [f64; 3]) -> [f64; 3] {
    [
        x[0].clamp(0.0, XYZ_MAX[0]),
        x[1].clamp(0.0, XYZ_MAX[1]),
        x[2].clamp(0.0, XYZ_MAX[2]),
    ]
}

/// Unrounded, unclipped 0..255 channel values.
pub fn xyz_to_rgbf(x: [f64; 3]) -> [f64; 3] {
    let r = 3.24097 * x[0] - 1.537383 * x[1] - 0.498611 * x[2];
    let g = -0.969244 * x[0] + 1.875968 * x[1] + 0.041555 * x[2];
    let b = 0.05563 * x[0] - 0.203977 * x[1] + 1.056972 * x[2];
    [
        255.0 * linear_to_srgb(r),
        255.0 * linear_to_srgb(g),
        255.0 * linear_to_srgb(b),
    ]
}

/// The documented ranges of XYZ clip near-white blues slightly.
pub fn rgb_to_lab(r: u8, g: u8, b: u8) -> [f64; 3] {
    xyz_to_lab(clamp_xyz(rgb_to_xyz(r, g, b)))
}

/// Whether an 8-bit colour is the sRGB rendition of `lab` (out-of-gamut channels clipped) to
/// within `tol` levels. The library may or may not clip XYZ first; out of gamut both are accepted.
pub fn rgb_matches_lab(rgb: (u8, u8, u8), lab: [f64; 3], tol: f64) -> bool {
    let c = [rgb.0 as f64, rgb.1 as f64, rgb.2 as f64];
    let xyz = lab_to_xyz(lab);
    for (i, cand) in [xyz, clamp_xyz(xyz)].into_iter().enumerate() {
        let v = xyz_to_rgbf(cand);
        let out = v.iter().any(|x| *x < -0.5 || *x > 255.5);
        let tol = if out { tol.max(1.5) } else { tol };
        if i == 1 && !out && xyz == cand {
            break;
        }
        if (0..3).all(|k| (c[k] - v[k].clamp(0.0, 255.0)).abs() <= tol) {
            return true;
        }
    }
    false
}
