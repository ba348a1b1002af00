//! What an extraction leaves behind: memory (P29) and effects outside its own memory (P30).
use crate::{bits, ex, gen, idx_family, prec, run_on};
use auto_palette::image::ImageData;
use vcommon::heap;
use vcommon::img::{self, Img};
use vcommon::judge::Prec;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};
use vcommon::sandbox::{threads, Sandbox};

/// Bytes an extraction may use: for the process as such, and for each pixel.
const FIXED: i64 = 1 << 20;
const PER_PIXEL: i64 = 768;

struct Use {
    swatches: usize,
    left: i64,
    peak: i64,
}

/// One extraction from the first to the last byte it needs.
fn measured(i: &Img, p: Prec) -> Result<Use, String> {
    let before = heap::mark();
    let swatches = guard(|| {
        let d = ImageData::new(&i.data, i.w, i.h);
        match p {
            Prec::F64 => d.extract::<f64>().len(),
            Prec::F32 => d.extract::<f32>().len(),
        }
    })?;
    Ok(Use { swatches, left: heap::live() - before, peak: heap::peak() - before })
}

/// Images on which a radius of 0.025 takes in hundreds of pixels.
fn crowded(rng: &mut Rng) -> Img {
    let w = rng.range(260, 330) as u32;
    let h = rng.range(260, 330) as u32;
    let (a, b) = (img::color(rng), img::color(rng));
    let cut = rng.range(1, w as usize) as u32;
    Img::from_fn(w, h, "crowded", |x, _| if x < cut { a } else { b })
}

pub fn p29(c: &mut Ctx) {
    heap::watch();
    // whatever is set up once per process or thread
    let mut warm = Rng::new(7);
    for _ in 0..3 {
        let i = img::strips(&mut warm, 1.0);
        for p in [Prec::F64, Prec::F32] {
            let _ = guard(|| ex(&i, p));
        }
    }
    c.run(|c, idx, rng| {
        let large = idx_family(idx) % 40 == 17;
        let mut pool: Vec<Img> = Vec::new();
        if large {
            pool.push(crowded(rng));
        } else {
            let first = match idx_family(idx) % 3 {
                _ if img::special(idx_family(idx), c.scale) => gen(rng, idx, c),
                0 => img::strips(rng, c.scale),
                1 => img::tiny(rng, c.scale),
                _ => gen(rng, idx, c),
            };
            // the same dimensions, other pixels
            if first.n() > 0 && first.n() < 6000 {
                for _ in 0..3 {
                    let mut j = first.clone();
                    let pal = img::palette(rng, 6, 0.05);
                    let shift = rng.below(5);
                    for k in 0..j.n() {
                        let col = pal[(k % j.w as usize + shift) * pal.len() / (j.w as usize + 5)];
                        j.data[4 * k..4 * k + 3].copy_from_slice(&[col.0, col.1, col.2]);
                    }
                    pool.push(j);
                }
            }
            pool.push(first);
        }
        let calls = if large { 1 } else { pool.len() * 3 };
        for call in 0..calls {
            // every image at least twice, in changing order
            let i = if call < pool.len() { &pool[call] } else { &pool[rng.below(pool.len())] };
            let p = if large { Prec::F64 } else { prec(rng) };
            let u = match measured(i, p) {
                Ok(u) => u,
                Err(_) => {
                    // judged by P01
                    c.add("panics", 1);
                    return;
                }
            };
            c.add(&format!("images_{}", i.family), 1);
            c.add("extractions_measured", 1);
            c.add("pixels", i.n() as u64);
            c.max("pixels_per_image", i.n() as u64);
            c.eval(i.hash() ^ (p == Prec::F32) as u64, u.swatches > 0);
            if i.n() > 1000 {
                c.max("peak_bytes_per_pixel", (u.peak / i.n() as i64) as u64);
            }
            if u.left != 0 {
                c.violate(idx, format!("{:?} {}: {} bytes on the heap are left after everything was dropped (call {call})", p, i.describe(), u.left));
                return;
            }
            if u.peak > FIXED + PER_PIXEL * i.n() as i64 {
                c.violate(idx, format!("{:?} {}: {} bytes on the heap at once for {} pixels", p, i.describe(), u.peak, i.n()));
                return;
            }
        }
        c.sample(|| format!("case {idx}: {} extractions over {} images, first {}", calls, pool.len(), pool[0].describe()));
    });
    c.add("allocations_counted", heap::allocations());
}

pub fn p30(c: &mut Ctx) {
    let sandbox = match Sandbox::start() {
        Ok(s) => s,
        Err(e) => panic!("no sandbox: {e}"),
    };
    // The sandbox must notice what it is there to notice, or a silent run means nothing.
    for (what, job) in probes() {
        match sandbox.run(job) {
            Some((_, seen)) if !seen.is_empty() => c.add("probes_noticed", 1),
            other => panic!("the sandbox missed {what}: {other:?}"),
        }
    }
    match sandbox.run(|| { let v: Vec<u8> = vec![1; 5_000_000]; std::thread::spawn(move || v.len()).join().is_ok() }) {
        Some((true, seen)) if seen.is_empty() => {}
        other => panic!("memory and threads are not effects: {other:?}"),
    }
    let before = threads();
    c.run(|c, idx, rng| {
        let i = gen(rng, idx, c);
        let p = prec(rng);
        let outside = if i.n() < 3000 { Some(guard(|| ex(&i, p))) } else { None };
        let (i, r, seen) = {
            let j = i.clone();
            match sandbox.run(move || guard(|| run_on(&ImageData::new(&j.data, j.w, j.h), p))) {
                Some((r, seen)) => (i, r, seen),
                None => {
                    c.violate(idx, format!("{:?} {}: the thread running it died", p, i.describe()));
                    return;
                }
            }
        };
        let Ok(sw) = r else {
            // judged by P01
            c.add("panics", 1);
            return;
        };
        c.add(&format!("images_{}", i.family), 1);
        c.add("extractions_watched", 1);
        c.add("pixels", i.n() as u64);
        c.add("swatches", sw.len() as u64);
        c.eval(i.hash() ^ (p == Prec::F32) as u64, !sw.is_empty());
        if !seen.is_empty() {
            c.violate(idx, format!("{:?} {}: extraction reached outside its memory: {}", p, i.describe(), seen.join(", ")));
            return;
        }
        if let Some(Ok(o)) = outside {
            c.add("compared_with_unconfined", 1);
            if bits(&o) != bits(&sw) {
                c.violate(idx, format!("{:?} {}: {:?} without access to the outside, {:?} with it", p, i.describe(), sw, o));
                return;
            }
        }
        let mut n = threads();
        for _ in 0..200 {
            if n <= before {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
            n = threads();
        }
        if n > before {
            c.violate(idx, format!("{:?} {}: {} threads before, {} after", p, i.describe(), before, n));
            return;
        }
        c.sample(|| format!("case {idx}: {:?} {} -> {} swatches, no effect", p, i.describe(), sw.len()));
    });
}

type Probe = (&'static str, fn());

fn probes() -> Vec<Probe> {
    vec![
        ("a message", || eprintln!("probe")),
        ("output", || print!("probe")),
        ("an opened file", || { let _ = std::fs::read("/etc/hostname"); }),
        ("a written file", || { let _ = std::fs::write("/nonexistent/probe", b"x"); }),
        ("a look at a file", || { let _ = std::path::Path::new("/etc/hostname").exists(); }),
        ("an environment variable", || { let _ = std::env::var("VERIF_PROBE"); }),
        ("the clock", || { let _ = std::time::Instant::now(); }),
        ("the date", || { let _ = std::time::SystemTime::now(); }),
        ("a connection", || { let _ = std::net::TcpListener::bind("127.0.0.1:0"); }),
        ("a process", || { let _ = std::process::Command::new("/nonexistent/probe").output(); }),
        ("a pause", || std::thread::sleep(std::time::Duration::from_nanos(1))),
        ("the process number", || { let _ = std::process::id(); }),
    ]
}
