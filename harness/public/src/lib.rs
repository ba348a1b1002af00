//! Monitors of the public interface: ImageData::extract and Swatch.
mod effects;
mod pure;

use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
use std::cmp::Ordering;
use std::collections::{BTreeSet, BinaryHeap};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering as AO};
use std::sync::{Arc, Barrier};
use vcommon::img::{self, Img};
use vcommon::judge::{self, explain, matches, pixels, truth, Aspects, Prec, Sw, ALL};
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

fn run_on(data: &ImageData, p: Prec) -> Vec<Sw> {
    match p {
        Prec::F64 => data
            .extract::<f64>()
            .into_iter()
            .map(|s| Sw { color: s.color, pos: s.position, pct: s.percentage })
            .collect(),
        Prec::F32 => data
            .extract::<f32>()
            .into_iter()
            .map(|s| Sw { color: s.color, pos: s.position, pct: s.percentage as f64 })
            .collect(),
    }
}

fn ex(i: &Img, p: Prec) -> Vec<Sw> {
    run_on(&ImageData::new(&i.data, i.w, i.h), p)
}

/// Bit-exact form of a result.
fn bits(v: &[Sw]) -> Vec<(u8, u8, u8, u32, u32, u64)> {
    v.iter()
        .map(|s| (s.color.0, s.color.1, s.color.2, s.pos.0, s.pos.1, s.pct.to_bits()))
        .collect()
}

fn idx_family(idx: u64) -> u64 {
    idx + idx / 8
}

fn gen(rng: &mut Rng, idx: u64, c: &Ctx) -> Img {
    img::generate(rng, idx_family(idx), c.scale)
}

pub fn prec(rng: &mut Rng) -> Prec {
    if rng.chance(0.4) { Prec::F32 } else { Prec::F64 }
}

fn observe(c: &mut Ctx, i: &Img, sw: &[Sw]) {
    c.add(&format!("images_{}", i.family), 1);
    c.add("pixels", i.n() as u64);
    c.add("swatches", sw.len() as u64);
    c.max("swatches_per_image", sw.len() as u64);
    c.max("pixels_per_image", i.n() as u64);
}

/// Extracts; a panic is a violation of the property under check.
fn must(c: &mut Ctx, idx: u64, i: &Img, p: Prec) -> Option<Vec<Sw>> {
    must_on(c, idx, i, &ImageData::new(&i.data, i.w, i.h), p)
}

fn must_on(c: &mut Ctx, idx: u64, i: &Img, data: &ImageData, p: Prec) -> Option<Vec<Sw>> {
    match guard(|| run_on(data, p)) {
        Ok(v) => {
            observe(c, i, &v);
            Some(v)
        }
        Err(e) => {
            c.violate(idx, format!("extract {:?} of {} ended in {}", p, i.describe(), e));
            None
        }
    }
}

/// As `must`, on a thread with the stack that threads have by default.
fn must_on_thread(c: &mut Ctx, idx: u64, i: &Img, p: Prec) -> Option<Vec<Sw>> {
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || guard(|| ex(i, p)));
        t.expect("a thread").join()
    });
    match r.unwrap_or_else(|_| Err("a panic of its thread".into())) {
        Ok(v) => {
            observe(c, i, &v);
            Some(v)
        }
        Err(e) => {
            c.violate(idx, format!("extract {:?} of {} ended in {}", p, i.describe(), e));
            None
        }
    }
}

pub fn p01(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let i = match idx_family(idx) % 5 {
            _ if img::special(idx_family(idx), c.scale) => gen(rng, idx, c),
            0 => img::gamut_edge(rng, c.scale),
            1 => img::gradient(rng, c.scale),
            2 => {
                if rng.chance(0.5) { img::aligned(rng) } else { extreme(rng) }
            }
            _ => gen(rng, idx, c),
        };
        for p in [Prec::F64, Prec::F32] {
            let before = i.data.clone();
            let Some(sw) = must_on_thread(c, idx, &i, p) else { return };
            if before != i.data {
                c.violate(idx, "the pixels were modified");
            }
            if sw.iter().any(|s| s.pct.is_nan()) {
                c.violate(idx, format!("NaN percentage for {}", i.describe()));
            }
            c.eval(i.hash() ^ (p == Prec::F32) as u64, i.n() > 0);
        }
        c.sample(|| format!("case {idx}: {} -> returned in f64 and f32", i.describe()));
    });
}

/// Degenerate sizes: empty, single pixel, single row or column of up to 70000 pixels.
fn extreme(rng: &mut Rng) -> Img {
    let (w, h) = match rng.below(7) {
        0 => (0, 0),
        1 => (0, rng.below(1000) as u32),
        2 => (rng.below(1000) as u32, 0),
        3 => (1, 1),
        4 => (1, rng.range(65530, 70000) as u32),
        5 => (rng.range(65530, 70000) as u32, 1),
        _ => (rng.range(1, 3) as u32, rng.range(1, 480) as u32),
    };
    let mut r2 = rng.clone();
    let flat = (w as u64 * h as u64) < 2000 && rng.chance(0.5);
    let k = img::color(rng);
    let i = Img::from_fn(w, h, "extreme", |_, _| {
        if flat { k } else { (r2.byte(), r2.byte(), r2.byte()) }
    });
    let m = rng.below(5);
    i.with_alpha(rng, m)
}

/// Shared by P02, P03, P04: an image, its extraction and its certain ground truth.
fn judged(
    c: &mut Ctx,
    idx: u64,
    rng: &mut Rng,
) -> Option<(Img, Prec, Vec<Sw>, judge::Truth)> {
    let i = gen(rng, idx, c);
    let p = prec(rng);
    let sw = must(c, idx, &i, p)?;
    let t = truth(&i, p);
    c.add("groups", t.groups.len() as u64);
    c.add("noise_pixels", t.noise as u64);
    c.add("border_pixels", t.border as u64);
    c.add("shared_border_pixels", t.shared as u64);
    if !t.certain {
        c.add("undecided_at_threshold", 1);
        return None;
    }
    Some((i, p, sw, t))
}

pub fn p02(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let Some((i, p, sw, t)) = judged(c, idx, rng) else { return };
        c.eval(i.hash(), t.groups.len() >= 2);
        if !matches(&sw, &t, p, ALL) {
            c.violate(idx, format!("{:?} {}: {}", p, i.describe(), explain(&sw, &t)));
        }
        c.sample(|| format!("case {idx}: {:?} {} -> {}", p, i.describe(), explain(&sw, &t)));
    });
}

pub fn p03(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let Some((i, p, sw, t)) = judged(c, idx, rng) else { return };
        c.eval(i.hash(), !t.groups.is_empty());
        let count = Aspects { count: true, color: false, pos: false };
        let pos = Aspects { count: false, color: false, pos: true };
        let color = Aspects { count: false, color: true, pos: false };
        let ok = matches(&sw, &t, p, count) && (matches(&sw, &t, p, pos) || matches(&sw, &t, p, color));
        if !ok {
            c.violate(idx, format!("{:?} {}: {}", p, i.describe(), explain(&sw, &t)));
        }
        c.sample(|| {
            format!("case {idx}: {:?} {} groups={} noise={} border={}", p, i.describe(), t.groups.len(), t.noise, t.border)
        });
    });
}

pub fn p04(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let Some((i, p, sw, t)) = judged(c, idx, rng) else { return };
        c.eval(i.hash(), !sw.is_empty() && t.noise > 0);
        let mut total = 0usize;
        for s in &sw {
            match pixels(s, t.n, p) {
                Some(px) if px >= 1 && px <= t.n && s.pct > 0.0 && s.pct <= 1.0 => total += px,
                _ => {
                    c.violate(idx, format!("{:?} {}: percentage {} of {} pixels is not a pixel count in (0, 1]", p, i.describe(), s.pct, t.n));
                    return;
                }
            }
        }
        if total != t.n - t.noise {
            c.violate(idx, format!("{:?} {}: percentages add up to {} pixels, but {} of {} are not noise; {}", p, i.describe(), total, t.n - t.noise, t.n, explain(&sw, &t)));
        }
        // opacity must not matter
        let m = rng.below(5);
        let j = i.clone().with_alpha(rng, m);
        let Some(sw2) = must(c, idx, &j, p) else { return };
        if bits(&sw) != bits(&sw2) {
            c.violate(idx, format!("{:?} {}: changing only the opacity changes the result: {:?} vs {:?}", p, i.describe(), sw, sw2));
        }
        c.sample(|| format!("case {idx}: {:?} {} clustered={} noise={}", p, i.describe(), total, t.noise));
    });
}

pub fn p05(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let i = match idx_family(idx) % 4 {
            _ if img::special(idx_family(idx), c.scale) => gen(rng, idx, c),
            0 => img::many(rng, c.scale),
            1 => img::strips(rng, c.scale),
            2 => img::threshold(rng, c.scale),
            _ => gen(rng, idx, c),
        };
        let p = prec(rng);
        let Some(sw) = must(c, idx, &i, p) else { return };
        let mut values: Vec<u64> = sw.iter().map(|s| s.pct.to_bits()).collect();
        values.sort();
        values.dedup();
        c.eval(i.hash(), values.len() >= 3);
        c.add("images_with_equal_percentages", (values.len() < sw.len()) as u64);
        for w in sw.windows(2) {
            if !(w[0].pct <= w[1].pct) {
                c.violate(idx, format!("{:?} {}: {} precedes {}", p, i.describe(), w[0].pct, w[1].pct));
                break;
            }
        }
        c.sample(|| format!("case {idx}: {} -> percentages {:?}", i.describe(), sw.iter().map(|s| s.pct).collect::<Vec<_>>()));
    });
}

fn fresh_process(i: &Img, p: Prec, tag: &str) -> Result<String, String> {
    let path = std::env::temp_dir().join(format!("vfresh-{}-{}", std::process::id(), tag));
    let mut buf = Vec::new();
    buf.extend_from_slice(&i.w.to_le_bytes());
    buf.extend_from_slice(&i.h.to_le_bytes());
    buf.extend_from_slice(&i.data);
    std::fs::write(&path, buf).map_err(|e| e.to_string())?;
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("fresh")
        .arg("--extra")
        .arg(&path)
        .arg("--extra")
        .arg(if p == Prec::F32 { "f32" } else { "f64" })
        .output();
    let _ = std::fs::remove_file(&path);
    let out = out.map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    match text.trim().strip_prefix("RESULT ") {
        Some(t) if out.status.success() => Ok(t.to_string()),
        _ => Err(format!("status {} output {:?}", out.status, text)),
    }
}

fn fresh(c: &mut Ctx) -> ! {
    let buf = std::fs::read(&c.extra[0]).expect("image file");
    let w = u32::from_le_bytes(buf[0..4].try_into().unwrap());
    let h = u32::from_le_bytes(buf[4..8].try_into().unwrap());
    let i = Img { w, h, data: buf[8..].to_vec(), family: "fresh" };
    let p = if c.extra[1] == "f32" { Prec::F32 } else { Prec::F64 };
    println!("RESULT {:?}", bits(&ex(&i, p)));
    std::process::exit(0)
}

/// The case of a run that makes more than 65,536 calls; the first one of its worker.
const MARATHON: u64 = 2;

/// Tens of thousands of calls on tiny images, and every now and then one on an image with regions.
fn marathon(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let mut tiny: Vec<Img> = Vec::new();
    for n in 0..6u32 {
        let mut r2 = rng.clone();
        rng.u64();
        tiny.push(Img::from_fn(1 + n % 3, n, "tiny", |_, _| img::color(&mut r2)));
    }
    let pool = [img::strips(rng, 0.3), img::threshold(rng, 0.3), img::razor(rng, 0.3)];
    let mut first: std::collections::HashMap<(bool, usize, bool), Vec<(u8, u8, u8, u32, u32, u64)>> = Default::default();
    let calls: u32 = if c.thorough { 400_000 } else { 70_000 };
    for n in 0..calls {
        let p = prec(rng);
        // counters are apt to run over at such numbers of calls
        let round = [100u32, 128, 256, 500, 512, 1000, 1024, 4096, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536];
        let large = n % 50 == 0 || round.iter().any(|m| n.abs_diff(*m) <= 6);
        let k = rng.below(if large { pool.len() } else { tiny.len() });
        let i = if large { &pool[k] } else { &tiny[k] };
        let r = match guard(|| ex(i, p)) {
            Ok(r) => bits(&r),
            Err(e) => {
                c.violate(idx, format!("call {n} on {:?} {}: {e}", p, i.describe()));
                return;
            }
        };
        let want = first.entry((large, k, p == Prec::F32)).or_insert_with(|| r.clone());
        if r != *want {
            c.violate(idx, format!("{:?} {} returned {:?} first and {:?} in call {n}", p, i.describe(), want, r));
            return;
        }
        c.add("calls_of_a_marathon", 1);
    }
    c.eval(pool[0].hash(), true);
}

pub fn p06(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        if idx == MARATHON && c.scale >= 1.0 {
            return marathon(c, idx, rng);
        }
        // A pool of images; several share dimensions so that one buffer can hold each in turn.
        let mut pool: Vec<Img> = vec![img::ties(rng, c.scale), img::strips(rng, c.scale), gen(rng, idx, c)];
        let base = pool[0].clone();
        for _ in 0..2 {
            // same dimensions, different pixels
            let mut j = base.clone();
            let pal = img::palette(rng, 5, 0.05);
            let (w, shift) = (j.w as usize, rng.below(3));
            for k in 0..j.n() {
                let col = pal[(k % w + shift) % pal.len()];
                j.data[4 * k] = col.0;
                j.data[4 * k + 1] = col.1;
                j.data[4 * k + 2] = col.2;
            }
            pool.push(j);
        }
        {
            // differs in few pixels only
            let mut j = base.clone();
            let from = rng.below(j.n());
            for k in from..(from + 40).min(j.n()) {
                let col = img::color(rng);
                j.data[4 * k..4 * k + 3].copy_from_slice(&[col.0, col.1, col.2]);
            }
            pool.push(j);
            // same bytes, other dimensions
            let mut j = base.clone();
            std::mem::swap(&mut j.w, &mut j.h);
            pool.push(j);
        }
        let mut first: std::collections::HashMap<(usize, bool), Vec<(u8, u8, u8, u32, u32, u64)>> = Default::default();
        let mut buffer: Vec<u8> = Vec::new();
        let ops = 14;
        let mut history = Vec::new();
        for step in 0..ops {
            let k = if step < 2 { 0 } else { rng.below(pool.len()) };
            let p = if step < 2 { Prec::F64 } else { prec(rng) };
            let reuse = rng.chance(0.5);
            history.push((k, p, reuse));
            let r = if reuse {
                // the same allocation holds different images over time, at any alignment
                let shift = rng.below(8);
                buffer.clear();
                buffer.reserve(400_000);
                buffer.resize(shift, 0xa5);
                buffer.extend_from_slice(&pool[k].data);
                let (w, h) = (pool[k].w, pool[k].h);
                let mut image = ImageData::new(&buffer[shift..], w, h);
                // one handle may serve several calls, in either precision
                if rng.chance(0.3) {
                    let other = if p == Prec::F64 { Prec::F32 } else { Prec::F64 };
                    let again = must_on(c, idx, &pool[k], &image, if rng.chance(0.5) { other } else { p });
                    c.add("calls_on_one_handle", 2);
                    if again.is_none() {
                        return;
                    }
                    // its dimensions may be changed and changed back
                    if w != h && rng.chance(0.5) {
                        (image.width, image.height) = (h, w);
                        let mut turned = pool[k].clone();
                        (turned.w, turned.h) = (h, w);
                        let (a, b) = (must_on(c, idx, &turned, &image, p), must(c, idx, &turned, p));
                        let (Some(a), Some(b)) = (a, b) else { return };
                        c.add("handles_with_changed_dimensions", 1);
                        if bits(&a) != bits(&b) {
                            c.violate(idx, format!("{:?} {}: {:?} after its dimensions were changed, {:?} from a fresh handle", p, turned.describe(), a, b));
                            return;
                        }
                        (image.width, image.height) = (w, h);
                    }
                }
                must_on(c, idx, &pool[k], &image, p)
            } else {
                let copy = pool[k].clone();
                must(c, idx, &copy, p)
            };
            let Some(r) = r else { return };
            let b = bits(&r);
            c.eval(pool[k].hash() ^ step as u64, r.len() >= 2 && step > 0);
            match first.get(&(k, p == Prec::F32)) {
                None => {
                    first.insert((k, p == Prec::F32), b);
                }
                Some(f) => {
                    c.add("repeated_extractions_compared", 1);
                    if *f != b {
                        c.violate(idx, format!("{:?} {} returned {:?} first and {:?} after the history {:?}", p, pool[k].describe(), f, b, history));
                        return;
                    }
                }
            }
        }
        // one of them in a fresh process
        let keys: Vec<(usize, bool)> = { let mut v: Vec<_> = first.keys().cloned().collect(); v.sort(); v };
        let tries = if c.thorough { 4 } else { 2 };
        for t in 0..tries {
            let key = if t == 0 { keys[keys.len() - 1] } else { keys[rng.below(keys.len())] };
            let p = if key.1 { Prec::F32 } else { Prec::F64 };
            match fresh_process(&pool[key.0], p, &format!("{idx}-{t}")) {
                Ok(text) => {
                    c.add("fresh_processes_compared", 1);
                    let here = format!("{:?}", first[&key]);
                    if text != here {
                        c.violate(idx, format!("{:?} {} gives {} in this process and {} in a fresh one", p, pool[key.0].describe(), here, text));
                        return;
                    }
                }
                Err(e) => {
                    c.violate(idx, format!("{:?} {} extracted here but a fresh process ended with {}", p, pool[key.0].describe(), e));
                    return;
                }
            }
        }
        c.sample(|| format!("case {idx}: history {:?} over {} images", history, pool.len()));
    });
}

struct Probe<T: ?Sized>(PhantomData<T>);
trait Fallback {
    const OK: bool = false;
}
impl<T: ?Sized> Fallback for Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
    const OK: bool = true;
}

pub fn p07(c: &mut Ctx) {
    let auto_traits = [
        ("ImageData", Probe::<ImageData<'static>>::OK),
        ("Swatch<f64>", Probe::<Swatch<f64>>::OK),
        ("Swatch<f32>", Probe::<Swatch<f32>>::OK),
    ];
    for (n, ok) in auto_traits {
        if !ok {
            c.violate(0, format!("{n} is not Send + Sync"));
        }
    }
    let small = c.scale < 1.0;
    c.run(|c, idx, rng| {
        let mut pool: Vec<Img> = Vec::new();
        pool.push(img::ties(rng, c.scale));
        // Same dimensions, other pixels: state shared by dimension would mix these up.
        for _ in 0..3 {
            let mut j = pool[0].clone();
            let pal = img::palette(rng, 4, 0.05);
            let w = j.w as usize;
            for k in 0..j.n() {
                let col = pal[(k % w) % pal.len()];
                j.data[4 * k..4 * k + 3].copy_from_slice(&[col.0, col.1, col.2]);
            }
            pool.push(j);
        }
        pool.push(img::strips(rng, c.scale));
        pool.push(img::tiny(rng, c.scale));
        if !small {
            pool.push(gen(rng, idx, c));
        }
        let mut alone = Vec::new();
        for i in &pool {
            let (Some(a), Some(b)) = (must(c, idx, i, Prec::F64), must(c, idx, i, Prec::F32)) else { return };
            alone.push((bits(&a), bits(&b)));
        }
        let pool = Arc::new(pool);
        let alone = Arc::new(alone);
        // now and then far more threads than the machine has cores
        let many = idx / 5 % 4 == 1;
        let threads = match (small, many) {
            (true, false) => 4,
            (true, true) => 10,
            (false, false) => 6,
            (false, true) => rng.range(18, 48),
        };
        let calls = if many { 2 } else if small { 3 } else { 6 };
        c.max("threads", threads as u64);
        let barrier = Arc::new(Barrier::new(threads));
        let inflight = Arc::new(AtomicUsize::new(0));
        let overlapped = Arc::new(AtomicU64::new(0));
        let mut handles = Vec::new();
        for t in 0..threads {
            let (pool, alone, barrier) = (pool.clone(), alone.clone(), barrier.clone());
            let (inflight, overlapped) = (inflight.clone(), overlapped.clone());
            let mut rng = Rng::new(rng.u64());
            handles.push(std::thread::spawn(move || -> Result<u64, String> {
                barrier.wait();
                let mut order = 0u64;
                for n in 0..calls {
                    let k = if n == 0 && t % 2 == 0 { t % 4 } else { rng.below(pool.len()) };
                    let p = if rng.chance(0.3) { Prec::F32 } else { Prec::F64 };
                    for _ in 0..rng.below(4) {
                        std::thread::yield_now();
                    }
                    let before = inflight.fetch_add(1, AO::SeqCst);
                    if before > 0 {
                        overlapped.fetch_add(1, AO::SeqCst);
                    }
                    order = order.wrapping_mul(31).wrapping_add((before * 64 + k) as u64);
                    let r = guard(|| ex(&pool[k], p));
                    inflight.fetch_sub(1, AO::SeqCst);
                    let r = r.map_err(|e| format!("thread {t}: {} of {}", e, pool[k].describe()))?;
                    let want = if p == Prec::F32 { &alone[k].1 } else { &alone[k].0 };
                    if bits(&r) != *want {
                        return Err(format!("thread {t}: {:?} {} gives {:?} concurrently and {:?} alone", p, pool[k].describe(), bits(&r), want));
                    }
                }
                Ok(order)
            }));
        }
        let mut signature = 0u64;
        for h in handles {
            match h.join() {
                Ok(Ok(o)) => signature = vcommon::rng::mix(&[signature, o]),
                Ok(Err(e)) => c.violate(idx, e),
                Err(_) => c.violate(idx, "a worker thread died"),
            }
        }
        let o = overlapped.load(AO::SeqCst);
        c.add("concurrent_calls", (threads * calls) as u64);
        c.add("calls_started_while_another_ran", o);
        // the signature identifies the observed start order and overlap, i.e. the interleaving
        c.eval(signature ^ pool[0].hash(), o > 0);
        c.sample(|| format!("case {idx}: {} threads x {} calls, {} overlapping, interleaving signature {:016x}", threads, calls, o, signature));
    });
}

fn pair_all(a: &[Sw], b: &[Sw], ok: impl Fn(&Sw, &Sw) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let adj: Vec<Vec<usize>> = a.iter().map(|x| (0..b.len()).filter(|j| ok(x, &b[*j])).collect()).collect();
    let mut owner = vec![usize::MAX; b.len()];
    fn aug(s: usize, adj: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
        for &g in &adj[s] {
            if !seen[g] {
                seen[g] = true;
                if owner[g] == usize::MAX || aug(owner[g], adj, owner, seen) {
                    owner[g] = s;
                    return true;
                }
            }
        }
        false
    }
    (0..a.len()).all(|s| aug(s, &adj, &mut owner, &mut vec![false; b.len()]))
}

fn color_close(a: (u8, u8, u8), b: (u8, u8, u8), tol: i32) -> bool {
    let d = |x: u8, y: u8| (x as i32 - y as i32).abs() <= tol;
    d(a.0, b.0) && d(a.1, b.1) && d(a.2, b.2)
}

pub fn p08(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let i = gen(rng, idx, c);
        let p = prec(rng);
        let Some(base) = must(c, idx, &i, p) else { return };
        for s in &base {
            if s.pos.0 >= i.w || s.pos.1 >= i.h {
                c.violate(idx, format!("{:?} {}: position {:?} lies outside the image", p, i.describe(), s.pos));
                return;
            }
        }
        c.eval(i.hash(), !base.is_empty());
        let large = i.n() > 20_000;
        if large && (p == Prec::F32 || idx % 2 == 1) {
            c.add("bounds_only_large", 1);
            return;
        }
        let t = truth(&i, p);
        if !t.certain || t.shared > 0 {
            c.add("symmetry_undecided", 1);
            return;
        }
        let variants: Vec<(&str, Img)> = match rng.below(2) {
            0 => vec![("mirror x", i.mirrored(true, false)), ("transpose", i.transposed())],
            _ => vec![("mirror y", i.mirrored(false, true)), ("rotate 180", i.mirrored(true, true))],
        };
        for (name, j) in variants.into_iter().take(if large { 1 } else { 2 }) {
            let Some(sw) = must(c, idx, &j, p) else { return };
            // a mean in [p, p+1) becomes one in (w-2-p, w-1-p]; one more for rounding at integers
            let slack: i64 = if p == Prec::F32 { 2 } else { 1 };
            let flip = |x: u32, y: u32, n: u32| {
                let e = n as i64 - 1 - x as i64;
                let y = y as i64;
                y <= e + slack - 1 && y >= e - 1 - slack
            };
            let same = |x: u32, y: u32| (x as i64 - y as i64).abs() <= slack;
            let ok = pair_all(&base, &sw, |a, b| {
                let pos = match name {
                    "mirror x" => flip(a.pos.0, b.pos.0, i.w) && same(a.pos.1, b.pos.1),
                    "mirror y" => same(a.pos.0, b.pos.0) && flip(a.pos.1, b.pos.1, i.h),
                    "rotate 180" => flip(a.pos.0, b.pos.0, i.w) && flip(a.pos.1, b.pos.1, i.h),
                    _ => same(a.pos.0, b.pos.1) && same(a.pos.1, b.pos.0),
                };
                pos && color_close(a.color, b.color, if p == Prec::F32 { 2 } else { 1 })
                    && pixels(a, i.n(), p) == pixels(b, i.n(), p)
            });
            c.add("symmetries_compared", 1);
            if !ok {
                c.violate(idx, format!("{:?} {}: {} gives {:?}, the original {:?}", p, i.describe(), name, sw, base));
                return;
            }
        }
        c.sample(|| format!("case {idx}: {:?} {} with {} swatches", p, i.describe(), base.len()));
    });
}

pub fn p09(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let i = gen(rng, idx, c);
        if i.n() > 10_000 {
            c.add("skipped_large", 1);
            return;
        }
        let (Some(a), Some(b)) = (must(c, idx, &i, Prec::F64), must(c, idx, &i, Prec::F32)) else { return };
        let t = truth(&i, Prec::F32);
        if !t.certain || t.shared > 0 {
            c.add("undecided", 1);
            return;
        }
        c.eval(i.hash(), !a.is_empty());
        let n = i.n();
        let ok = pair_all(&a, &b, |x, y| {
            let near = |u: u32, v: u32| (u as i64 - v as i64).abs() <= 1;
            pixels(x, n, Prec::F64).is_some()
                && pixels(x, n, Prec::F64) == pixels(y, n, Prec::F32)
                && color_close(x.color, y.color, 2)
                && near(x.pos.0, y.pos.0)
                && near(x.pos.1, y.pos.1)
        });
        if !ok {
            c.violate(idx, format!("{}: f64 gives {:?}, f32 gives {:?}", i.describe(), a, b));
        }
        c.sample(|| format!("case {idx}: {} f64 and f32 agree on {} swatches", i.describe(), a.len()));
    });
}

fn laws(c: &mut Ctx, idx: u64, s: &[Swatch<f64>]) {
    let eq = |a: &Swatch<f64>, b: &Swatch<f64>| {
        a.color == b.color && a.position == b.position && a.percentage == b.percentage
    };
    let n = s.len();
    let mut ord = vec![Ordering::Equal; n * n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&s[i], &s[j]);
            let o = a.cmp(b);
            ord[i * n + j] = o;
            let bad = if a.partial_cmp(b) != Some(o) {
                "partial_cmp and cmp disagree"
            } else if b.cmp(a) != o.reverse() {
                "the order is not antisymmetric"
            } else if (a == b) != eq(a, b) {
                "equality does not compare all fields"
            } else if (o == Ordering::Equal) != (a == b) {
                "cmp is Equal but the swatches differ, or the reverse"
            } else if a.percentage < b.percentage && o != Ordering::Less {
                "a smaller percentage does not compare as smaller"
            } else if (a < b) != (o == Ordering::Less) || (a > b) != (o == Ordering::Greater)
                || (a <= b) != (o != Ordering::Greater) || (a >= b) != (o != Ordering::Less)
            {
                "operators disagree with cmp"
            } else {
                ""
            };
            if !bad.is_empty() {
                c.violate(idx, format!("{bad}: {:?} and {:?} ({:?})", a, b, o));
                return;
            }
        }
    }
    c.evals((n * n) as u64);
    c.add("pairs", (n * n) as u64);
    for i in 0..n {
        for j in 0..n {
            if ord[i * n + j] == Ordering::Greater {
                continue;
            }
            for k in 0..n {
                if ord[j * n + k] != Ordering::Greater && ord[i * n + k] == Ordering::Greater {
                    c.violate(idx, format!("not transitive: {:?} {:?} {:?}", s[i], s[j], s[k]));
                    return;
                }
            }
        }
    }
    c.add("triples", (n * n * n) as u64);
    // containers must neither lose nor misplace swatches
    let set: BTreeSet<Swatch<f64>> = s.iter().cloned().collect();
    let mut uniq: Vec<&Swatch<f64>> = Vec::new();
    for x in s {
        if !uniq.iter().any(|u| eq(u, x)) {
            uniq.push(x);
        }
    }
    if set.len() != uniq.len() {
        c.violate(idx, format!("an ordered set keeps {} of {} distinct swatches", set.len(), uniq.len()));
        return;
    }
    let mut heap: BinaryHeap<Swatch<f64>> = s.iter().cloned().collect();
    let mut last = f64::INFINITY;
    while let Some(x) = heap.pop() {
        if x.percentage > last {
            c.violate(idx, "a heap yields swatches out of order".to_string());
            return;
        }
        last = x.percentage;
    }
}

pub fn p23(c: &mut Ctx) {
    let grid = {
        let mut v = Vec::new();
        for pct in [0.0, -0.0, 0.1, f64::from_bits(0.1f64.to_bits() + 1), 0.5, 1.0, f64::INFINITY, -1.0, 5e-324, f64::MIN_POSITIVE] {
            for col in [(0u8, 0u8, 0u8), (0, 0, 1), (0, 1, 0), (1, 0, 0), (255, 255, 255)] {
                for pos in [(0u32, 0u32), (0, 1), (1, 0)] {
                    v.push(Swatch { color: col, position: pos, percentage: pct });
                }
            }
        }
        v
    };
    laws(c, 0, &grid);
    c.run(|c, idx, rng| {
        let n = rng.range(2, 40);
        let mut s: Vec<Swatch<f64>> = Vec::new();
        for _ in 0..n {
            let pct = match rng.below(4) {
                0 => rng.below(5) as f64 / 4.0,
                1 => f64::from_bits((0.25f64).to_bits() + rng.below(3) as u64),
                _ => rng.f(),
            };
            let few = rng.chance(0.6);
            let mut b = |m: usize| if few { rng.below(m) as u8 } else { rng.byte() };
            let col = (b(2), b(2), b(3));
            let pos = if few { (rng.below(2) as u32, rng.below(3) as u32) } else { (rng.u64() as u32, rng.u64() as u32) };
            s.push(Swatch { color: col, position: pos, percentage: pct });
        }
        let key = vcommon::runner::hash_f64s(s.iter().flat_map(|x| [x.percentage, x.position.0 as f64, x.color.0 as f64]));
        c.eval(key, true);
        laws(c, idx, &s);
        // single precision: same laws on rounded values
        let t: Vec<Swatch<f32>> = s.iter().map(|x| Swatch { color: x.color, position: x.position, percentage: x.percentage as f32 }).collect();
        for a in &t {
            for b in &t {
                let o = a.cmp(b);
                if a.partial_cmp(b) != Some(o) || b.cmp(a) != o.reverse() || (o == Ordering::Equal) != (a == b)
                    || (a.percentage < b.percentage && o != Ordering::Less)
                {
                    c.violate(idx, format!("f32 ordering laws broken by {:?} and {:?}", a, b));
                    return;
                }
            }
        }
        c.sample(|| format!("case {idx}: {} swatches, e.g. {:?} {:?}", n, s[0], s[1]));
    });
}

/// The public part of the sanitizer workload: exact-size heap buffers, every family, small scale.
pub fn p24(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let i = if c.extra.iter().any(|e| e == "miri") {
            // small enough for the interpreter; regions take 500 pixels, which is left to the building blocks
            let (w, h) = *rng.pick(&[(0u32, 0u32), (1, 1), (3, 2), (1, 7)]);
            let mut r2 = rng.clone();
            Img::from_fn(w, h, "miri", |_, _| img::color(&mut r2))
        } else if idx_family(idx) % 4 == 0 {
            extreme(rng)
        } else {
            gen(rng, idx, c)
        };
        // at the end of an allocation of its own, which starts with it or up to three bytes before
        let by = if rng.chance(0.6) { 0 } else { rng.range(1, 3) };
        let mut whole = vec![0u8; by];
        whole.extend_from_slice(&i.data);
        let whole: Box<[u8]> = whole.into_boxed_slice();
        let boxed = &whole[by..];
        c.add(if boxed.as_ptr() as usize % 4 == 0 { "aligned_buffers" } else { "unaligned_buffers" }, 1);
        for p in [Prec::F64, Prec::F32] {
            let r = guard(|| {
                let d = ImageData::new(boxed, i.w, i.h);
                match p {
                    Prec::F64 => d.extract::<f64>().len(),
                    Prec::F32 => d.extract::<f32>().len(),
                }
            });
            match r {
                Ok(n) => c.add("swatches", n as u64),
                // a clean panic is memory safe (and the business of P01)
                Err(e) if memory_panic(&e) => c.violate(idx, format!("{:?} {}: {}", p, i.describe(), e)),
                Err(_) => c.add("panics", 1),
            }
            if boxed[..] != i.data[..] {
                c.violate(idx, format!("{:?} {}: the caller's pixels were modified", p, i.describe()));
            }
            c.eval(i.hash() ^ (p == Prec::F32) as u64, i.n() > 0);
        }
        c.add("pixels", i.n() as u64);
        c.add(&format!("images_{}", i.family), 1);
        c.sample(|| format!("case {idx}: {} in both precisions", i.describe()));
    });
}

fn memory_panic(e: &str) -> bool {
    e.contains("unsafe precondition") || e.contains("misaligned pointer") || e.contains("null pointer")
}


pub fn dispatch(c: &mut Ctx) {
    match c.pid.clone().as_str() {
        "fresh" => fresh(c),
        "P01" => p01(c),
        "P02" => p02(c),
        "P03" => p03(c),
        "P04" => p04(c),
        "P05" => p05(c),
        "P06" => p06(c),
        "P07" => p07(c),
        "P08" => p08(c),
        "P09" => p09(c),
        "P23" => p23(c),
        "P24" => p24(c),
        "P29" => effects::p29(c),
        "P30" => effects::p30(c),
        "P32" => pure::p32(c),
        other => panic!("unknown property {other}"),
    }
}
