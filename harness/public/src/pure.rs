//! P32: images of unmistakable colours. No clustering is needed to judge them: every group has one colour.
use crate::{must, prec};
use vcommon::img::{self, Img, Rgb};
use vcommon::judge::{pixels, Prec};
use vcommon::rng::Rng;
use vcommon::runner::Ctx;

/// Colours farther apart than the radius can link, even without any distance in space.
const APART: f64 = 0.03;

fn paint(rng: &mut Rng, idx: u64) -> (Img, Vec<Rgb>) {
    let n = *rng.pick(&[1usize, 2, 2, 3, 4, 6, 12, 40]);
    let pal = img::palette(rng, n, APART);
    let n = pal.len();
    let kind = idx % 6;
    let img = match kind {
        // runs along a line
        0 | 1 => {
            let len = rng.range(500, 3000) as u32;
            let mut line = Vec::new();
            while line.len() < len as usize {
                let run = *rng.pick(&[1usize, 5, 24, 25, 26, 60, 200, 900]);
                let col = *rng.pick(&pal);
                line.extend(std::iter::repeat(col).take(run));
            }
            let across = rng.chance(0.5);
            let wide = *rng.pick(&[1u32, 1, 2, 3]);
            let (w, h) = if across { (len, wide) } else { (wide, len) };
            Img::from_fn(w, h, "pure_runs", |x, y| line[if across { x } else { y } as usize])
        }
        // colours by turns
        2 => {
            let len = rng.range(600, 3000) as u32;
            let (a, b) = (rng.range(1, 7) as u32, rng.range(1, n.max(2)) as u32);
            Img::from_fn(1, len, "pure_turns", |_, y| pal[((y / a * b) as usize) % n])
        }
        // any colour anywhere
        3 => {
            let len = rng.range(600, 3000);
            let few = &pal[..n.min(4)];
            let line: Vec<Rgb> = (0..len).map(|_| *rng.pick(few)).collect();
            Img::from_fn(len as u32, 1, "pure_mixed", |x, _| line[x as usize])
        }
        // rectangles on top of each other
        4 => {
            let (w, h) = (rng.range(60, 130) as u32, rng.range(60, 130) as u32);
            let rects: Vec<(u32, u32, u32, u32, Rgb)> = (0..rng.range(1, 12))
                .map(|_| {
                    let (x, y) = (rng.below(w as usize) as u32, rng.below(h as usize) as u32);
                    (x, y, x + rng.range(1, w as usize) as u32, y + rng.range(1, h as usize) as u32, *rng.pick(&pal))
                })
                .collect();
            Img::from_fn(w, h, "pure_rectangles", |x, y| {
                rects.iter().rev().find(|r| x >= r.0 && x < r.2 && y >= r.1 && y < r.3).map_or(pal[0], |r| r.4)
            })
        }
        // one colour far away from the start, few pixels of others
        _ => {
            let (w, h) = (rng.range(1, 3) as u32, rng.range(400, 1200) as u32);
            let odd = rng.range(1, 400) as u32;
            Img::from_fn(w, h, "pure_specks", |x, y| pal[if (x + y * w) % odd == odd - 1 { n - 1 } else { 0 }])
        }
    };
    let mode = rng.below(5);
    (img.with_alpha(rng, mode), pal)
}

#[derive(Clone)]
struct Area {
    pixels: usize,
    x: (u32, u32),
    y: (u32, u32),
    reported: usize,
}

pub fn p32(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        let (i, _) = paint(rng, crate::idx_family(idx));
        let p = prec(rng);
        let Some(sw) = must(c, idx, &i, p) else { return };
        let mut areas: std::collections::BTreeMap<Rgb, Area> = Default::default();
        for k in 0..i.n() {
            let (x, y) = ((k as u32) % i.w, (k as u32) / i.w);
            let a = areas.entry(i.rgb(k)).or_insert(Area { pixels: 0, x: (x, x), y: (y, y), reported: 0 });
            a.pixels += 1;
            a.x = (a.x.0.min(x), a.x.1.max(x));
            a.y = (a.y.0.min(y), a.y.1.max(y));
        }
        c.eval(i.hash() ^ (p == Prec::F32) as u64, !sw.is_empty());
        c.add("colours", areas.len() as u64);
        for s in &sw {
            // sums of single precision may move a mean by a level or two where colours are saturated
            let far = |o: &Rgb| {
                let d = |a: u8, b: u8| (a as i32 - b as i32).unsigned_abs();
                d(o.0, s.color.0).max(d(o.1, s.color.1)).max(d(o.2, s.color.2))
            };
            let near: Vec<Rgb> = areas.keys().filter(|o| far(o) <= if p == Prec::F64 { 0 } else { 2 }).cloned().collect();
            if near.is_empty() {
                c.violate(idx, format!("{:?} {}: a swatch has colour {:?}, which no pixel has", p, i.describe(), s.color));
                return;
            }
            if near.contains(&s.color) {
                c.add("exact_colours", 1);
            }
            let Some(count) = pixels(s, i.n(), p) else {
                c.violate(idx, format!("{:?} {}: {} is no whole number of {} pixels", p, i.describe(), s.pct, i.n()));
                return;
            };
            let inside = |o: &&Rgb| {
                let a = &areas[*o];
                let axis = |v: u32, r: (u32, u32)| v + 1 >= r.0 && v <= r.1;
                axis(s.pos.0, a.x) && axis(s.pos.1, a.y) && a.reported + count <= a.pixels
            };
            match near.iter().find(inside) {
                Some(o) => areas.get_mut(o).unwrap().reported += count,
                None => {
                    let a = &areas[&near[0]];
                    c.violate(idx, format!(
                        "{:?} {}: a swatch of colour {:?} with {count} pixels is said to be at {:?}; the {} pixels of that colour, {} of them in other swatches, lie in columns {:?} and rows {:?}",
                        p, i.describe(), s.color, s.pos, a.pixels, a.reported, a.x, a.y));
                    return;
                }
            }
        }
        c.sample(|| format!("case {idx}: {:?} {} of {} colours -> {:?}", p, i.describe(), areas.len(), sw.iter().map(|s| s.color).take(4).collect::<Vec<_>>()));
    });
}
