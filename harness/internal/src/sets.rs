//! P27: disjoint sets.
use crate::hooks::*;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

/// Tens of thousands of elements, united in rounds; the expected label of everyone is followed by rounds.
fn balanced(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let n = rng.range(40_000, 70_000);
    let mut queue: std::collections::VecDeque<(usize, Vec<usize>)> = (0..n).map(|i| (i, vec![i])).collect();
    let (mut ops, mut want, mut label) = (Vec::new(), Vec::new(), n);
    let mut of: Vec<usize> = (0..n).collect();
    let stop = rng.range(1, 40);
    while queue.len() > stop {
        let (x, mut a) = queue.pop_front().unwrap();
        let (y, mut b) = queue.pop_front().unwrap();
        ops.push(if rng.chance(0.5) { SetOp::Union(x, y) } else { SetOp::Union(y, x) });
        if a.len() < b.len() {
            std::mem::swap(&mut a, &mut b);
        }
        a.extend(b);
        want.push(a.len());
        for m in &a {
            of[*m] = label;
        }
        if rng.chance(0.2) {
            let m = *rng.pick(&a);
            ops.push(SetOp::Find(m));
            want.push(label);
        }
        queue.push_back((label, a));
        label += 1;
    }
    for x in 0..n {
        ops.push(SetOp::Find(x));
        want.push(of[x]);
    }
    c.eval(vcommon::rng::mix(&[n as u64, idx, label as u64]), true);
    c.add("large_histories", 1);
    c.max("elements", n as u64);
    match guard(|| disjoint_sets(n, &ops)) {
        Ok(got) => {
            if let Some(i) = (0..ops.len()).find(|i| got.get(*i) != Some(&want[*i])) {
                c.violate(idx, format!("n={n}: operation {i} {:?} gives {:?} instead of {}", ops[i], got.get(i), want[i]));
            }
        }
        Err(e) => c.violate(idx, format!("n={n}: ended in {e}")),
    }
}

/// P27: any history of unions and look-ups against explicit sets.
pub fn p27(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        if c.scale >= 1.0 && idx % 2001 == 2000 {
            return balanced(c, idx, rng);
        }
        let n = match rng.below(8) {
            0 => 1,
            1..=4 => rng.range(2, 12),
            5 | 6 => rng.range(10, 120),
            _ => rng.range(100, 1500),
        };
        // model: the set of each label, the current roots
        let mut set_of: Vec<usize> = (0..2 * n).collect();
        let mut size: Vec<usize> = vec![1; n];
        let mut roots: Vec<usize> = (0..n).collect();
        let mut ops = Vec::new();
        let mut want = Vec::new();
        let style = rng.below(4);
        let finds = *rng.pick(&[0.1, 0.5, 0.8]);
        let mut members: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
        while roots.len() > 1 || rng.chance(0.7) {
            if roots.len() == 1 || rng.chance(finds) {
                let x = rng.below(members.len());
                ops.push(SetOp::Find(x));
                want.push(set_of[x]);
                continue;
            }
            if style == 3 && rng.chance(0.02) {
                break;
            }
            let len = roots.len();
            let (a, b) = match style {
                // a chain: the newest set joins a single element, deep trees
                0 => (len - 1, rng.below(len - 1)),
                // neighbours: balanced
                1 => (0, 1),
                _ => {
                    let a = rng.below(len);
                    (a, (a + 1 + rng.below(len - 1)) % len)
                }
            };
            let (mut x, mut y) = (roots[a], roots[b]);
            if rng.chance(0.5) {
                std::mem::swap(&mut x, &mut y);
            }
            let label = members.len();
            let mut all = std::mem::take(&mut members[x]);
            all.extend(std::mem::take(&mut members[y]));
            all.push(label);
            for m in &all {
                set_of[*m] = label;
            }
            members.push(all);
            size.push(size[x] + size[y]);
            roots.retain(|r| *r != x && *r != y);
            roots.push(label);
            ops.push(SetOp::Union(x, y));
            want.push(size[label]);
        }
        // finally, everything once more
        for x in 0..members.len() {
            ops.push(SetOp::Find(x));
            want.push(set_of[x]);
        }
        let key = ops.iter().fold(n as u64, |h, o| {
            vcommon::rng::mix(&[h, match o {
                SetOp::Find(x) => *x as u64,
                SetOp::Union(x, y) => (*x as u64) << 32 | *y as u64 | 1 << 63,
            }])
        });
        c.eval(key, n > 2);
        c.add("finds", ops.iter().filter(|o| matches!(o, SetOp::Find(_))).count() as u64);
        c.add("unions", ops.iter().filter(|o| matches!(o, SetOp::Union(..))).count() as u64);
        c.max("elements", n as u64);
        match guard(|| disjoint_sets(n, &ops)) {
            Ok(got) => {
                if let Some(i) = (0..ops.len()).find(|i| got.get(*i) != Some(&want[*i])) {
                    let from = i.saturating_sub(30);
                    c.violate(idx, format!("n={n}: operation {i} {:?} gives {:?} instead of {}, after {:?}", ops[i], got.get(i), want[i], &ops[from..i]));
                }
            }
            Err(e) => c.violate(idx, format!("n={n} {:?}: ended in {e}", &ops[..ops.len().min(60)])),
        }
        c.sample(|| format!("case {idx}: {n} elements, {} operations", ops.len()));
    });
}
