//! Reference density clustering (DBSCAN definition), evaluated at two thresholds just below and
//! just above the nominal radius, so that verdicts are only given when rounding cannot matter.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Density {
    /// Connected component of each core point (numbered by smallest index), u32::MAX otherwise.
    pub comp: Vec<u32>,
    pub n_comps: usize,
    /// Non-core points with the components they touch.
    pub border: Vec<(u32, Vec<u32>)>,
    pub noise: Vec<u32>,
}

fn find(p: &mut [u32], mut x: u32) -> u32 {
    while p[x as usize] != x {
        p[x as usize] = p[p[x as usize] as usize];
        x = p[x as usize];
    }
    x
}

/// `near(i, &mut f)` calls f(j, d) for every j (itself included) with distance d <= hi at least.
pub fn density_at(
    n: usize,
    min_points: usize,
    radius: f64,
    near: &dyn Fn(usize, &mut dyn FnMut(usize, f64)),
) -> Density {
    let mut core = vec![false; n];
    for i in 0..n {
        let mut c = 0usize;
        near(i, &mut |_, d| {
            if d <= radius {
                c += 1
            }
        });
        core[i] = c >= min_points;
    }
    let mut parent: Vec<u32> = (0..n as u32).collect();
    for i in 0..n {
        if core[i] {
            near(i, &mut |j, d| {
                if d <= radius && core[j] {
                    let (a, b) = (find(&mut parent, i as u32), find(&mut parent, j as u32));
                    if a < b {
                        parent[b as usize] = a
                    } else {
                        parent[a as usize] = b
                    }
                }
            });
        }
    }
    let mut comp = vec![u32::MAX; n];
    let mut ids = vec![u32::MAX; n];
    let mut n_comps = 0u32;
    for i in 0..n {
        if core[i] {
            let r = find(&mut parent, i as u32) as usize;
            if ids[r] == u32::MAX {
                ids[r] = n_comps;
                n_comps += 1;
            }
            comp[i] = ids[r];
        }
    }
    let mut border = Vec::new();
    let mut noise = Vec::new();
    for i in 0..n {
        if !core[i] {
            let mut t: Vec<u32> = Vec::new();
            near(i, &mut |j, d| {
                if d <= radius && core[j] {
                    t.push(comp[j])
                }
            });
            t.sort_unstable();
            t.dedup();
            if t.is_empty() {
                noise.push(i as u32)
            } else {
                border.push((i as u32, t))
            }
        }
    }
    Density {
        comp,
        n_comps: n_comps as usize,
        border,
        noise,
    }
}

/// Returns the clustering and whether it is certain, i.e. the same at both ends of lo..hi.
pub fn density(
    n: usize,
    min_points: usize,
    lo: f64,
    hi: f64,
    near: &dyn Fn(usize, &mut dyn FnMut(usize, f64)),
) -> (Density, bool) {
    let mut band = false;
    for i in 0..n {
        near(i, &mut |_, d| {
            if d > lo && d <= hi {
                band = true
            }
        });
        if band {
            break;
        }
    }
    let a = density_at(n, min_points, lo, near);
    if !band {
        return (a, true);
    }
    let b = density_at(n, min_points, hi, near);
    let same = a == b;
    (a, same)
}
