"""Makes and confirms planted bugs: seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json}.

  python3 tools/seeds_a.py [ids...]     (re)create and confirm them in scratch copies of /repo
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BASE_COMMIT = "f9a0549"

DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
auto-palette = {{ path = "$repo" }}
rand = "0.8"
num-traits = "0.2"
[profile.release]
debug-assertions = {assertions}
[workspace]
EOF
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUSTFLAGS="{flags}"
cd "$work" || exit 2
cargo{tool} build --offline --quiet --release{target} 2> "$work/log" || {{ cat "$work/log"; exit 3; }}
timeout 200 "$work/target/{dir}release/demo"
'''

HELP = '''
#![allow(dead_code, unused_imports)]
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
pub type S = Vec<((u8, u8, u8), (u32, u32), f64)>;
/// An image from a colour function.
pub fn image(w: u32, h: u32, f: impl Fn(u32, u32) -> (u8, u8, u8, u8)) -> Vec<u8> {
    let mut data = Vec::new();
    for y in 0..h {
        for x in 0..w {
            let (r, g, b, a) = f(x, y);
            data.extend_from_slice(&[r, g, b, a]);
        }
    }
    data
}
pub fn extract(data: &[u8], w: u32, h: u32) -> S {
    let s: Vec<Swatch<f64>> = ImageData::new(data, w, h).extract();
    s.into_iter().map(|s| (s.color, s.position, s.percentage)).collect()
}
pub fn extract32(data: &[u8], w: u32, h: u32) -> S {
    let s: Vec<Swatch<f32>> = ImageData::new(data, w, h).extract();
    s.into_iter().map(|s| (s.color, s.position, s.percentage as f64)).collect()
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
}
'''

def run(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e["RUST_BACKTRACE"]="0"; e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def copy_repo():
    d = tempfile.mkdtemp(prefix="seedrepo-")
    r = os.path.join(d, "repo")
    run(["git", "clone", "-q", "/repo", r])
    return d, r

def seed(id, prop, edits, needs, breaks, demo, hook=False, assertions=False, sanitizer=""):
    only = sys.argv[1:]
    if only and not any(id.startswith(o) for o in only):
        return
    d, r = copy_repo()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) >= 1, f"{id}: not found in {f}: {old}"
            assert s.count(old) == 1, f"{id}: {s.count(old)} times in {f}: {old}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = run(["git", "diff"], cwd=r)
        # every removed line must be an original one
        own = 0
        for f in {e[0] for e in edits}:
            _, out = run(["git", "diff", "-U0", "--", f], cwd=r)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", out, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for line in range(a, a + n):
                    _, b = run(["git", "blame", "-s", "-L", f"{line},{line}", "HEAD", "--", f], cwd=r)
                    if not b.lstrip("^").startswith(BASE_COMMIT[:6]):
                        own += 1
                        print(f"  {id}: touches a line of ours: {b.strip()}")
        out = os.path.join(ROOT, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "main.rs"), "w").write((HELP if not hook or "extract(" in demo or "Rng(" in demo else "") + demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO.format(
            flags=("--cfg auto_palette_verif" if hook else "") + (f" -Zsanitizer={sanitizer}" if sanitizer else ""),
            assertions="true" if assertions else "false",
            tool=" +nightly" if sanitizer else "",
            target=(" --target x86_64-unknown-linux-gnu" + (" -Zbuild-std" if sanitizer != "address" else "")) if sanitizer else "",
            dir="x86_64-unknown-linux-gnu/" if sanitizer else ""))
        if sanitizer == "miri":
            text = DEMO.format(flags="--cfg auto_palette_verif" if hook else "", assertions="false", tool=" +nightly", target="", dir="")
            lines = text.splitlines()[:-2] + ["timeout 280 cargo +nightly miri run --offline --quiet"]
            open(os.path.join(out, "demo.sh"), "w").write("\n".join(lines) + "\n")
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc_t, log = run(["cargo", "test", "--offline", "--no-fail-fast"], cwd=r, env={"CARGO_TARGET_DIR": "/tmp/seed-target"})
        failed = re.findall(r"^test (\S+) .*FAILED", log, re.M)
        npass = len(re.findall(r"^test .* ok$", log, re.M))
        rc_bad, o_bad = run(["bash", os.path.join(out, "demo.sh")], cwd=r)
        run(["git", "checkout", "-q", "--", "."], cwd=r)
        rc_ok, o_ok = run(["bash", os.path.join(out, "demo.sh")], cwd=r)
        good = rc_t == 0 and npass >= len(BASE) and rc_ok == 0 and rc_bad not in (0, 2, 3) and own == 0
        print(f"{id}: {'GOOD' if good else 'BAD'} tests rc={rc_t} pass={npass} failed={failed} demo unchanged={rc_ok} patched={rc_bad} | {o_bad.strip()[-160:]!r}")
        if rc_ok or rc_bad in (0, 2, 3) or rc_t:
            print("   ", o_ok[-600:], o_bad[-600:] if rc_bad in (0,2,3) else "", "\n".join(x for x in log.splitlines() if "FAILED" in x or x.startswith("error"))[:600] if rc_t else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
