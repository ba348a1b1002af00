//! Monitors of the building blocks, reached through the hooks behind `cfg(auto_palette_verif)`.
#[cfg(not(auto_palette_verif_without = "some"))]
mod blocks;
mod cluster;
#[cfg(not(auto_palette_verif_without = "colors"))]
mod colors;
mod hooks;
mod neighbors;
#[cfg(not(auto_palette_verif_without = "numbers"))]
mod numbers;
mod pts;
#[cfg(not(auto_palette_verif_without = "some"))]
mod sanitize;
mod sets;
mod space;
#[cfg(not(auto_palette_verif_without = "colors"))]
mod text;
mod tree;
#[cfg(not(auto_palette_verif_without = "some"))]
mod work;

fn main() {
    let mut c = vcommon::runner::Ctx::from_args();
    match c.pid.clone().as_str() {
        #[cfg(not(auto_palette_verif_without = "colors"))]
        "P10" => colors::p10(&mut c),
        #[cfg(not(auto_palette_verif_without = "colors"))]
        "P11" => colors::p11(&mut c),
        #[cfg(not(auto_palette_verif_without = "colors"))]
        "P12" => colors::p12(&mut c),
        "P13" => neighbors::p13(&mut c),
        "P14" => neighbors::p14(&mut c),
        "P15" => cluster::p15(&mut c),
        "P16" => cluster::p16(&mut c),
        "P17" => cluster::p17(&mut c),
        "P18" => cluster::p18(&mut c),
        "P19" => neighbors::p19(&mut c),
        "P20" => tree::p20(&mut c),
        "P21" => tree::p21(&mut c),
        "P22" => tree::p22(&mut c),
        "P24" if c.extra.iter().any(|e| e == "images") => public_monitors::p24(&mut c),
        #[cfg(not(auto_palette_verif_without = "some"))]
        "P24" => sanitize::p24(&mut c),
        "P25" => space::p25(&mut c),
        #[cfg(not(auto_palette_verif_without = "some"))]
        "P26" => blocks::p26(&mut c),
        "P27" => sets::p27(&mut c),
        #[cfg(not(auto_palette_verif_without = "numbers"))]
        "P28" => numbers::p28(&mut c),
        #[cfg(not(auto_palette_verif_without = "some"))]
        "P31" => work::p31(&mut c),
        #[cfg(not(auto_palette_verif_without = "colors"))]
        "P33" => text::p33(&mut c),
        other => panic!("unknown property {other}"),
    }
    c.finish()
}
