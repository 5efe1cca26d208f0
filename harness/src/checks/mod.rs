//! One module per property.

use crate::docgen::{Cfg, D};
use crate::engine::*;
use crate::md::*;
use hongdown::Options;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;

pub fn all() -> Vec<Check> {
    vec![
        c01::check(),
        c02::check(),
        c03::check(),
        c04::check(),
        c05::check(),
        c06::check(),
        c07::check(),
        c08::check(),
        c09::check(),
        c10::check(),
        c11::check(),
        c12::check(),
        c13::check(),
        c14::check(),
        c15::check(),
        c16::check(),
        c17::check(),
        c18::check(),
        c19::check(),
        c20::check(),
    ]
}

pub fn fmt(d: &str, o: &Options) -> String {
    hongdown::format(d, o).unwrap_or_else(|e| panic!("format returned an error: {e}"))
}

pub fn show(o: &Options, d: &str) -> String {
    format!("options: {}\n--- document\n{d}", crate::opts::show(o))
}

/// `None` if the formatter of the trees agree.
pub fn same_meaning(d: &str, out: &str, o: &Options) -> Result<(), String> {
    let f = fold_of(o);
    match diff(&parse(d, &f).dump(), &parse(out, &f).dump()) {
        None => Ok(()),
        Some(x) => Err(format!("{x}\n--- output\n{out}")),
    }
}

pub fn idempotent(out: &str, o: &Options) -> Result<(), String> {
    let again = fmt(out, o);
    match diff(out, &again) {
        None if again == out => Ok(()),
        x => Err(format!(
            "formatting again changes {}\n--- once\n{out}\n--- twice\n{again}",
            x.unwrap_or("line endings".into())
        )),
    }
}

/// A structured document over everything the generator knows, sometimes concentrated on a few constructs.
pub fn any_doc(g: &mut G, o: &Options) -> String {
    let mut c = full(o);
    if g.p(1, 2) {
        c.max_words = *g.pick(&[12usize, 4, 60]);
    }
    if g.p(1, 3) {
        // leave some constructs out, so that the others meet more often
        for f in crate::docgen::FEATURES {
            if *f != "front" && g.p(1, 2) {
                *c.get(f) = 0;
            }
        }
    }
    D::new(g, c).doc()
}

/// Everything, except what a listed finding makes unstable under these options.
pub fn full(_: &Options) -> Cfg {
    let mut c = Cfg::full();
    c.no_apos = false;
    c
}

/// Options given as JSON, for findings and corpora: every name and value as in `Options`.
pub fn direct_doc(j: &serde_json::Value) -> (String, Options) {
    (
        j["doc"].as_str().expect("HARNESS: doc").to_string(),
        crate::opts::from_json(&j["options"]),
    )
}
