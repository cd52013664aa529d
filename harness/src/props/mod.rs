use crate::engine::*;
use std::path::Path;

mod annostore;
mod conc;
mod cs;
mod diskmap;
mod graphml;
mod index;
mod life;
mod linked;
mod parse;
mod persist;
mod query;
pub mod storages;
mod sub;
mod updates;
mod iface;
mod web;

pub fn all() -> Vec<Property> {
    vec![updates::property(), annostore::property(), diskmap::property(), storages::property(), storages::property_stats(), persist::property(), persist::property_crash(),
        query::property_search(), query::property_text(), query::property_edge(), query::property_negation(), query::property_boolean(),
        cs::property_count(), cs::property_order(), cs::property_frequency(),
        parse::property_equivalent(), parse::property_parser(), index::property(), graphml::property_roundtrip(), graphml::property_malformed(), life::property(), linked::property(), web::property_auth(), web::property_files(), iface::property(), conc::property(),
        sub::property_context(), sub::property_extract(), sub::property_listing()]
}

/// Re-run the recorded known findings of a property; one line each.
pub fn run_known(id: &str, scratch: &Path) -> Vec<String> {
    type Demo = fn(&Path) -> crate::engine::R<bool>;
    // only findings listed in the file are reported
    let Ok(listed) = std::fs::read_to_string(crate::verif_root().join("known_findings.txt")) else {
        return vec![];
    };
    let demos: Vec<(&str, &str, Demo)> = vec![("G20", "order-not-total", cs::known_order), ("G11", "empty-doctype", graphml::known_doctype)];
    let mut r = vec![];
    for (p, name, f) in demos {
        if p != id {
            continue;
        }
        let Some(line) = listed.lines().find(|l| l.starts_with(&format!("open: property={p} {name} "))) else { continue };
        let dir = scratch.join(format!("known-{name}"));
        let _ = std::fs::create_dir_all(&dir);
        if let Ok(Ok(true)) = std::panic::catch_unwind(|| f(&dir)) {
            r.push(format!("KNOWN-FINDING: property={p} {}", &line[format!("open: property={p} ").len()..]));
        }
    }
    r
}

/// Helper process entry points used by some checks.
pub fn aux(args: &[String]) -> i32 {
    match args[0].as_str() {
        "crash" => persist::child(&args[1..]),
        _ => 2,
    }
}
