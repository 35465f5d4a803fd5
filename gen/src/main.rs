//! C19: the Rust types generated for layouts.
mod decl;
mod macros;
mod types;

use mc::{fam::faithful, gfam, model::*, rt::Ctx};
use serde_json::json;

fn main() {
    mc::rt::main(|prop| (prop == "C19").then_some(c19 as fn(&Ctx)))
}

fn c19(ctx: &Ctx) {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR"));
    for (f, text) in gfam::emit() {
        if std::fs::read_to_string(dir.join(&f)).ok().as_ref() != Some(&text) {
            ctx.violate("files", "checker: a file is not what `mc --emit-gen` writes", json!(f));
            return;
        }
    }
    decl::declarations(ctx);
    decl::identifiers(ctx);
    decl::several_names(ctx);
    decl::modules(ctx);
    decl::components(ctx);
    decl::trivial(ctx);
    decl::binary(ctx);
    decl::numbers(ctx);
    macros::macros(ctx);
    // the types behave as the layouts
    let mut systems: Vec<Sys> = gfam::systems().into_iter().map(|s| s.sys).collect();
    systems.extend(gfam::modules().into_iter().map(|s| s.sys));
    let fam: Vec<_> = systems
        .into_iter()
        .zip(types::ALL)
        .map(|(s, (name, ops))| {
            assert_eq!(*name, s.name);
            (s, ops)
        })
        .collect();
    assert_eq!(fam.len(), types::ALL.len());
    let known = faithful(2).into_iter().flat_map(|s| [format!("{}~Short", s.name), format!("{}~Long", s.name)]).collect();
    typed::check::explore(ctx, &fam, &known, true);
}
