//! C18: types with derived implementations behave as the layouts they stand for.
mod rejects;
mod types;

use mc::{dfam, fam::faithful, model::*, real::FlatDs, rt::Ctx, vocab::World};
use rdf_types::{Id, Quad};
use serde_json::json;

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id)]
struct Named(Id);

impl treeldr::AsId for Named {
    fn as_id(&self) -> Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> {
        self.0.as_id()
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--emit") {
        print!("{}", dfam::emit());
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("--cyclic") {
        return cyclic_child();
    }
    mc::rt::main(|prop| (prop == "C18").then_some(c18 as fn(&Ctx)))
}

const CYCLIC: &str = "recursive:kids~Short";

/// Reads cyclic data as a recursive type: run in a process of its own.
pub fn cyclic_child() {
    let (_, ops) = types::ALL.iter().find(|t| t.0 == CYCLIC).unwrap();
    let (mut voc, mut part) = World::start(&[], 0, false);
    let [b, p, q, v] = [ex("b"), ex("p"), ex("q"), s_lit("s")].map(|t| World::res_in(&mut voc, &mut part, &t));
    let ds = FlatDs(vec![Quad(b, p, b, None), Quad(b, q, v, None)]);
    println!("{}", (ops.de)(&voc, &part, &ds, None, &[b]).map_or("refused".to_owned(), |v| v.show()));
}

/// Whether recursive types overflow the stack on cyclic data.
fn cyclic(ctx: &Ctx) -> bool {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("--cyclic").env_remove("MC_CHILD").output().expect("run the child");
    let said = String::from_utf8_lossy(&out.stdout).trim().to_owned();
    if out.status.success() && said == "refused" {
        return false;
    }
    if ctx.begin("cyclic") {
        ctx.violate_sig("cyclic", "cyclic-data-of-recursive-type", "reading cyclic data as a recursive type does not end", json!({"dataset": ["b p b", "b q \"s\""], "status": out.status.to_string(), "read": said}));
    }
    !out.status.success()
}

fn c18(ctx: &Ctx) {
    let systems = dfam::systems();
    if dfam::emit() != include_str!("types.rs") || systems.len() != types::ALL.len() {
        ctx.violate("types", "checker: types.rs is not what `derive-mc --emit` writes", json!(null));
        return;
    }
    let known = faithful(2).into_iter().flat_map(|s| [format!("{}~Short", s.name), format!("{}~Long", s.name)]).collect();
    let overflow = cyclic(ctx);
    let fam: Vec<_> = systems
        .into_iter()
        .zip(types::ALL)
        .map(|(d, (name, ops))| {
            assert_eq!(*name, d.sys.name);
            (d.sys, ops)
        })
        .collect();
    rejects::rejects(ctx);
    typed::check::explore(ctx, &fam, &known, overflow);
    typed::check::ids::<Id>(ctx, "id", true, |i| i, |i| i.to_string());
    typed::check::ids::<Named>(ctx, "derived", false, Named, |i| i.0.to_string());
}
