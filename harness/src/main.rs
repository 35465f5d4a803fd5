use mc::*;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--emit-gen") {
        let dir = std::path::PathBuf::from(std::env::args().nth(2).expect("directory"));
        let _ = std::fs::remove_dir_all(dir.join("layouts"));
        for (f, text) in gfam::emit() {
            let f = dir.join(f);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, text).unwrap();
        }
        return;
    }
    rt::main(|prop| {
        let f: fn(&rt::Ctx) = match prop {
            "C01" => roundtrip::c01,
            "C02" => roundtrip::c02,
            "C03" => core::c03,
            "C04" => core::c04,
            "C05" => sums::c05,
            "C06" => graphs::c06,
            "C07" => core::c07,
            "C08" => indep::c08,
            "C09" => vocab::c09,
            "C10" => compile::c10,
            "C11" => syntax::c11,
            "C12" => collect::c12,
            "C13" => regex::c13,
            "C14" => automata::c14,
            "C15" => values::c15,
            "C16" => cbor::c16,
            "C17" => cli::c17,
            _ => return None,
        };
        Some(f)
    })
}
