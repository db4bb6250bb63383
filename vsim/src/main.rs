mod alloc;
mod core;
mod disk;
mod doc;
mod p_callback;
mod p_edit;
mod p_load;
mod p_lsp;
mod p_map;
mod p_migrate;
mod p_print;
mod p_serde;
mod p_spec;
mod p_threads;
mod p_work;
mod refparse;
mod rng;
mod sched;
mod shape;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

macro_rules! dispatch {
    ($id:expr, $f:path, $($a:expr),*) => {
        match $id {
            "C01" => $f(&p_threads::Threads, $($a),*),
            "D01" => $f(&p_load::Load { id: "D01" }, $($a),*),
            "D02" => $f(&p_load::Load { id: "D02" }, $($a),*),
            "D03" => $f(&p_edit::Edit { id: "D03" }, $($a),*),
            "D04" => $f(&p_edit::Edit { id: "D04" }, $($a),*),
            "D05" => $f(&p_edit::Edit { id: "D05" }, $($a),*),
            "D07" => $f(&p_edit::Edit { id: "D07" }, $($a),*),
            "D06" => $f(&p_work::Work, $($a),*),
            "D08" => $f(&p_migrate::Migrate, $($a),*),
            "D11" => $f(&p_edit::Edit { id: "D11" }, $($a),*),
            "D13" => $f(&p_edit::Edit { id: "D13" }, $($a),*),
            "S04" => $f(&p_serde::Serde { id: "S04" }, $($a),*),
            "S05" => $f(&p_map::Map, $($a),*),
            "D12" => $f(&p_load::Load { id: "D12" }, $($a),*),
            "D10" => $f(&p_load::Load { id: "D10" }, $($a),*),
            "D09" => $f(&p_spec::Spec, $($a),*),
            "L01" => $f(&p_lsp::Lsp { id: "L01" }, $($a),*),
            "L02" => $f(&p_lsp::Lsp { id: "L02" }, $($a),*),
            "L03" => $f(&p_lsp::Lsp { id: "L03" }, $($a),*),
            "L04" => $f(&p_lsp::Lsp { id: "L04" }, $($a),*),
            "S01" => $f(&p_serde::Serde { id: "S01" }, $($a),*),
            "S02" => $f(&p_serde::Serde { id: "S02" }, $($a),*),
            "S03" => $f(&p_serde::Serde { id: "S03" }, $($a),*),
            "W01" => $f(&p_print::Print, $($a),*),
            "W02" => $f(&p_callback::Callback, $($a),*),
            x => { eprintln!("harness: unknown property {x}"); 2 }
        }
    };
}

fn main() {
    use crate::core::{check, replay};
    let a: Vec<String> = std::env::args().collect();
    crate::core::install_panic_hook();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = a.get(3).cloned().unwrap_or_else(|| "quick".into());
            let build = std::env::var("VSIM_BUILD_S").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
            let id = a[2].as_str();
            dispatch!(id, check, seed, &tier, build)
        }
        // what the reference parser makes of a file
        Some("reference") => {
            let t = std::fs::read_to_string(&a[2]).expect("file");
            println!("{:?}", refparse::reference(&t));
            0
        }
        // one run of a check, with its event log
        Some("run") => {
            let id = a[2].as_str();
            dispatch!(id, crate::core::one, a[3].parse().expect("seed"), a[4].parse().expect("run"))
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let r: crate::core::Replay = serde_json::from_str(&s).expect("replay file");
            let id = r.property.clone();
            dispatch!(id.as_str(), replay, r, &a[2])
        }
        _ => {
            eprintln!("usage: vsim check ID [quick|thorough] | vsim replay FILE");
            2
        }
    };
    std::process::exit(rc);
}
