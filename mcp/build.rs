#[path = "src/ast.rs"]
#[allow(dead_code)]
mod ast;
use std::fmt::Write;

fn main() {
    println!("cargo:rerun-if-changed=src/ast.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let ps = ast::programs();
    let dir = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let mut o = String::new();
    for (i, p) in ps.iter().enumerate() {
        writeln!(o, "#[allow(warnings)] mod p{i} {{ include!(concat!(env!(\"OUT_DIR\"), \"/p{i}.rs\")); }}").unwrap();
        let s = format!(
            "use crate::pre::*;\nelusiv_computations!({});\nfn run(round: usize, st: &mut St, x: u64, y: u64, r: &u64) -> Result<Option<u64>, ElusivError> {{ main_partial(round, st, x, y, r) }}\npub fn meta() -> Meta {{ mk(MAIN_ROUNDS_COUNT, run, std::marker::PhantomData::<MainC>) }}\n",
            p.source()
        );
        std::fs::write(dir.join(format!("p{i}.rs")), s).unwrap();
    }
    write!(o, "pub static METAS: [fn() -> Meta; {}] = [{}];", ps.len(), (0..ps.len()).map(|i| format!("p{i}::meta")).collect::<Vec<_>>().join(", ")).unwrap();
    std::fs::write(dir.join("programs.rs"), o).unwrap();
}
