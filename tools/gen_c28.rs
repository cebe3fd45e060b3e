fn main() {
    use vph::imp28::*;
    let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let libs = (0../*SETS*/).map(|k| unsafe { libloading::Library::new(dir.join(format!("libplugin{k}.so"))).unwrap() }).collect();
    let (mut imps, mut own) = (vec![], vec![]);
    /*IMPS*/
    let canaried = vec![
/*CANARIED*/    ];
    let can = unsafe { libloading::Library::new("libcan28.so").unwrap() };
    set_world(World { imps, libs, can, masks: (0..64).collect(), canaried, own });
    vph::main(
        "C28",
        "a signature is compared, a cell accessed more than once, or a canary missing or called",
        &[
            vph::sub("loads of exported functions", 60_000, 3_000_000, loads),
            vph::sub("static imports", 40_000, 2_000_000, statics),
            vph::sub("import cells", 60_000, 3_000_000, cells),
            vph::sub("canary-checked loads", 40_000, 2_000_000, canaried_loads),
            vph::sub("canary-checked imports", 20_000, 1_000_000, canaried_statics),
        ],
        &[vph::Probe { id: "trait-method-signatures", f: tab0::probe }],
    );
}
