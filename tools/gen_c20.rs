#![recursion_limit = "2048"]
use vph::Probe;
fn main() {
    vph::dynobj::set(vec![/*TABLES*/]);
    vph::main(
        "C20",
        "downcasts: more attempts than the program has types; vtables: different types, pointers, or after discarding traits; races: every case",
        &[
            vph::sub("downcasts of generated trait objects", 2_000_000, 30_000_000, vph::dynobj::downcasts),
            vph::sub("vtables of generated trait objects", 1_000_000, 12_000_000, vph::dynobj::vtables),
            vph::sub("vtables asked for by racing threads", 20_000, 600_000, vph::dynobj::racing),
        ],
        &[Probe { id: "phantom-parameter", f: vph::dynobj::phantom_parameter }],
    );
}
