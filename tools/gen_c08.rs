#![recursion_limit = "2048"]
fn main() {
    vph::num08::set(vec![/*TABLES*/]);
    vph::main("C08", "every fact: an expression evaluated by the compiler", &[vph::sub("computed facts", 40_000, 400_000, vph::num08::fact)], &[vph::Probe { id: "or-end-select-one", f: vph::num08::union_of_empty }]);
}
