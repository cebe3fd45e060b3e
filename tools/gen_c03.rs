#![recursion_limit = "2048"]
fn main() {
    vph::tychk::set_table(vec![/*TABLES*/]);
    vph::main("C03", "the type is not zero-sized", &[vph::sub("generated types", 200_000, 20_000_000, vph::tychk::pick)], &[]);
}
