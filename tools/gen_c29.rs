#![recursion_limit = "2048"]
fn main() {
    vph::tychk::set_table(vec![/*TABLES*/]);
    vph::main("C29", "the type is not zero-sized", &[vph::sub("generated types", 20_000, 400_000, vph::tychk::pick)], &[]);
}
