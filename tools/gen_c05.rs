#![recursion_limit = "2048"]
fn main() {
    vph::tychk::set_table(vec![/*TABLES*/]);
    vph::main("C05", "more than two variants, or a payload was edited in place", &[vph::sub("generated types", 200_000, 20_000_000, vph::tychk::pick)], &[]);
}
