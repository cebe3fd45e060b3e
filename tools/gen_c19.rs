#![recursion_limit = "2048"]
fn main() {
    vph::dynobj::set(vec![/*TABLES*/]);
    vph::main(
        "C19",
        "at least two calls went through the object, and it was cloned, dropped, reduced to fewer traits or refused a mutable borrow, or got more than three calls",
        &[vph::sub("histories of generated trait objects", 4_000_000, 60_000_000, vph::dynobj::history)],
        &[],
    );
}
