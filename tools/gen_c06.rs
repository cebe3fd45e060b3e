#![recursion_limit = "2048"]
fn main() {
    vph::rep::set_reps(vec![/*TABLES*/]);
    vph::main(
        "C06",
        "some report has fields",
        &[
            vph::sub("random reports", 100_000, 10_000_000, vph::rep::random_reports),
            vph::sub("generated types", 100_000, 10_000_000, vph::rep::generated),
        ],
        &[],
    );
}
