#![recursion_limit = "2048"]
use vph::Probe;
fn main() {
    vph::marks::set(vec![/*TABLES*/]);
    vph::main(
        "C21",
        "the standard equivalent of at least one of the types lacks the marker, or the value lacks what the trait object requires",
        &[vph::sub("markers of generated types", 60_000, 600_000, vph::marks::mark)],
        &[
            Probe { id: "shared-dyn-send-only", f: vph::marks::shared_send },
            Probe { id: "shared-dyn-sync-only", f: vph::marks::shared_sync },
        ],
    );
}
