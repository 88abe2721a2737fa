//! Exhaustive enumeration of inputs and operation sequences on the sequential parts.
mod buffers;
mod frames;
mod paths;
mod wire;

fn main() {
    let mut checks = vec![];
    checks.extend(buffers::checks());
    checks.extend(frames::checks());
    checks.extend(paths::checks());
    checks.extend(wire::checks());
    explore::main(checks)
}
