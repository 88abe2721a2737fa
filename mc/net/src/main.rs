//! Kompact's TCP and UDP transport on a simulated network.
#[path = "../../ev/src/co.rs"]
mod co;
mod block;
mod life;
mod limits;
mod net;
mod oracle;
mod robust;
mod route;
#[allow(dead_code)]
#[path = "../../ev/src/rt.rs"]
mod rt;
mod tcp;
mod udp;
mod world;

fn main() {
    executors::stand_in(&rt::Locally);
    let mut checks = vec![];
    checks.extend(tcp::checks());
    checks.extend(life::checks());
    checks.extend(block::checks());
    checks.extend(udp::checks());
    checks.extend(robust::checks());
    checks.extend(limits::checks());
    checks.extend(route::checks());
    explore::main(checks)
}
