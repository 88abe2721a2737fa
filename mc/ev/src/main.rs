mod co;
mod common;
mod conf;
mod delivery;
mod fairness;
mod faults;
mod futs;
mod lifecycle;
mod lookup;
mod ports;
mod promises;
mod races;
mod routes;
mod rt;
mod threads;
mod timers;
mod world;

fn main() {
    executors::stand_in(&world::Locally);
    let mut checks = vec![];
    checks.extend(conf::checks());
    checks.extend(delivery::checks());
    checks.extend(lifecycle::checks());
    checks.extend(futs::checks());
    checks.extend(faults::checks());
    checks.extend(lookup::checks());
    checks.extend(ports::checks());
    checks.extend(fairness::checks());
    checks.extend(promises::checks());
    checks.extend(routes::checks());
    checks.extend(timers::checks());
    checks.extend(threads::checks());
    checks.extend(races::checks());
    explore::main(merge(checks))
}

/// Checks of the same property form one.
fn merge(checks: Vec<explore::Check>) -> Vec<explore::Check> {
    let mut out: Vec<explore::Check> = vec![];
    for c in checks {
        match out.iter().position(|o| o.id == c.id) {
            None => out.push(c),
            Some(i) => {
                let o = out.remove(i);
                let (a, b) = (o.scenarios, c.scenarios);
                out.insert(
                    i,
                    explore::Check {
                        scenarios: Box::new(move |t| {
                            let mut v = a(t);
                            v.extend(b(t));
                            v
                        }),
                        assumptions: o.assumptions.into_iter().chain(c.assumptions).collect(),
                        ..o
                    },
                );
            }
        }
    }
    out
}
