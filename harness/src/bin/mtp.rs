//! Drives the version word and the frozen permutation under the deterministic scheduler;
//! records what TLC judges.

#[allow(dead_code)]
#[path = "../alloc.rs"]
mod alloc;
#[path = "../mtp/chain.rs"]
mod chain;
#[path = "../mtp/freeze.rs"]
mod freeze;
#[path = "../mtp/leaf.rs"]
mod leaf;
#[path = "../mtp/log.rs"]
mod log;
#[path = "../mtp/owner.rs"]
mod owner;
#[allow(dead_code)]
#[path = "../mtc/rec.rs"]
mod rec;
#[allow(dead_code)]
#[path = "../rng.rs"]
mod rng;
#[allow(dead_code)]
#[path = "../sched.rs"]
mod sched;
#[path = "../mtp/slot.rs"]
mod slot;
#[allow(dead_code)]
#[path = "../weak.rs"]
mod weak;
#[path = "../mtp/version.rs"]
mod version;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (cmd, a) = rec::Args::parse();
    sched::init();
    match cmd.as_str() {
        "claim" => rec::drive(&a, "claim", leaf::claim),
        "leaf" => rec::drive(&a, "leaf", leaf::trace),
        "chain" => rec::drive(&a, "chain", chain::trace),
        "freeze" => rec::drive(&a, "freeze", freeze::trace),
        "owner" => rec::drive(&a, "owner", owner::trace),
        "slot" => rec::drive(&a, "slot", slot::trace),
        "version" => rec::drive(&a, "version", version::trace),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}
