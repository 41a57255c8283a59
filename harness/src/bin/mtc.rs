//! Drives the parts of the tree one at a time; records what TLC judges.

#[allow(dead_code)]
#[path = "../rng.rs"]
mod rng;
#[path = "../mtc/inode.rs"]
mod inode;
#[path = "../mtc/key.rs"]
mod key;
#[path = "../mtc/lsplit.rs"]
mod lsplit;
#[path = "../mtc/perm.rs"]
mod perm;
#[path = "../mtc/rec.rs"]
mod rec;
#[path = "../mtc/search.rs"]
mod search;
#[path = "../mtc/sfx.rs"]
mod sfx;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (cmd, a) = rec::Args::parse();
    match cmd.as_str() {
        "perm" => rec::drive(&a, "perm", perm::trace),
        "inode" => rec::drive(&a, "inode", inode::trace),
        "sfx" => rec::drive(&a, "sfx", sfx::trace),
        "lsplit" => rec::drive(&a, "lsplit", lsplit::trace),
        "search" => rec::drive(&a, "search", search::trace),
        "key" => rec::drive(&a, "key", key::trace),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}
