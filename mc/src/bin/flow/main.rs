//! Transaction-level model checking of the main program: every transition executes a real
//! transaction through `elusiv::process_instruction` on an in-memory bank.
mod admit;
mod bound;
mod chk;
mod compose;
mod deposit;
mod fees;
mod hash;
mod keys;
mod life;
mod nulls;
mod numbers;
mod payout;
mod proofs;
mod setup;
mod subst;
mod tree;
mod ver;
mod window;

fn main() {
    svm::init();
    let mut c = svm::Check::from_args();
    hash::run_all(&mut c);
    deposit::run_all(&mut c);
    payout::run_all(&mut c);
    compose::run_all(&mut c);
    proofs::run_all(&mut c);
    nulls::run_all(&mut c);
    numbers::run_all(&mut c);
    keys::run_all(&mut c);
    setup::run_all(&mut c);
    subst::run_all(&mut c);
    admit::run_all(&mut c);
    fees::run_all(&mut c);
    window::run_all(&mut c);
    bound::run_all(&mut c);
    life::run_all(&mut c);
    c.finish()
}
