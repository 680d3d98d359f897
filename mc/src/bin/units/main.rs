//! Exhaustive exploration of the data structures and pure computations, driven directly.
mod codec;
mod costs;
mod fields;
mod map;
mod queue;
mod token;
mod vals;

fn main() {
    svm::init();
    let mut c = svm::Check::from_args();
    map::run_all(&mut c);
    queue::run_all(&mut c);
    fields::run_all(&mut c);
    codec::run_all(&mut c);
    token::run_all(&mut c);
    costs::run_all(&mut c);
    c.finish()
}
