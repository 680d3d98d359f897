//! Exhaustive exploration of the warden network program.
mod apa;
mod dates;
mod props;
mod registry;
mod stats;
mod subst;
mod units;

fn main() {
    mcw::setup();
    let mut c = svm::Check::from_args();
    dates::run_all(&mut c);
    registry::run_all(&mut c);
    stats::run_all(&mut c);
    apa::run_all(&mut c);
    props::run_all(&mut c);
    subst::run_all(&mut c);
    units::run_all(&mut c);
    c.finish()
}

/// accounts that were changed although they must not
pub fn only(out: &mut Vec<svm::Viol>, props: &'static [&'static str], what: &str, pre: &svm::Bank, post: &svm::Bank, allowed: &[solana_program::pubkey::Pubkey]) {
    for k in pre.diff(post) {
        if !allowed.contains(&k) {
            svm::viol(out, props, format!("{}:foreign-account", what), format!("{} changed {}", what, k));
        }
    }
}
