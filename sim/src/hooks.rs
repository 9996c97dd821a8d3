//! The guarded hooks of the repository, or stand-ins that never interfere when it was built without
//! them (see `build.sh`): then the default rules decide in phase one, and nothing else changes.
#[cfg(relp_sim)]
pub use relp::sim::{Hooks, install, phase_one_fully, phase_one_partially};

#[cfg(relp_sim)]
pub const PRESENT: bool = true;
#[cfg(not(relp_sim))]
pub const PRESENT: bool = false;

#[cfg(not(relp_sim))]
pub use without::*;
#[cfg(not(relp_sim))]
mod without {
    use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
    use relp::algorithm::two_phase::matrix_provider::column::Column;
    use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
    use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, RankedFeasibilityResult};
    use relp::algorithm::two_phase::tableau::inverse_maintenance::{InverseMaintainer, ops as im_ops};
    use relp::algorithm::two_phase::tableau::kind::artificial::Cost;

    pub trait Hooks {
        fn choose(&mut self, site: &'static str, n: usize) -> usize;
    }
    pub fn install(_hooks: Option<Box<dyn Hooks>>) -> Option<Box<dyn Hooks>> {
        None
    }
    pub fn phase_one_fully<IM, MP, PR>(provider: &MP) -> RankedFeasibilityResult<IM>
    where
        MP: MatrixProvider<Column: Identity> + FeasibilityComputeTrait,
        IM: InverseMaintainer<
            F: im_ops::FieldHR + im_ops::Column<<MP::Column as Column>::F> + im_ops::Cost<Cost> + im_ops::Rhs<MP::Rhs>,
        >,
    {
        provider.compute_bfs_giving_im()
    }
    pub fn phase_one_partially<IM, MP, PR>(provider: &MP) -> RankedFeasibilityResult<IM>
    where
        MP: MatrixProvider<Column: Identity> + FeasibilityComputeTrait,
        IM: InverseMaintainer<
            F: im_ops::FieldHR + im_ops::Column<<MP::Column as Column>::F> + im_ops::Cost<Cost> + im_ops::Rhs<MP::Rhs>,
        >,
    {
        provider.compute_bfs_giving_im()
    }
}
