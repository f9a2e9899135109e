//! Checks of the MPI part: C20 runs in one process, C21 to C23 run the same
//! generated cases on 1 to 8 MPI ranks.
#[path = "../../fsv/src/any.rs"]
#[allow(dead_code)]
mod any;
#[path = "../../fsv/src/case.rs"]
#[allow(dead_code)]
mod case;
mod drive;
mod mv;
mod pd;
mod sp;
#[path = "../../fsv/src/spaces.rs"]
#[allow(dead_code)]
#[macro_use]
mod spaces;
mod spm;

/// spaces on a communicator stay on their thread
pub trait SpaceBound {}
impl<T> SpaceBound for T {}

fn main() {
    drive::main(&[&pd::C20], &[&mv::C21, &sp::C22, &mv::C23])
}
