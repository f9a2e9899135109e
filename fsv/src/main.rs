mod any;
mod case;
mod p1;
mod pg;
mod pn;
mod refs;
mod spaces;

/// serial spaces are shared between threads (C12)
pub trait SpaceBound: Send + Sync {}
impl<T: Send + Sync> SpaceBound for T {}

fn main() {
    use p1::*;
    use pg::*;
    use pn::*;
    if std::env::args().nth(1).as_deref() == Some("digest") {
        return digest_main();
    }
    fsv_core::main_serial(&[
        &C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08, &C09, &C10, &C11, &C12, &C13, &C14, &C15, &C16, &C17, &C18, &C19,
    ])
}
