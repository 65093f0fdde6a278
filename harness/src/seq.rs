//! The only use of the hook in /repo. Without it (a build without the cfg) the checks that need
//! it are skipped, and say so.
use crate::rep::Case;
use crate::sim::{Eut, Res, Status};

/// Set the number of the next record the endpoint writes (or reads). false: not available
#[cfg(anothertls_verif)]
pub fn set(c: &Case, e: &mut Eut, writing: bool, n: u64) -> bool {
    e.start(move |st| {
        let p = st.stream.as_mut().unwrap().protection.as_mut().unwrap();
        let is_client = p.is_client;
        let keys = p.application_keys.as_mut().unwrap();
        let key = if is_client == writing { &mut keys.client } else { &mut keys.server };
        key.verif_set_sequence_number(n);
        Res::Ok(vec![])
    });
    matches!(e.wait(c), Status::Done(Res::Ok(_)))
}
#[cfg(not(anothertls_verif))]
pub fn set(c: &Case, e: &mut Eut, writing: bool, n: u64) -> bool {
    let _ = (c, e, writing, n);
    false
}
