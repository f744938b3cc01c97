//! The properties, as executable checks.
pub mod big;
pub mod chol;
pub mod container;
pub mod cross;
pub mod eig;
#[cfg(feature = "lits")]
pub mod lits;
pub mod lu;
pub mod mem;
pub mod misc;
pub mod qr;
pub mod refuse;
pub mod svd;
pub mod tab;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(container::props());
    v.extend(refuse::props());
    v.extend(mem::props());
    v.extend(lu::props());
    v.extend(qr::props());
    v.extend(chol::props());
    v.extend(eig::props());
    v.extend(svd::props());
    v.extend(cross::props());
    v.extend(misc::props());
    v.sort_by_key(|p| p.id);
    for p in v.iter_mut() {
        let (q, t) = effort(p.id);
        for g in p.groups.iter_mut() {
            if g.quick > 1 {
                g.quick *= q;
                g.thorough *= t;
            }
        }
    }
    v
}

/// Factors on the numbers of cases of each group, (quick, thorough), chosen so that a quick run
/// takes about 5 to 10 s and a thorough one a few minutes on 8 cores.  C26 has none: the chance of
/// its statistical checks failing by accident grows with the number of cases.
fn effort(id: &str) -> (u64, u64) {
    match id {
        "C01" => (20, 20),
        "C02" => (30, 30),
        "C03" => (20, 20),
        "C04" => (12, 12),
        "C05" => (12, 12),
        "C06" => (20, 20),
        "C07" => (20, 20),
        "C08" => (30, 30),
        "C09" => (10, 10),
        "C10" | "C11" | "C12" => (15, 15),
        "C13" => (8, 8),
        "C14" => (8, 5),
        "C15" => (6, 5),
        "C16" => (5, 5),
        "C17" => (8, 8),
        "C18" => (25, 25),
        "C19" => (3, 3),
        "C20" => (3, 3),
        "C21" => (2, 2),
        "C22" => (2, 2),
        "C24" => (4, 4),
        "C25" => (8, 8),
        _ => (1, 1),
    }
}
