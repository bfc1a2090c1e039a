//! Reader locators by catalogue number, for the families W and S.
use crate::change::parse;
use rtps_rs::verif::behavior::reader_locator::ReaderLocator;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::locator::{LocatorKind_t, Locator_t};

pub const LOCATORS: usize = 31;

fn changes(texts: &[&str]) -> Vec<CacheChange> {
    texts.iter().map(|t| parse(t)).collect()
}

const C1: &str = "0000000000000007.0.11.22";
const C2: &str = "0000000000000008.0.11.22";
const C3: &str = "0000000000000007.1.11.22";
const C4: &str = "0000000000000007.0.12.22";
const C5: &str = "0000000000000007.0.11.23";

/// Pairwise different reader locators; most differ from number 0 in one thing
pub fn locator(i: usize) -> ReaderLocator {
    let mut l = Locator_t {
        kind: LocatorKind_t::LOCATOR_KIND_UDPv4,
        port: 7400,
        address: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 0, 0, 1],
    };
    let mut inline = false;
    let mut requested: &[&str] = &[];
    let mut unsent: &[&str] = &[];
    match i {
        0 => (),
        1 => l.kind = LocatorKind_t::LOCATOR_KIND_UDPv6,
        2 => l.kind = LocatorKind_t::LOCATOR_KIND_INVALID,
        3 => l.kind = LocatorKind_t::LOCATOR_KIND_RESERVED,
        4 => l.port = 7401,
        5 => l.port = 7400 + 65536,
        6 => l.port = 7400 + 256,
        7 => l.address[15] = 2,
        8 => l.address[12] = 11,
        9 => l.address[0] = 1,
        10 => l.address[11] = 1,
        11 => inline = true,
        12 => requested = &[C1],
        13 => requested = &[C2],
        14 => requested = &[C1, C2],
        15 => requested = &[C2, C1],
        16 => requested = &[C3],
        17 => requested = &[C4],
        18 => requested = &[C5],
        19 => unsent = &[C1],
        20 => unsent = &[C2],
        21 => unsent = &[C1, C2],
        22 => unsent = &[C2, C1],
        23 => unsent = &[C3],
        24 => unsent = &[C4],
        25 => unsent = &[C5],
        26 => {
            requested = &[C1];
            unsent = &[C1]
        }
        27 => {
            inline = true;
            l.port = 7401
        }
        28 => {
            inline = true;
            unsent = &[C1]
        }
        29 => requested = &[C1, C1],
        30 => unsent = &[C1, C1, C1],
        // as many as wanted
        _ => l.address[12..].copy_from_slice(&(i as u32).to_be_bytes()),
    }
    ReaderLocator::verif_new(l, inline, changes(requested), changes(unsent))
}
