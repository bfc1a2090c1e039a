//! Cache changes as schedules and traces write them
use crate::{arr, hex};
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::change_kind::ChangeKind_t;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::guid::GUID_t;
use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use speedy::{Endianness, Readable, Writable};

pub fn i64_of(text: &str) -> i64 {
    let mut a = [0; 8];
    a.copy_from_slice(&hex(text));
    i64::from_be_bytes(a)
}

pub fn sn(x: SequenceNumber_t) -> String {
    arr(i64::from(x).to_be_bytes())
}

pub fn guid(b: &[u8]) -> GUID_t {
    GUID_t::read_from_buffer_with_ctx(Endianness::BigEndian, b).expect("guid")
}

pub fn guid_bytes(g: &GUID_t) -> Vec<u8> {
    g.write_to_vec_with_ctx(Endianness::BigEndian).expect("guid")
}

pub fn handle(b: &[u8]) -> InstanceHandle_t {
    let mut entity_key = [0; 16];
    entity_key.copy_from_slice(b);
    InstanceHandle_t { entity_key }
}

pub fn kind(n: u8) -> ChangeKind_t {
    match n {
        0 => ChangeKind_t::ALIVE,
        1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
        _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}

pub fn kind_number(k: &ChangeKind_t) -> u8 {
    match k {
        ChangeKind_t::ALIVE => 0,
        ChangeKind_t::NOT_ALIVE_DISPOSED => 1,
        ChangeKind_t::NOT_ALIVE_UNREGISTERED => 2,
    }
}

/// `<sn>.<kind>.<guid>.<handle>`, numbers in hexadecimal; guid and handle may be
/// given by one byte
pub fn parse(text: &str) -> CacheChange {
    let p: Vec<&str> = text.split('.').collect();
    let wide = |s: &str| {
        let b = hex(s);
        if b.len() == 16 {
            b
        } else {
            vec![b[0]; 16]
        }
    };
    CacheChange {
        sequence_number: SequenceNumber_t::from(i64_of(p[0])),
        kind: kind(p[1].parse().expect("kind")),
        writer_guid: guid(&wide(p[2])),
        instance_handle: handle(&wide(p[3])),
        data_value: Data {},
    }
}

pub fn shown(c: &CacheChange) -> String {
    format!(
        "{{\"sn\":{},\"k\":{},\"g\":{},\"h\":{}}}",
        sn(c.sequence_number),
        kind_number(&c.kind),
        arr(guid_bytes(&c.writer_guid)),
        arr(c.instance_handle.entity_key)
    )
}

pub fn copy(c: &CacheChange) -> CacheChange {
    CacheChange {
        sequence_number: c.sequence_number,
        kind: kind(kind_number(&c.kind)),
        writer_guid: guid(&guid_bytes(&c.writer_guid)),
        instance_handle: handle(&c.instance_handle.entity_key),
        data_value: Data {},
    }
}
