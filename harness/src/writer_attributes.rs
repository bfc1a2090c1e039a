//! The attributes writers are made with
use crate::change::guid_bytes;
use rtps_rs::verif::behavior::writer::WriterAttributes;
use rtps_rs::verif::structure::duration::Duration_t;
use rtps_rs::verif::structure::endpoint::EndpointAttributes;
use rtps_rs::verif::structure::entity::EntityAttributes;
use rtps_rs::verif::structure::guid::GUID_t;
use rtps_rs::verif::structure::locator::Locator_t;
use rtps_rs::verif::structure::reliability_kind::ReliabilityKind_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use rtps_rs::verif::structure::topic_kind::TopicKind_t;

pub fn entity(guid: GUID_t) -> EntityAttributes {
    EntityAttributes { guid }
}

/// What the properties do not speak of varies with the GUID
fn variant(guid: &GUID_t) -> u32 {
    guid_bytes(guid).iter().map(|b| u32::from(*b)).sum()
}

pub fn endpoint(guid: &GUID_t) -> EndpointAttributes {
    let v = variant(guid);
    EndpointAttributes {
        topic_kind: if v & 2 == 0 { TopicKind_t::WITH_KEY } else { TopicKind_t::NO_KEY },
        reliability_level: if v & 4 == 0 { ReliabilityKind_t::BEST_EFFORT } else { ReliabilityKind_t::RELIABLE },
        unicast_locator_list: Locator_t::LOCATOR_INVALID,
        multicast_locator_list: Locator_t::LOCATOR_INVALID,
    }
}

pub fn attributes(guid: &GUID_t, last: i64) -> WriterAttributes {
    let v = variant(guid);
    WriterAttributes {
        push_mode: v & 1 == 0,
        heartbeat_period: if v & 8 == 0 {
            Duration_t::from(std::time::Duration::from_millis(100))
        } else {
            Duration_t::DURATION_INFINITE
        },
        nack_response_delay: Duration_t::DURATION_ZERO,
        nack_suppression_duration: Duration_t::DURATION_ZERO,
        last_change_sequence_number: SequenceNumber_t::from(last),
    }
}

#[cfg(rtps_verif = "stateless")]
pub fn stateless(guid: GUID_t, last: i64) -> rtps_rs::verif::behavior::stateless_writer::verif::Stateless {
    rtps_rs::verif::behavior::stateless_writer::verif::Stateless::new(
        entity(guid),
        endpoint(&guid),
        attributes(&guid, last),
        if variant(&guid) & 16 == 0 {
            rtps_rs::verif::structure::time::Time_t::TIME_ZERO
        } else {
            rtps_rs::verif::structure::time::Time_t::TIME_INFINITE
        },
    )
}
