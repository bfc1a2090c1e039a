//! Family M: messages made by the crate's own types. `M <locator kind> <command>...`
//!   h<prefix>                 the header the crate makes for a GUID prefix
//!   H<version><vendor><prefix>  a header
//!   k<kind>:<flags>:<field>:... a submessage; fields in canonical form, a number
//!                             set is its base and the numbers inserted (a,b,...),
//!                             a locator list its locators (- if empty)
//!   g                         what has been made arrives
//!   U                         what has been made is a datagram
//! and the commands of family R.
use crate::recv::{commands, kind_of, start};
use crate::{arr, guarded, hex, Out};
use rtps_rs::verif::common::ranged_bit_set::RangedBitSet;
use rtps_rs::verif::messages::ack_nack::AckNack;
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::messages::gap::Gap;
use rtps_rs::verif::messages::header::Header;
use rtps_rs::verif::messages::heartbeat::Heartbeat;
use rtps_rs::verif::messages::heartbeat_frag::HeartbeatFrag;
use rtps_rs::verif::messages::info_destination::InfoDestination;
use rtps_rs::verif::messages::info_source::InfoSource;
use rtps_rs::verif::messages::nack_frag::NackFrag;
use rtps_rs::verif::messages::submessage_flag::SubmessageFlag;
use rtps_rs::verif::messages::submessage_header::SubmessageHeader;
use rtps_rs::verif::messages::submessage_kind::SubmessageKind;
use rtps_rs::verif::structure::locator::{LocatorKind_t, LocatorList_t, Locator_t};
use rtps_rs::verif::structure::locator_udp_v4::LocatorUDPv4_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use rtps_rs::verif::structure::time::Time_t;
use speedy::{Endianness, Readable, Writable};
use std::net::{Ipv4Addr, SocketAddrV4};

/// A value from its canonical (big-endian) form
fn value<T: for<'a> Readable<'a, Endianness>>(b: &[u8]) -> T {
    T::read_from_buffer_with_ctx(Endianness::BigEndian, b).expect("canonical value")
}

fn number(b: &[u8]) -> SequenceNumber_t {
    let mut a = [0; 8];
    a.copy_from_slice(b);
    SequenceNumber_t::from(i64::from_be_bytes(a))
}

fn fragment(b: &[u8]) -> FragmentNumber_t {
    let mut a = [0; 4];
    a.copy_from_slice(b);
    FragmentNumber_t::from(u32::from_be_bytes(a))
}

/// The field as JSON, and as bytes
fn parts(word: &str) -> Vec<Vec<u8>> {
    if word == "-" {
        vec![]
    } else {
        word.split(',').map(hex).collect()
    }
}

fn locators(word: &str) -> LocatorList_t {
    parts(word)
        .iter()
        .map(|b| {
            let mut address = [0; 16];
            address.copy_from_slice(&b[8..]);
            Locator_t {
                kind: match &b[..4] {
                    [255, 255, 255, 255] => LocatorKind_t::LOCATOR_KIND_INVALID,
                    [0, 0, 0, 0] => LocatorKind_t::LOCATOR_KIND_RESERVED,
                    [0, 0, 0, 1] => LocatorKind_t::LOCATOR_KIND_UDPv4,
                    [0, 0, 0, 2] => LocatorKind_t::LOCATOR_KIND_UDPv6,
                    _ => panic!("locator kind"),
                },
                port: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
                address,
            }
        })
        .collect()
}

fn compact(address: &[u8], port: &[u8]) -> LocatorUDPv4_t {
    LocatorUDPv4_t::from(SocketAddrV4::new(
        Ipv4Addr::new(address[0], address[1], address[2], address[3]),
        u16::from_be_bytes([port[2], port[3]]),
    ))
}

type Written = Result<Vec<u8>, ()>;

fn written<T: Writable<Endianness>>(value: &T, e: Endianness) -> Written {
    value.write_to_vec_with_ctx(e).map_err(|_| ())
}

fn sequence_set(base: &str, numbers: &str) -> RangedBitSet<SequenceNumber_t> {
    let mut set = RangedBitSet::new(number(&hex(base)));
    for n in parts(numbers) {
        set.insert(number(&n));
    }
    set
}

fn fragment_set(base: &str, numbers: &str) -> RangedBitSet<FragmentNumber_t> {
    let mut set = RangedBitSet::new(fragment(&hex(base)));
    for n in parts(numbers) {
        set.insert(fragment(&n));
    }
    set
}

fn content(kind: &str, e: Endianness, f: &[&str]) -> Result<(SubmessageKind, Vec<u8>), ()> {
    let h = |i: usize| hex(f[i]);
    Ok(match kind {
        "AckNack" => (
            SubmessageKind::ACKNACK,
            written(
                &AckNack {
                    reader_id: value(&h(0)),
                    writer_id: value(&h(1)),
                    reader_sn_state: sequence_set(f[2], f[3]),
                    count: value(&h(4)),
                },
                e,
            )?,
        ),
        "Gap" => (
            SubmessageKind::GAP,
            written(
                &Gap {
                    reader_id: value(&h(0)),
                    writer_id: value(&h(1)),
                    gap_start: number(&h(2)),
                    gap_list: sequence_set(f[3], f[4]),
                },
                e,
            )?,
        ),
        "Heartbeat" => (
            SubmessageKind::HEARTBEAT,
            written(
                &Heartbeat {
                    reader_id: value(&h(0)),
                    writer_id: value(&h(1)),
                    first_sn: number(&h(2)),
                    last_sn: number(&h(3)),
                    count: value(&h(4)),
                },
                e,
            )?,
        ),
        "HeartbeatFrag" => (
            SubmessageKind::HEARTBEAT_FRAG,
            written(
                &HeartbeatFrag {
                    reader_id: value(&h(0)),
                    writer_id: value(&h(1)),
                    writer_sn: number(&h(2)),
                    last_fragment_num: fragment(&h(3)),
                    count: value(&h(4)),
                },
                e,
            )?,
        ),
        "NackFrag" => (
            SubmessageKind::NACK_FRAG,
            written(
                &NackFrag {
                    reader_id: value(&h(0)),
                    writer_id: value(&h(1)),
                    writer_sn: number(&h(2)),
                    fragment_number_state: fragment_set(f[3], f[4]),
                    count: value(&h(5)),
                },
                e,
            )?,
        ),
        "InfoSource" => (
            SubmessageKind::INFO_SRC,
            written(
                &InfoSource {
                    protocol_version: value(&h(0)),
                    vendor_id: value(&h(1)),
                    guid_prefix: value(&h(2)),
                },
                e,
            )?,
        ),
        "InfoDestination" => (
            SubmessageKind::INFO_DST,
            written(&InfoDestination { guid_prefix: value(&h(0)) }, e)?,
        ),
        "InfoReply" => {
            let mut b = written(&locators(f[0]), e)?;
            if f.len() > 1 {
                b.extend(written(&locators(f[1]), e)?);
            }
            (SubmessageKind::INFO_REPLAY, b)
        }
        "InfoReplyIp4" => {
            let mut b = written(&compact(&h(0), &h(1)), e)?;
            if f.len() > 2 {
                b.extend(written(&compact(&h(2), &h(3)), e)?);
            }
            (SubmessageKind::INFO_REPLAY_IP4, b)
        }
        "InfoTs" => {
            let b = if f.is_empty() {
                vec![]
            } else {
                written(&value::<Time_t>(&[h(0), h(1)].concat()), e)?
            };
            (SubmessageKind::INFO_TS, b)
        }
        "Pad" => (SubmessageKind::PAD, if f.is_empty() { vec![] } else { h(0) }),
        _ => panic!("submessage {}", kind),
    })
}

fn submessage(kind: &str, flags: u8, f: &[&str]) -> Written {
    let flags = SubmessageFlag { flags };
    let e = flags.endianness_flag();
    let (submessage_id, content) = content(kind, e, f)?;
    let header = SubmessageHeader {
        submessage_id,
        flags,
        submessage_length: content.len() as u16,
    };
    let mut b = written(&header, e)?;
    b.extend(content);
    Ok(b)
}

fn header(b: &[u8]) -> Header {
    let mut header = Header::new(value(&b[4..]));
    header.protocol_version = value(&b[..2]);
    header.vendor_id = value(&b[2..4]);
    header
}

/// The fields of a submessage as the specification has them
fn fields(kind: &str, f: &[&str]) -> String {
    arr(f.iter().enumerate().map(|(i, word)| {
        let list = match kind {
            "InfoReply" => true,
            "AckNack" => i == 3,
            "Gap" | "NackFrag" => i == 4,
            _ => false,
        };
        if list {
            arr(parts(word).iter().map(arr))
        } else {
            arr(hex(word))
        }
    }))
}

pub fn run(words: &[&str], out: &mut Out) {
    let kind = kind_of(words[0]);
    let mut session = start(kind, out);
    let mut made: Vec<u8> = vec![];
    // a header is the same in both byte orders
    let mut headers = 0usize;
    for word in &words[1..] {
        let (command, argument) = word.split_at(1);
        let result = match command {
            "h" | "H" => {
                let b = hex(argument);
                headers += 1;
                let (name, val) = if command == "h" {
                    ("NewHeader", arr([arr(&b)]))
                } else {
                    ("Header", arr([arr(&b[..2]), arr(&b[2..4]), arr(&b[4..])]))
                };
                out.begin(&format!("\"e\":\"make\",\"k\":\"{}\",\"fl\":0,\"val\":{},", name, val));
                guarded(|| {
                    let header = if command == "h" { Header::new(value(&b)) } else { header(&b) };
                    written(&header, if headers % 2 == 0 { Endianness::LittleEndian } else { Endianness::BigEndian })
                })
            }
            "k" => {
                let f: Vec<&str> = argument.split(':').filter(|w| !w.is_empty()).collect();
                let flags = hex(f[1])[0];
                out.begin(&format!(
                    "\"e\":\"make\",\"k\":\"{}\",\"fl\":{},\"val\":{},",
                    f[0],
                    flags,
                    fields(f[0], &f[2..])
                ));
                guarded(|| submessage(f[0], flags, &f[2..]))
            }
            "g" => {
                let text: String = made.drain(..).map(|b| format!("{:02x}", b)).collect();
                if !commands(kind, &mut session, &[&format!("f{}", text)], out) {
                    return;
                }
                continue;
            }
            "U" => {
                let text: String = made.drain(..).map(|b| format!("{:02x}", b)).collect();
                if !commands(kind, &mut session, &[&format!("u{}", text)], out) {
                    return;
                }
                continue;
            }
            _ => {
                if !commands(kind, &mut session, &[word], out) {
                    return;
                }
                continue;
            }
        };
        match result {
            None => {
                out.end("\"r\":\"panic\",\"b\":[]");
                return;
            }
            Some(Err(())) => {
                out.end("\"r\":\"err\",\"b\":[]");
                return;
            }
            Some(Ok(b)) => {
                out.end(&format!("\"r\":\"ok\",\"b\":{}", arr(&b)));
                made.extend(b);
            }
        }
    }
}
