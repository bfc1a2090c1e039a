//! Family V: single values. Each word is one event, its parts separated by colons.
//!   seq:<hex>:<type><0|1>,...  reads values one after another, in the given byte orders
//!   rt:<type>:<0|1>:<hex>   decode these bytes, encode the value in both byte orders
//!   cmp:<type>:<0|1>:<hex>:<0|1>:<hex>  compare two values
//!   sa4:<hex4>:<port>       socket address to locators and back
//!   sa6:<hex16>:<port>
//!   loc:<hex24>             locator (canonical) to socket address
//!   cloc:<hex8>             compact IPv4 locator to socket address and to a locator
//!   sys:<+|->:<seconds>:<nanoseconds>   system time to protocol time and back
//!   time:<hex8>             protocol time to system time and back
//!   dur:<seconds>:<nanoseconds>  standard duration to protocol duration and back
//!   pdur:<hex8>             protocol duration to standard duration
//!   ar:<sn|fn>:<hex>:<hex>  checked arithmetic and comparison
//!   conv:<sn|fn|count>:<hex8>  conversions from and to plain integers
//!   fl:<hex1> fs:<hex1> fc:<hex1> ft:<hex1> fe   flags: start, set, clear, test, byte order
use crate::sets::order;
use crate::{arr, guarded, hex, ints, Out};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, ToPrimitive};
use rtps_rs::verif::common::bit_set::BitSetRef;
use rtps_rs::verif::messages::ack_nack::AckNack;
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::messages::gap::Gap;
use rtps_rs::verif::messages::header::Header;
use rtps_rs::verif::messages::heartbeat::Heartbeat;
use rtps_rs::verif::messages::heartbeat_frag::HeartbeatFrag;
use rtps_rs::verif::messages::info_destination::InfoDestination;
use rtps_rs::verif::messages::info_source::InfoSource;
use rtps_rs::verif::messages::nack_frag::NackFrag;
use rtps_rs::verif::messages::protocol_id::ProtocolId_t;
use rtps_rs::verif::messages::protocol_version::ProtocolVersion_t;
use rtps_rs::verif::messages::submessage::EntitySubmessage;
use rtps_rs::verif::messages::submessage_elements::parameter::Parameter;
use rtps_rs::verif::messages::submessage_flag::SubmessageFlag;
use rtps_rs::verif::messages::submessage_header::SubmessageHeader;
use rtps_rs::verif::messages::submessage_kind::SubmessageKind;
use rtps_rs::verif::messages::vendor_id::VendorId_t;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::count::Count_t;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::duration::Duration_t;
use rtps_rs::verif::structure::entity_id::EntityId_t;
use rtps_rs::verif::structure::guid::GUID_t;
use rtps_rs::verif::structure::guid_prefix::GuidPrefix_t;
use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
use rtps_rs::verif::structure::locator::{LocatorKind_t, LocatorList_t, Locator_t};
use rtps_rs::verif::structure::locator_udp_v4::LocatorUDPv4_t;
use rtps_rs::verif::structure::parameter_id::ParameterId;
use rtps_rs::verif::structure::reliability_kind::ReliabilityKind_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use rtps_rs::verif::structure::time::Time_t;
use rtps_rs::verif::structure::topic_kind::TopicKind_t;
use speedy::{Endianness, Readable, Writable};
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn other(e: Endianness) -> Endianness {
    match e {
        Endianness::LittleEndian => Endianness::BigEndian,
        Endianness::BigEndian => Endianness::LittleEndian,
    }
}

fn round_trip<X>(e: Endianness, b: &[u8]) -> String
where
    X: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let result = guarded(|| match X::read_from_buffer_with_ctx(e, b) {
        Err(_) => "\"r\":\"err\"".to_string(),
        Ok(v) => match (v.write_to_vec_with_ctx(e), v.write_to_vec_with_ctx(other(e))) {
            (Ok(w), Ok(o)) => format!("\"r\":\"ok\",\"w\":{},\"o\":{}", arr(w), arr(o)),
            _ => "\"r\":\"unwritable\"".to_string(),
        },
    });
    result.unwrap_or_else(|| "\"r\":\"panic\"".to_string())
}

macro_rules! by_name {
    ($name:expr, $e:expr, $b:expr, $($ty:ident)*) => {
        match $name {
            $(stringify!($ty) => round_trip::<$ty>($e, $b),)*
            _ => panic!("unknown type {}", $name),
        }
    };
}

fn wire_value(name: &str, e: Endianness, b: &[u8]) -> String {
    by_name!(name, e, b,
        EntityId_t GuidPrefix_t GUID_t InstanceHandle_t ProtocolId_t ProtocolVersion_t VendorId_t
        SubmessageFlag SubmessageKind SubmessageHeader Header SequenceNumber_t FragmentNumber_t
        Count_t Time_t Duration_t ReliabilityKind_t TopicKind_t LocatorKind_t Locator_t LocatorList_t
        LocatorUDPv4_t ParameterId Parameter BitSetRef SequenceNumberSet_t FragmentNumberSet_t
        AckNack Gap Heartbeat HeartbeatFrag NackFrag InfoSource InfoDestination)
}

/// Reads a value off the front of `b`, from the buffer and from a stream, and
/// writes it in all ways
fn taken<X>(e: Endianness, b: &[u8]) -> (String, usize)
where
    X: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let from_buffer = guarded(|| {
        let (result, used) = X::read_with_length_from_buffer_with_ctx(e, b);
        match result {
            Err(_) => ("err", used, None),
            Ok(v) => {
                let written = v.write_to_vec_with_ctx(e).ok();
                let mut stream = vec![];
                let streamed = v.write_to_stream_with_ctx(e, &mut stream).is_ok();
                let needed = Writable::<Endianness>::bytes_needed(&v).ok();
                let same = streamed
                    && written.as_ref() == Some(&stream)
                    && needed == Some(stream.len());
                ("ok", used, written.map(|w| (w, same)))
            }
        }
    });
    let from_stream = guarded(|| {
        let mut rest = b;
        match X::read_from_stream_unbuffered_with_ctx(e, &mut rest) {
            Err(_) => ("err", 0, None),
            Ok(v) => ("ok", b.len() - rest.len(), v.write_to_vec_with_ctx(e).ok()),
        }
    });
    let (r, used, written) = from_buffer.unwrap_or(("panic", 0, None));
    let (sr, sused, swritten) = from_stream.unwrap_or(("panic", 0, None));
    let (w, same) = written.unwrap_or_default();
    (
        format!(
            "\"r\":\"{}\",\"n\":{},\"w\":{},\"same\":{},\"sr\":\"{}\",\"sn\":{},\"sw\":{}",
            r,
            used,
            arr(w),
            same,
            sr,
            sused,
            arr(swritten.unwrap_or_default())
        ),
        if r == "ok" { used } else { b.len() },
    )
}

macro_rules! taken_by_name {
    ($name:expr, $e:expr, $b:expr, $($ty:ident)*) => {
        match $name {
            $(stringify!($ty) => taken::<$ty>($e, $b),)*
            _ => panic!("unknown type {}", $name),
        }
    };
}

fn take(name: &str, e: Endianness, b: &[u8]) -> (String, usize) {
    taken_by_name!(name, e, b,
        EntityId_t GuidPrefix_t GUID_t InstanceHandle_t ProtocolId_t ProtocolVersion_t VendorId_t
        SubmessageFlag SubmessageKind SubmessageHeader Header SequenceNumber_t FragmentNumber_t
        Count_t Time_t Duration_t ReliabilityKind_t TopicKind_t LocatorKind_t Locator_t LocatorList_t
        LocatorUDPv4_t ParameterId Parameter BitSetRef SequenceNumberSet_t FragmentNumberSet_t
        AckNack Gap Heartbeat HeartbeatFrag NackFrag InfoSource InfoDestination)
}

fn equality<X: PartialEq>(a: &X, b: &X) -> String {
    // the second comparisons: an answer must not depend on when it is asked
    let steady = (a == b) == (a == b) && (b != a) != (b == a);
    format!(
        "\"r\":\"ok\",\"eq\":{},\"qe\":{},\"ne\":{},\"self\":{}",
        a == b,
        b == a,
        a != b,
        a == a && b == b && steady
    )
}

fn hash<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn order_of<X: Ord>(a: &X, b: &X) -> String {
    let sign = |o| match o {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    };
    let par = a.partial_cmp(b) == Some(a.cmp(b))
        && b.partial_cmp(a) == Some(b.cmp(a))
        && std::ptr::eq(a.max(b), if a > b { a } else { b })
        && std::ptr::eq(a.min(b), if b < a { b } else { a });
    format!(
        ",\"cmp\":{},\"rev\":{},\"ops\":{},\"par\":{}",
        sign(a.cmp(b)),
        sign(b.cmp(a)),
        arr([a < b, a <= b, a == b, a != b, a >= b, a > b]),
        par
    )
}

fn read<X: for<'a> Readable<'a, Endianness>>(e: Endianness, b: &[u8]) -> Option<X> {
    X::read_from_buffer_with_ctx(e, b).ok()
}

macro_rules! compare_by_name {
    ($name:expr, $e:expr, $a:expr, $f:expr, $b:expr, hashed: $($h:ident)*; ordered: $($o:ident)*; other: $($t:ident)*) => {
        match $name {
            $(stringify!($h) => {
                let (a, b): ($h, $h) = (read($e, $a)?, read($f, $b)?);
                format!("{}{},\"hash\":{}", equality(&a, &b), order_of(&a, &b), hash(&a) == hash(&b))
            })*
            $(stringify!($o) => {
                let (a, b): ($o, $o) = (read($e, $a)?, read($f, $b)?);
                format!("{}{},\"hash\":true", equality(&a, &b), order_of(&a, &b))
            })*
            $(stringify!($t) => {
                let (a, b): ($t, $t) = (read($e, $a)?, read($f, $b)?);
                format!("{},\"hash\":true", equality(&a, &b))
            })*
            _ => panic!("unknown type {}", $name),
        }
    };
}

/// A change as the specification lays it out: kind, writer, instance, number
fn change_of(e: Endianness, b: &[u8]) -> Option<CacheChange> {
    if b.len() != 41 {
        return None;
    }
    Some(CacheChange {
        kind: crate::change::kind(b[0]),
        writer_guid: crate::change::guid(&b[1..17]),
        instance_handle: crate::change::handle(&b[17..33]),
        sequence_number: read(e, &b[33..])?,
        data_value: Data {},
    })
}

fn ack_nack_of(e: Endianness, b: &[u8]) -> Option<EntitySubmessage> {
    Some(EntitySubmessage::AckNack(read(e, b.get(1..)?)?, SubmessageFlag { flags: b[0] }))
}

fn heartbeat_of(e: Endianness, b: &[u8]) -> Option<EntitySubmessage> {
    Some(EntitySubmessage::Heartbeat(read(e, b.get(1..)?)?, SubmessageFlag { flags: b[0] }))
}

fn comparison(name: &str, e: Endianness, a: &[u8], f: Endianness, b: &[u8]) -> String {
    // None: the values could not be read, so there is nothing to compare
    let compared = || -> Option<String> {
        match name {
            "CacheChange" => {
                let (a, b) = (change_of(e, a)?, change_of(f, b)?);
                return Some(format!("{}{},\"hash\":true", equality(&a, &b), order_of(&a, &b)));
            }
            "ItemAckNack" => {
                let (a, b) = (ack_nack_of(e, a)?, ack_nack_of(f, b)?);
                return Some(format!("{},\"hash\":true", equality(&a, &b)));
            }
            "ItemHeartbeat" => {
                let (a, b) = (heartbeat_of(e, a)?, heartbeat_of(f, b)?);
                return Some(format!("{},\"hash\":true", equality(&a, &b)));
            }
            _ => (),
        }
        Some(compare_by_name!(name, e, a, f, b,
            hashed: SequenceNumber_t FragmentNumber_t Time_t;
            ordered: EntityId_t GuidPrefix_t GUID_t InstanceHandle_t ProtocolId_t ProtocolVersion_t
                SubmessageFlag Count_t Duration_t;
            other: VendorId_t SubmessageKind SubmessageHeader Header ReliabilityKind_t TopicKind_t
                LocatorKind_t Locator_t LocatorList_t LocatorUDPv4_t ParameterId Parameter BitSetRef
                SequenceNumberSet_t FragmentNumberSet_t AckNack Gap Heartbeat HeartbeatFrag NackFrag
                InfoSource InfoDestination))
    };
    match guarded(compared) {
        None => "\"r\":\"panic\"".to_string(),
        Some(None) => "\"r\":\"unread\"".to_string(),
        Some(Some(text)) => text,
    }
}

fn locator_bytes(l: &Locator_t) -> String {
    crate::recv::locator(l)
}

fn socket(a: SocketAddr) -> String {
    match a.ip() {
        IpAddr::V4(ip) => format!("{{\"v\":4,\"a\":{},\"p\":{}}}", arr(ip.octets()), arr(a.port().to_be_bytes())),
        IpAddr::V6(ip) => format!("{{\"v\":6,\"a\":{},\"p\":{}}}", arr(ip.octets()), arr(a.port().to_be_bytes())),
    }
}

fn compact(b: &[u8]) -> LocatorUDPv4_t {
    LocatorUDPv4_t::read_from_buffer_with_ctx(Endianness::BigEndian, b).expect("compact locator")
}

fn compact_bytes(c: &LocatorUDPv4_t) -> String {
    arr(c.write_to_vec_with_ctx(Endianness::BigEndian).expect("compact locator"))
}

fn time_bytes<X: std::fmt::Debug>(t: &X) -> String {
    let v = ints(t);
    assert_eq!(v.len(), 2);
    let mut b = vec![];
    b.extend_from_slice(&(v[0] as i32).to_be_bytes());
    b.extend_from_slice(&(v[1] as u32).to_be_bytes());
    arr(b)
}

fn seconds_nanos(d: Duration) -> String {
    format!(
        "\"s\":{},\"n\":{}",
        arr(d.as_secs().to_be_bytes()),
        arr(d.subsec_nanos().to_be_bytes())
    )
}

fn system_time(t: Result<SystemTime, &'static str>) -> String {
    match t {
        Err(_) => "{\"r\":\"err\"}".to_string(),
        Ok(t) => match t.duration_since(UNIX_EPOCH) {
            Ok(d) => format!("{{\"r\":\"ok\",{}}}", seconds_nanos(d)),
            Err(_) => "{\"r\":\"early\"}".to_string(),
        },
    }
}

fn option<X>(x: Option<Option<X>>, f: impl Fn(X) -> String) -> String {
    match x {
        None => "[-1]".to_string(),
        Some(None) => "[]".to_string(),
        Some(Some(x)) => f(x),
    }
}

fn compare<X: Ord + Copy>(a: X, b: X) -> String {
    let all = [a < b, a <= b, a == b, a != b, a >= b, a > b];
    let cmp = match a.cmp(&b) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    };
    let min = a.min(b) == a;
    let partial = a.partial_cmp(&b) == Some(a.cmp(&b));
    format!("\"cmp\":{},\"ops\":{},\"min\":{},\"par\":{}", cmp, arr(all), min, partial)
}

macro_rules! arithmetic {
    ($a:expr, $b:expr, $canonical:expr) => {{
        let (a, b) = ($a, $b);
        format!(
            "\"add\":{},\"sub\":{},\"mul\":{},\"div\":{},{}",
            option(guarded(|| a.checked_add(&b)), $canonical),
            option(guarded(|| a.checked_sub(&b)), $canonical),
            option(guarded(|| a.checked_mul(&b)), $canonical),
            option(guarded(|| a.checked_div(&b)), $canonical),
            compare(a, b)
        )
    }};
}

fn i64_of(b: &[u8]) -> i64 {
    let mut a = [0; 8];
    a.copy_from_slice(b);
    i64::from_be_bytes(a)
}

fn u32_of(b: &[u8]) -> u32 {
    let mut a = [0; 4];
    a.copy_from_slice(b);
    u32::from_be_bytes(a)
}

fn sn(x: SequenceNumber_t) -> String {
    arr(i64::from(x).to_be_bytes())
}

fn fnr(x: FragmentNumber_t) -> String {
    arr(u32::from(x).to_be_bytes())
}

fn to_plain<X: ToPrimitive>(x: X) -> String {
    format!(
        "\"toi\":{},\"tou\":{},\"tou32\":{},\"toi32\":{},\"tou8\":{}",
        option(guarded(|| x.to_i64()), |v| arr(v.to_be_bytes())),
        option(guarded(|| x.to_u64()), |v| arr(v.to_be_bytes())),
        option(guarded(|| x.to_u32()), |v| arr(v.to_be_bytes())),
        option(guarded(|| x.to_i32()), |v| arr(v.to_be_bytes())),
        option(guarded(|| x.to_u8()), |v| arr(v.to_be_bytes())),
    )
}

fn either(text: Option<String>) -> String {
    match text {
        Some(t) => format!("\"r\":\"ok\",{}", t),
        None => "\"r\":\"panic\"".to_string(),
    }
}

/// Where the text of an event goes
trait Sink {
    fn begin(&mut self, fields: &str);
    fn end(&mut self, fields: &str);
    fn event(&mut self, fields: &str) {
        self.begin(fields);
        self.end("");
    }
}

impl Sink for Out {
    fn begin(&mut self, fields: &str) {
        Out::begin(self, fields)
    }
    fn end(&mut self, fields: &str) {
        Out::end(self, fields)
    }
}

impl Sink for String {
    fn begin(&mut self, fields: &str) {
        self.push_str(fields)
    }
    fn end(&mut self, fields: &str) {
        self.push_str(fields)
    }
}

/// All results of one operation of flags with a mask, by the flags it starts from
fn all_flags(f: impl Fn(&mut SubmessageFlag) -> u8 + std::panic::RefUnwindSafe) -> String {
    arr((0..256).map(|start| {
        guarded(|| i32::from(f(&mut SubmessageFlag { flags: start as u8 }))).unwrap_or(-1)
    }))
}

pub fn run(words: &[&str], out: &mut Out) {
    out.start("");
    let mut flags = SubmessageFlag { flags: 0 };
    for word in words {
        match word.strip_prefix("all;") {
            None => step(word, &mut flags, out),
            Some(word) => {
                // every value of two bytes, as runs that go alike
                out.begin("\"e\":\"all\",");
                let runs = crate::runs::runs(|x| {
                    let mut text = String::new();
                    let word = word
                        .replace('^', &format!("{:02x}", x >> 8))
                        .replace('~', &format!("{:02x}", x & 255))
                        .replace('#', &x.to_string());
                    step(&word, &mut SubmessageFlag { flags: 0 }, &mut text);
                    text
                });
                out.end(&format!("\"runs\":[{}]", runs));
            }
        }
    }
}

fn step(word: &str, flags: &mut SubmessageFlag, out: &mut impl Sink) {
    let p: Vec<&str> = word.split(':').collect();
    {
        match p[0] {
            "rt" => {
                let (e, le) = order(p[2]);
                let b = hex(p[3]);
                out.begin(&format!("\"e\":\"rt\",\"ty\":\"{}\",\"le\":{},\"b\":{},", p[1], le, arr(&b)));
                out.end(&wire_value(p[1], e, &b));
            }
            "seq" => {
                let b = hex(p[1]);
                out.event(&format!("\"e\":\"fill\",\"b\":{}", arr(&b)));
                let mut at = 0;
                for value in p[2].split(',').filter(|v| !v.is_empty()) {
                    let (ty, le) = value.split_at(value.len() - 1);
                    let (e, le) = order(le);
                    out.begin(&format!("\"e\":\"take\",\"ty\":\"{}\",\"le\":{},", ty, le));
                    let (text, used) = take(ty, e, &b[at..]);
                    out.end(&text);
                    at = (at + used).min(b.len());
                }
            }
            "cmp" => {
                let ((e, le), (f, le2)) = (order(p[2]), order(p[4]));
                let (a, b) = (hex(p[3]), hex(p[5]));
                out.begin(&format!(
                    "\"e\":\"cmp\",\"ty\":\"{}\",\"le\":{},\"a\":{},\"le2\":{},\"b\":{},",
                    p[1],
                    le,
                    arr(&a),
                    le2,
                    arr(&b)
                ));
                out.end(&comparison(p[1], e, &a, f, &b));
            }
            "sa4" => {
                let a = hex(p[1]);
                let port: u16 = p[2].parse().expect("port");
                out.begin(&format!("\"e\":\"sa4\",\"a\":{},\"p\":{},", arr(&a), arr(port.to_be_bytes())));
                out.end(&either(guarded(|| {
                    let ip = Ipv4Addr::new(a[0], a[1], a[2], a[3]);
                    let v4 = SocketAddrV4::new(ip, port);
                    let l = Locator_t::from(SocketAddr::V4(v4));
                    let shown = locator_bytes(&l);
                    let c = LocatorUDPv4_t::from(v4);
                    let cshown = compact_bytes(&c);
                    let c2 = LocatorUDPv4_t::from(v4);
                    format!(
                        "\"loc\":{},\"back\":{},\"c\":{},\"cback\":{},\"cl\":{}",
                        shown,
                        socket(SocketAddr::from(l)),
                        cshown,
                        socket(SocketAddr::V4(SocketAddrV4::from(c))),
                        locator_bytes(&Locator_t::from(c2))
                    )
                })));
            }
            "sa6" => {
                let a = hex(p[1]);
                let port: u16 = p[2].parse().expect("port");
                out.begin(&format!("\"e\":\"sa6\",\"a\":{},\"p\":{},", arr(&a), arr(port.to_be_bytes())));
                out.end(&either(guarded(|| {
                    let mut b = [0; 16];
                    b.copy_from_slice(&a);
                    let l = Locator_t::from(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(b)), port));
                    let shown = locator_bytes(&l);
                    format!("\"loc\":{},\"back\":{}", shown, socket(SocketAddr::from(l)))
                })));
            }
            "loc" => {
                let b = hex(p[1]);
                out.begin(&format!("\"e\":\"loc\",\"b\":{},", arr(&b)));
                let mut address = [0; 16];
                address.copy_from_slice(&b[8..]);
                let kind = match u32_of(&b[..4]) {
                    0 => LocatorKind_t::LOCATOR_KIND_RESERVED,
                    1 => LocatorKind_t::LOCATOR_KIND_UDPv4,
                    2 => LocatorKind_t::LOCATOR_KIND_UDPv6,
                    _ => LocatorKind_t::LOCATOR_KIND_INVALID,
                };
                let l = Locator_t { kind, port: u32_of(&b[4..8]), address };
                out.end(&either(guarded(|| format!("\"back\":{}", socket(SocketAddr::from(l))))));
            }
            "cloc" => {
                let b = hex(p[1]);
                out.begin(&format!("\"e\":\"cloc\",\"b\":{},", arr(&b)));
                out.end(&either(guarded(|| {
                    format!(
                        "\"back\":{},\"loc\":{}",
                        socket(SocketAddr::V4(SocketAddrV4::from(compact(&b)))),
                        locator_bytes(&Locator_t::from(compact(&b)))
                    )
                })));
            }
            "sys" => {
                let before = p[1] == "-";
                let s: u64 = p[2].parse().expect("seconds");
                let n: u32 = p[3].parse().expect("nanoseconds");
                out.begin(&format!(
                    "\"e\":\"sys\",\"neg\":{},\"s\":{},\"n\":{},",
                    before,
                    arr(s.to_be_bytes()),
                    arr(n.to_be_bytes())
                ));
                let d = Duration::new(s, n);
                let t = if before { UNIX_EPOCH.checked_sub(d) } else { UNIX_EPOCH.checked_add(d) };
                out.end(&match t {
                    None => "\"r\":\"none\"".to_string(),
                    Some(t) => either(guarded(|| {
                        let p = Time_t::from(t);
                        let shown = time_bytes(&p);
                        format!("\"t\":{},\"back\":{}", shown, system_time(SystemTime::try_from(p)))
                    })),
                });
            }
            "time" => {
                let b = hex(p[1]);
                out.begin(&format!("\"e\":\"time\",\"b\":{},", arr(&b)));
                let t = Time_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).expect("time");
                out.end(&either(guarded(|| format!("\"sys\":{}", system_time(SystemTime::try_from(t))))));
            }
            "dur" => {
                let s: u64 = p[1].parse().expect("seconds");
                let n: u32 = p[2].parse().expect("nanoseconds");
                let d = Duration::new(s, n);
                out.begin(&format!("\"e\":\"dur\",{},", seconds_nanos(d)));
                out.end(&either(guarded(|| {
                    let p = Duration_t::from(d);
                    let shown = time_bytes(&p);
                    let same = p == Duration_t::DURATION_INFINITE;
                    format!(
                        "\"t\":{},\"inf\":{},\"back\":{{{}}}",
                        shown,
                        same,
                        seconds_nanos(Duration::from(p))
                    )
                })));
            }
            "pdur" => {
                let b = hex(p[1]);
                out.begin(&format!("\"e\":\"pdur\",\"b\":{},", arr(&b)));
                let d = Duration_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).expect("duration");
                out.end(&either(guarded(|| seconds_nanos(Duration::from(d)))));
            }
            "ar" => {
                let (a, b) = (hex(p[2]), hex(p[3]));
                out.begin(&format!("\"e\":\"ar\",\"ty\":\"{}\",\"a\":{},\"b\":{},", p[1], arr(&a), arr(&b)));
                out.end(&match p[1] {
                    "sn" => arithmetic!(
                        SequenceNumber_t::from(i64_of(&a)),
                        SequenceNumber_t::from(i64_of(&b)),
                        sn
                    ),
                    _ => arithmetic!(
                        FragmentNumber_t::from(u32_of(&a)),
                        FragmentNumber_t::from(u32_of(&b)),
                        fnr
                    ),
                });
            }
            "conv" => {
                let b = hex(p[2]);
                let x = i64_of(&b);
                out.begin(&format!("\"e\":\"conv\",\"ty\":\"{}\",\"x\":{},", p[1], arr(&b)));
                out.end(&match p[1] {
                    "sn" => format!(
                        "\"id\":{},\"fromi\":{},\"fromu\":{},{}",
                        sn(SequenceNumber_t::from(x)),
                        option(guarded(|| SequenceNumber_t::from_i64(x)), sn),
                        option(guarded(|| SequenceNumber_t::from_u64(x as u64)), sn),
                        to_plain(SequenceNumber_t::from(x))
                    ),
                    "fn" => format!(
                        "\"id\":{},\"fromi\":{},\"fromu\":{},{}",
                        fnr(FragmentNumber_t::from(x as u32)),
                        option(guarded(|| FragmentNumber_t::from_i64(x)), fnr),
                        option(guarded(|| FragmentNumber_t::from_u64(x as u64)), fnr),
                        to_plain(FragmentNumber_t::from(x as u32))
                    ),
                    _ => format!(
                        "\"id\":{}",
                        arr(i32::from(Count_t::from(x as i32)).to_be_bytes())
                    ),
                });
            }
            "fl" => {
                flags.flags = hex(p[1])[0];
                out.event(&format!("\"e\":\"fl\",\"m\":{}", flags.flags));
            }
            "fa" => {
                let m = hex(p[1])[0];
                out.begin(&format!("\"e\":\"fa\",\"m\":{},", m));
                out.end(&format!(
                    "\"set\":{},\"clear\":{},\"test\":{},\"kept\":{}",
                    all_flags(|f| { f.set_flag(m); f.flags }),
                    all_flags(|f| { f.clear_flag(m); f.flags }),
                    all_flags(|f| u8::from(f.is_flag_set(m))),
                    all_flags(|f| { f.is_flag_set(m); f.flags })
                ));
            }
            "fs" | "fc" | "ft" => {
                let m = hex(p[1])[0];
                out.begin(&format!("\"e\":\"{}\",\"m\":{},", p[0], m));
                let mut result = false;
                let done = guarded(|| match p[0] {
                    "fs" => flags.set_flag(m),
                    "fc" => flags.clear_flag(m),
                    _ => result = flags.is_flag_set(m),
                });
                out.end(&format!(
                    "\"r\":\"{}\",\"set\":{},\"f\":{}",
                    if done.is_some() { "ok" } else { "panic" },
                    result,
                    flags.flags
                ));
            }
            "fe" => {
                out.begin("\"e\":\"fe\",");
                let le = guarded(|| flags.endianness_flag() == Endianness::LittleEndian);
                out.end(&format!(
                    "\"r\":\"{}\",\"le\":{},\"f\":{}",
                    if le.is_some() { "ok" } else { "panic" },
                    le.unwrap_or(false),
                    flags.flags
                ));
            }
            _ => panic!("unknown word {}", word),
        }
    }
}
