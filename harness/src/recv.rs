//! Family R: a message receiver. `R <locator kind> <command>...`
//!   f<hex>  bytes arrive
//!   d       one decode call
//!   D       decode calls until one returns nothing and consumes nothing
//!   F<hex>  what a fresh receiver shows after reading this header
//!   r<hex>  what a fresh receiver does when it gets these bytes at once
//!   u<hex>  a datagram: these bytes alone, decoded to its end
//!   v<hex>  what a fresh receiver does with this datagram
//!   e       end of the input
use crate::memory::{growth_of, peak_of};
use crate::{arr, guarded, hex, ints, Out};
use bytes::BytesMut;
use rtps_rs::verif::messages::receiver::{MessageReceiver, Receiver};
use rtps_rs::verif::messages::submessage::EntitySubmessage;
use rtps_rs::verif::structure::entity_id::EntityId_t;
use rtps_rs::verif::structure::locator::{LocatorKind_t, Locator_t};
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use tokio_util::codec::Decoder;

pub fn locator(l: &Locator_t) -> String {
    let mut b = vec![];
    b.extend_from_slice(&(l.kind as u32).to_be_bytes());
    b.extend_from_slice(&l.port.to_be_bytes());
    b.extend_from_slice(&l.address);
    arr(b)
}

pub fn kind_of(word: &str) -> LocatorKind_t {
    match word {
        "inv" => LocatorKind_t::LOCATOR_KIND_INVALID,
        "res" => LocatorKind_t::LOCATOR_KIND_RESERVED,
        "v4" => LocatorKind_t::LOCATOR_KIND_UDPv4,
        "v6" => LocatorKind_t::LOCATOR_KIND_UDPv6,
        _ => panic!("locator kind"),
    }
}

fn locators(ls: &[Locator_t]) -> String {
    arr(ls.iter().map(locator))
}

fn context(r: &Receiver) -> String {
    let ts = ints(&r.timestamp);
    assert_eq!(ts.len(), 2);
    let mut t = vec![];
    t.extend_from_slice(&(ts[0] as i32).to_be_bytes());
    t.extend_from_slice(&(ts[1] as u32).to_be_bytes());
    format!(
        "{{\"ver\":[{},{}],\"ven\":{},\"src\":{},\"dst\":{},\"uni\":{},\"mul\":{},\"ht\":{},\"ts\":{}}}",
        r.source_version.major,
        r.source_version.minor,
        arr(r.source_vendor_id.vendor_id),
        arr(r.source_guid_prefix.entity_key),
        arr(r.dest_guid_prefix.entity_key),
        locators(&r.unicast_reply_locator_list),
        locators(&r.multicast_reply_locator_list),
        r.have_timestamp,
        arr(t)
    )
}

fn id(e: EntityId_t) -> String {
    let v = ints(&e);
    assert_eq!(v.len(), 4);
    arr(v)
}

fn sn(s: SequenceNumber_t) -> String {
    arr(i64::from(s).to_be_bytes())
}

fn snset(s: SequenceNumberSet_t) -> (String, String) {
    let base = ints(&s)[0] as i64;
    (arr(base.to_be_bytes()), arr(s.into_iter().map(sn)))
}

fn item(e: EntitySubmessage) -> String {
    match e {
        EntitySubmessage::AckNack(a, flags) => {
            let (base, members) = snset(a.reader_sn_state);
            format!(
                "{{\"k\":\"AckNack\",\"f\":[{},{},{},{},{}],\"fl\":{}}}",
                id(a.reader_id),
                id(a.writer_id),
                base,
                members,
                arr(i32::from(a.count).to_be_bytes()),
                flags.flags
            )
        }
        EntitySubmessage::Gap(g) => {
            let (base, members) = snset(g.gap_list);
            format!(
                "{{\"k\":\"Gap\",\"f\":[{},{},{},{},{}],\"fl\":-1}}",
                id(g.reader_id),
                id(g.writer_id),
                sn(g.gap_start),
                base,
                members
            )
        }
        EntitySubmessage::Heartbeat(h, flags) => format!(
            "{{\"k\":\"Heartbeat\",\"f\":[{},{},{},{},{}],\"fl\":{}}}",
            id(h.reader_id),
            id(h.writer_id),
            sn(h.first_sn),
            sn(h.last_sn),
            arr(i32::from(h.count).to_be_bytes()),
            flags.flags
        ),
        EntitySubmessage::HeartbeatFrag(h) => format!(
            "{{\"k\":\"HeartbeatFrag\",\"f\":[{},{},{},{},{}],\"fl\":-1}}",
            id(h.reader_id),
            id(h.writer_id),
            sn(h.writer_sn),
            arr(u32::from(h.last_fragment_num).to_be_bytes()),
            arr(i32::from(h.count).to_be_bytes())
        ),
        EntitySubmessage::NackFrag(n) => {
            let base = ints(&n.fragment_number_state)[0] as u32;
            format!(
                "{{\"k\":\"NackFrag\",\"f\":[{},{},{},{},{},{}],\"fl\":-1}}",
                id(n.reader_id),
                id(n.writer_id),
                sn(n.writer_sn),
                arr(base.to_be_bytes()),
                arr(n
                    .fragment_number_state
                    .into_iter()
                    .map(|m| arr(u32::from(m).to_be_bytes()))),
                arr(i32::from(n.count).to_be_bytes())
            )
        }
        other => format!("{{\"k\":\"{}\",\"f\":[],\"fl\":-1}}", match other {
            EntitySubmessage::Data(..) => "Data",
            _ => "DataFrag",
        }),
    }
}

pub struct Session {
    receiver: MessageReceiver,
    buffer: BytesMut,
    shown: String,
}

struct Observation {
    r: &'static str,
    left: usize,
    consumed: usize,
    suffix: bool,
    item: String,
    changed: Option<String>,
    /// how much memory the call needed at most
    memory: usize,
}

impl Session {
    fn new(kind: LocatorKind_t) -> Session {
        Session {
            receiver: MessageReceiver::new(kind),
            buffer: BytesMut::new(),
            shown: String::new(),
        }
    }

    fn decode(&mut self, eof: bool) -> Observation {
        let before = self.buffer.to_vec();
        let (receiver, buffer) = (&mut self.receiver, &mut self.buffer);
        let mut memory = 0;
        // reading the item (iterating its sets) is part of what must not crash
        let result = guarded(|| {
            let (result, peak) = peak_of(|| if eof {
                receiver.decode_eof(buffer)
            } else {
                receiver.decode(buffer)
            });
            memory = peak;
            result.map(|o| o.map(item))
        });
        let (r, item) = match result {
            None => ("panic", String::new()),
            Some(Err(_)) => ("err", String::new()),
            Some(Ok(None)) => ("none", String::new()),
            Some(Ok(Some(text))) => ("item", text),
        };
        let mut changed = None;
        if r != "panic" {
            let now = context(self.receiver.verif_receiver());
            if now != self.shown {
                self.shown = now.clone();
                changed = Some(now);
            }
        }
        Observation {
            r,
            left: self.buffer.len(),
            consumed: before.len().saturating_sub(self.buffer.len()),
            suffix: before.ends_with(&self.buffer),
            item,
            changed,
            memory: memory.min(1 << 30),
        }
    }
}

fn record(o: &Observation) -> String {
    let mut s = format!(
        "\"r\":\"{}\",\"left\":{},\"suf\":{},\"mem\":{},\"ch\":{}",
        o.r,
        o.left,
        o.suffix,
        o.memory,
        o.changed.is_some()
    );
    if let Some(c) = &o.changed {
        s.push_str(&format!(",\"rcv\":{}", c));
    }
    if o.r == "item" {
        s.push_str(&format!(",\"it\":{},\"is\":\"{}\"", o.item, o.item.replace('"', "")));
    }
    s
}

fn idle(o: &Observation) -> bool {
    o.r == "none" && o.consumed == 0
}

/// The items and errors a fresh receiver gives, and its context in the end
fn reference(kind: LocatorKind_t, b: &[u8], datagram: bool) -> (&'static str, Vec<String>) {
    let mut fresh = Session::new(kind);
    fresh.buffer.extend_from_slice(b);
    let mut observations = vec![];
    for _ in 0..b.len() + 8 {
        let o = fresh.decode(datagram);
        if o.r == "panic" {
            return ("panic", observations);
        }
        let done = if datagram { o.r == "none" } else { idle(&o) };
        if o.r != "none" || done {
            observations.push(format!(
                "{{\"r\":\"{}\",\"rcv\":{}{}}}",
                o.r,
                context(fresh.receiver.verif_receiver()),
                if o.r == "item" {
                    format!(",\"is\":\"{}\"", o.item.replace('"', ""))
                } else {
                    String::new()
                }
            ));
        }
        if done {
            return ("ok", observations);
        }
    }
    ("endless", observations)
}

/// Decodes many datagrams with one receiver: how much memory does it keep?
/// `<rounds>:<position>.<position>=<datagram>,...`: the number of the round is
/// put in at the positions, so that no datagram comes twice
fn kept(kind: LocatorKind_t, argument: &str, out: &mut Out) {
    let (rounds, messages) = argument.split_once(':').expect("rounds");
    let rounds: u32 = rounds.parse().expect("rounds");
    let messages: Vec<(Vec<usize>, Vec<u8>)> = messages
        .split(',')
        .map(|m| {
            let (positions, b) = m.split_once('=').expect("datagram");
            (positions.split('.').map(|p| p.parse().expect("position")).collect(), hex(b))
        })
        .collect();
    let longest = messages.iter().map(|m| m.1.len()).max().unwrap_or(0);
    out.begin(&format!("\"e\":\"kept\",\"had\":{},", longest));
    let mut receiver = MessageReceiver::new(kind);
    let (result, memory) = growth_of(|| {
        guarded(|| {
            for round in 0..rounds {
                let (positions, b) = &messages[round as usize % messages.len()];
                let mut buffer = BytesMut::from(&b[..]);
                for &p in positions {
                    for (x, y) in buffer[p..p + 4].iter_mut().zip(round.to_be_bytes().iter()) {
                        *x ^= y;
                    }
                }
                for _ in 0..b.len() + 8 {
                    if let Ok(None) = receiver.decode_eof(&mut buffer) {
                        break;
                    }
                }
            }
        })
    });
    out.end(&format!(
        "\"r\":\"{}\",\"mem\":{}",
        if result.is_some() { "ok" } else { "panic" },
        memory.min(1 << 30)
    ));
}

/// Starts the trace of a receiver of this kind
pub fn start(kind: LocatorKind_t, out: &mut Out) -> Session {
    let mut session = Session::new(kind);
    out.start(&format!(
        "\"lk\":{},\"rcv\":{},",
        arr((kind as u32).to_be_bytes()),
        context(session.receiver.verif_receiver())
    ));
    session.shown = context(session.receiver.verif_receiver());
    session
}

pub fn run(words: &[&str], out: &mut Out) {
    let kind = kind_of(words[0]);
    let mut session = start(kind, out);
    commands(kind, &mut session, &words[1..], out);
}

/// Executes commands; false if the code under test panicked
pub fn commands(kind: LocatorKind_t, session: &mut Session, words: &[&str], out: &mut Out) -> bool {
    for word in words {
        let (command, argument) = word.split_at(1);
        match command {
            "f" => {
                let b = hex(argument);
                session.buffer.extend_from_slice(&b);
                out.event(&format!("\"e\":\"feed\",\"b\":{}", arr(b)));
            }
            "d" => {
                out.begin(&format!("\"e\":\"dec\",\"had\":{},", session.buffer.len()));
                let o = session.decode(false);
                out.end(&record(&o));
                if o.r == "panic" {
                    return false;
                }
            }
            "D" => {
                let limit = session.buffer.len() + 8;
                for _ in 0..limit {
                    out.begin(&format!("\"e\":\"dec\",\"had\":{},", session.buffer.len()));
                    let o = session.decode(false);
                    out.end(&record(&o));
                    if o.r == "panic" {
                        return false;
                    }
                    if idle(&o) {
                        break;
                    }
                }
            }
            "F" => {
                let b = hex(argument);
                out.begin(&format!("\"e\":\"fresh\",\"b\":{},", arr(&b)));
                let mut fresh = Session::new(kind);
                fresh.buffer.extend_from_slice(&b);
                let o = fresh.decode(false);
                out.end(&format!(
                    "\"r\":\"{}\",\"rcv\":{}",
                    o.r,
                    context(fresh.receiver.verif_receiver())
                ));
            }
            "r" | "v" => {
                let b = hex(argument);
                out.begin("\"e\":\"ref\",");
                let (r, observations) = reference(kind, &b, command == "v");
                out.end(&format!("\"r\":\"{}\",\"obs\":{}", r, arr(observations)));
            }
            "u" => {
                let b = hex(argument);
                session.buffer = BytesMut::from(&b[..]);
                out.event(&format!("\"e\":\"dgram\",\"b\":{}", arr(&b)));
                let mut done = false;
                for _ in 0..b.len() + 8 {
                    out.begin(&format!("\"e\":\"eof\",\"had\":{},", session.buffer.len()));
                    let o = session.decode(true);
                    out.end(&record(&o));
                    if o.r == "panic" {
                        return false;
                    }
                    if o.r == "none" {
                        done = true;
                        break;
                    }
                }
                out.event(&format!("\"e\":\"dend\",\"idle\":{}", done));
            }
            "K" => kept(kind, argument, out),
            "e" => out.event("\"e\":\"end\""),
            _ => panic!("unknown command {}", word),
        }
    }
    true
}
