//! Family S: the registries of the writers.
//!   a<guid>.<tag>   add a reader proxy with the GUID (number of the catalogue) to the
//!                   stateful writer; its state carries the tag
//!   g<guid>         look the GUID up: the tags of the proxies found
//!   l<i> x<i> s     add, remove, show reader locators of the stateless writer
use crate::change::{guid, guid_bytes, parse};
use crate::registry::{locator, LOCATORS};
use crate::writer_attributes::{attributes, endpoint, entity, stateless};
use crate::{arr, guarded, Out};
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::behavior::stateful_writer::StatefulWriter;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::guid::GUID_t;

const TAGS: usize = 40;

/// Number 0 and sixteen that differ from it in one byte each; the unknown one
fn guid_of(i: usize) -> GUID_t {
    let mut b: Vec<u8> = (1..17).collect();
    match i {
        0 => (),
        1..=16 => b[i - 1] ^= 0x80,
        17 => b = vec![0; 16],
        18 => b.reverse(),
        // the same prefix with the unknown entity, and the same entity with the unknown prefix
        19 => b[12..].fill(0),
        20 => b[..12].fill(0),
        // as many as wanted
        _ => b[4..12].copy_from_slice(&(i as u64).to_be_bytes()),
    }
    guid(&b)
}

/// Changes 0 .. TAGS-1
fn numbered() -> Vec<CacheChange> {
    (0..TAGS).map(|i| parse(&format!("{:016x}.0.01.02", i))).collect()
}

/// A proxy that has sent the first `tag` changes
fn proxy(g: GUID_t, tag: usize, changes: &[CacheChange]) -> ReaderProxy {
    let mut p = ReaderProxy::new(g, tag % 2 == 0);
    for _ in 0..tag {
        p.next_unsent_change(changes);
    }
    p
}

fn tag_of(p: &ReaderProxy, changes: &[CacheChange]) -> usize {
    TAGS - p.unsent_changes(changes).count()
}

pub fn run(words: &[&str], out: &mut Out) {
    // the writers' own GUID, and what varies with it
    let g = if words.len() % 2 == 0 { guid_of(0) } else { guid(&[words.len() as u8; 16]) };
    let mut stateful = StatefulWriter::verif_new(entity(g), endpoint(&g), attributes(&g, 0));
    let mut writer = stateless(g, 0);
    let changes = numbered();
    let numbers = words
        .iter()
        .filter(|w| w.starts_with('l') || w.starts_with('x'))
        .map(|w| w[1..].parse::<usize>().expect("locator") + 1);
    let names: Vec<String> =
        (0..numbers.fold(LOCATORS, usize::max)).map(|i| format!("{:?}", locator(i))).collect();
    out.start("");
    for word in words {
        let (command, argument) = word.split_at(1);
        match command {
            "a" => {
                let p: Vec<usize> = argument.split('.').map(|x| x.parse().expect("number")).collect();
                out.begin(&format!("\"e\":\"match\",\"g\":{},\"t\":{},", p[0], p[1]));
                let done = guarded(|| stateful.matched_reader_add(proxy(guid_of(p[0]), p[1], &changes)));
                out.end(if done.is_some() { "\"r\":\"ok\"" } else { "\"r\":\"panic\"" });
            }
            "g" => {
                let i: usize = argument.parse().expect("guid");
                out.begin(&format!("\"e\":\"lookup\",\"g\":{},", i));
                let found = guarded(|| {
                    stateful
                        .matched_reader_lookup(guid_of(i))
                        .map(|p| {
                            let same = guid_bytes(&p.remote_reader_guid) == guid_bytes(&guid_of(i));
                            if same { tag_of(p, &changes) as i64 } else { -1 }
                        })
                        .collect::<Vec<i64>>()
                });
                out.end(&match found {
                    None => "\"r\":\"panic\"".to_string(),
                    Some(ts) => format!("\"r\":\"ok\",\"ts\":{}", arr(ts)),
                });
            }
            "l" | "x" => {
                let i: usize = argument.parse().expect("locator");
                out.begin(&format!("\"e\":\"{}\",\"i\":{},", if command == "l" { "add" } else { "remove" }, i));
                let done = guarded(|| match command {
                    "l" => writer.reader_locator_add(locator(i)),
                    _ => writer.reader_locator_remove(locator(i)),
                });
                out.end(if done.is_some() { "\"r\":\"ok\"" } else { "\"r\":\"panic\"" });
            }
            "s" => {
                out.begin("\"e\":\"show\",");
                let shown = guarded(|| {
                    writer
                        .reader_locators()
                        .map(|l| {
                            let text = format!("{:?}", l);
                            names.iter().position(|n| n == &text).map_or(-1, |i| i as i64)
                        })
                        .collect::<Vec<i64>>()
                });
                out.end(&match shown {
                    None => "\"r\":\"panic\"".to_string(),
                    Some(is) => format!("\"r\":\"ok\",\"is\":{}", arr(is)),
                });
            }
            _ => panic!("unknown command {}", word),
        }
    }
}
