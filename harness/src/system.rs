//! Family Y: a stateless writer, a history cache and reader proxies together.
//! `Y <guid> <last sequence number> <number of proxies> <command>...`
//!   w<kind>.<handle>   make a change and put it into the cache
//!   W<kind>.<handle>   make a change that is not put into the cache
//!   r<k>    remove the k-th change made (from 0, modulo their number) from the cache
//!   n<p>.<order>   the proxy's next unsent change of those in the cache, presented in
//!           ascending (a), descending (d) or some other order (a number)
//!   p       one more proxy
use crate::change::{copy, guid, handle, i64_of, kind, shown, sn};
use crate::writer_attributes::stateless;
use crate::{arr, guarded, hex, Out};
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::history_cache::verif::Cache;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;

fn arrange(order: &str, slice: &mut Vec<CacheChange>) {
    match order {
        "a" => (),
        "d" => slice.reverse(),
        _ => {
            let mut x: u64 = order.parse::<u64>().expect("order") * 2 + 1;
            for i in (1..slice.len()).rev() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                slice.swap(i, (x >> 33) as usize % (i + 1));
            }
        }
    }
}

pub fn run(words: &[&str], out: &mut Out) {
    let g = hex(words[0]);
    let mut writer = stateless(guid(&g), i64_of(words[1]));
    let n: u8 = words[2].parse().expect("number of proxies");
    let mut proxies: Vec<ReaderProxy> = (0..n).map(|i| ReaderProxy::new(guid(&[i; 16]), i % 2 == 0)).collect();
    let mut cache = Cache::new();
    let mut made: Vec<SequenceNumber_t> = vec![];
    out.start(&format!("\"n\":{},", n));
    for word in &words[3..] {
        let (command, argument) = word.split_at(1);
        match command {
            "w" | "W" => {
                let p: Vec<&str> = argument.split('.').collect();
                let k: u8 = p[0].parse().expect("kind");
                let h = hex(p[1]);
                out.begin(&format!("\"e\":\"{}\",", if command == "w" { "write" } else { "skip" }));
                let text = guarded(|| {
                    let c = writer.new_change(kind(k), Data {}, handle(&h));
                    let text = shown(&c);
                    made.push(c.sequence_number);
                    if command == "w" {
                        cache.add_change(c);
                    }
                    text
                });
                out.end(&match text {
                    None => "\"r\":\"panic\"".to_string(),
                    Some(t) => format!("\"r\":\"ok\",\"c\":{}", t),
                });
            }
            "r" => {
                if made.is_empty() {
                    continue;
                }
                let k = argument.parse::<usize>().expect("index") % made.len();
                out.begin(&format!("\"e\":\"remove\",\"n\":{},", sn(made[k])));
                let done = guarded(|| cache.remove_change(made[k]));
                out.end(if done.is_some() { "\"r\":\"ok\"" } else { "\"r\":\"panic\"" });
            }
            "n" => {
                let (p, order) = argument.split_once('.').expect("proxy and order");
                let p: usize = p.parse().expect("proxy");
                out.begin(&format!("\"e\":\"next\",\"p\":{},", p + 1));
                let proxy = &mut proxies[p];
                let text = guarded(|| {
                    let mut numbers: Vec<SequenceNumber_t> = made.clone();
                    numbers.dedup();
                    let mut slice: Vec<CacheChange> =
                        numbers.iter().filter_map(|n| cache.get_change(*n)).map(copy).collect();
                    arrange(order, &mut slice);
                    proxy.next_unsent_change(&slice).map(shown)
                });
                out.end(&match text {
                    None => "\"r\":\"panic\"".to_string(),
                    Some(t) => format!("\"r\":\"ok\",\"got\":{}", arr(t)),
                });
            }
            "p" => {
                proxies.push(ReaderProxy::new(guid(&[77; 16]), true));
                out.event("\"e\":\"join\"");
            }
            _ => panic!("unknown command {}", word),
        }
    }
}
