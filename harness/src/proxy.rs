//! Family X: reader proxies and a list of changes. `X <number of proxies> <command>...`
//!   +<change>   append a change to the list
//!   ^<change>   insert a change at the front
//!   -<index>    take a change off the list (0-based, modulo its length)
//!   c           empty the list
//!   n<proxy>    ask the proxy for its next unsent change
//!   u<proxy>    list the proxy's unsent changes
//! Changes handed out are shown as their position in the list, from 1; 0: none.
use crate::change::{guid, parse, sn};
use crate::{arr, guarded, Out};
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::structure::cache_change::CacheChange;

fn position(changes: &[CacheChange], c: &CacheChange) -> i64 {
    changes.iter().position(|x| std::ptr::eq(x, c)).map_or(-1, |i| i as i64 + 1)
}

pub fn run(words: &[&str], out: &mut Out) {
    let n: u8 = words[0].parse().expect("number of proxies");
    // two of them have the same GUID
    let mut proxies: Vec<ReaderProxy> = (0..n)
        .map(|i| ReaderProxy::new(guid(&[i / 2; 16]), i % 2 == 0))
        .collect();
    let mut changes: Vec<CacheChange> = vec![];
    out.start(&format!("\"n\":{},", n));
    for word in &words[1..] {
        let (command, argument) = word.split_at(1);
        match command {
            "+" | "^" => {
                let c = parse(argument);
                out.event(&format!(
                    "\"e\":\"{}\",\"sn\":{}",
                    if command == "+" { "append" } else { "prepend" },
                    sn(c.sequence_number)
                ));
                let at = if command == "+" { changes.len() } else { 0 };
                changes.insert(at, c);
            }
            "-" => {
                if !changes.is_empty() {
                    let i = argument.parse::<usize>().expect("index") % changes.len();
                    changes.remove(i);
                    out.event(&format!("\"e\":\"drop\",\"i\":{}", i + 1));
                }
            }
            "c" => {
                changes.clear();
                out.event("\"e\":\"clear\"");
            }
            "n" => {
                let p: usize = argument.parse().expect("proxy");
                out.begin(&format!("\"e\":\"next\",\"p\":{},", p + 1));
                let proxy = &mut proxies[p];
                let got = guarded(|| proxy.next_unsent_change(&changes).map_or(0, |c| position(&changes, c)));
                out.end(&match got {
                    None => "\"r\":\"panic\"".to_string(),
                    Some(i) => format!("\"r\":\"ok\",\"i\":{}", i),
                });
            }
            "u" => {
                let p: usize = argument.parse().expect("proxy");
                out.begin(&format!("\"e\":\"unsent\",\"p\":{},", p + 1));
                let proxy = &proxies[p];
                let got = guarded(|| {
                    proxy.unsent_changes(&changes).map(|c| position(&changes, c)).collect::<Vec<i64>>()
                });
                out.end(&match got {
                    None => "\"r\":\"panic\"".to_string(),
                    Some(is) => format!("\"r\":\"ok\",\"is\":{}", arr(is)),
                });
            }
            _ => panic!("unknown command {}", word),
        }
    }
}
