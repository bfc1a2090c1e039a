//! Family H: the history cache.
//!   a<change>   add a change
//!   r<sn>       remove the changes with a number
//!   g<sn>       look a number up
//!   b           lowest and highest number, and all numbers of the schedule that are found
use crate::change::{i64_of, parse, shown, sn};
use crate::{arr, guarded, Out};
use rtps_rs::verif::structure::history_cache::verif::Cache;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;

fn outcome<X>(x: Option<X>, f: impl Fn(X) -> String) -> String {
    match x {
        None => "\"r\":\"panic\"".to_string(),
        Some(x) => format!("\"r\":\"ok\"{}", f(x)),
    }
}

pub fn run(words: &[&str], out: &mut Out) {
    out.start("");
    let mut cache = Cache::new();
    let mut numbers: Vec<i64> = vec![];
    for word in words {
        let (_, argument) = word.split_at(1);
        if !argument.is_empty() {
            let n = i64_of(argument.split('.').next().unwrap());
            if !numbers.contains(&n) {
                numbers.push(n);
            }
        }
    }
    for word in words {
        let (command, argument) = word.split_at(1);
        match command {
            "a" => {
                let c = parse(argument);
                out.begin(&format!("\"e\":\"add\",\"c\":{},", shown(&c)));
                out.end(&outcome(guarded(|| cache.add_change(c)), |_| String::new()));
            }
            "r" => {
                let n = SequenceNumber_t::from(i64_of(argument));
                out.begin(&format!("\"e\":\"remove\",\"n\":{},", sn(n)));
                out.end(&outcome(guarded(|| cache.remove_change(n)), |_| String::new()));
            }
            "g" => {
                let n = SequenceNumber_t::from(i64_of(argument));
                out.begin(&format!("\"e\":\"get\",\"n\":{},", sn(n)));
                let got = guarded(|| cache.get_change(n).map(shown));
                out.end(&outcome(got, |c| {
                    format!(",\"got\":[{}]", c.unwrap_or_default())
                }));
            }
            "b" => {
                out.begin("\"e\":\"bounds\",");
                let result = guarded(|| {
                    let min = cache.get_seq_num_min();
                    let max = cache.get_seq_num_max();
                    let found: Vec<String> = numbers
                        .iter()
                        .map(|n| SequenceNumber_t::from(*n))
                        .filter(|n| cache.get_change(*n).is_some())
                        .map(sn)
                        .collect();
                    (min, max, found)
                });
                out.end(&outcome(result, |(min, max, found)| {
                    format!(
                        ",\"min\":{},\"max\":{},\"found\":{}",
                        min.map_or("[]".to_string(), sn),
                        max.map_or("[]".to_string(), sn),
                        arr(found)
                    )
                }));
            }
            _ => panic!("unknown command {}", word),
        }
    }
}
