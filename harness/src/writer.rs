//! Family W: a stateless writer. `W <guid> <last sequence number> <command>...`
//!   c<kind>.<handle>   make a change
//!   l<locator> x<locator>   add, remove a reader locator (numbers of the catalogue)
//!   s    read the writer's attributes
use crate::change::{guid, guid_bytes, handle, i64_of, kind, shown, sn};
use crate::registry::locator;
use crate::writer_attributes::stateless;
use crate::{arr, guarded, hex, Out};
use rtps_rs::verif::structure::data::Data;

pub fn run(words: &[&str], out: &mut Out) {
    let g = hex(words[0]);
    let last = i64_of(words[1]);
    let mut writer = stateless(guid(&g), last);
    out.start(&format!("\"g\":{},\"last\":{},", arr(&g), arr(last.to_be_bytes())));
    for word in &words[2..] {
        let (command, argument) = word.split_at(1);
        match command {
            "c" => {
                let p: Vec<&str> = argument.split('.').collect();
                let k: u8 = p[0].parse().expect("kind");
                let h = hex(p[1]);
                out.begin(&format!("\"e\":\"make\",\"k\":{},\"h\":{},", k, arr(&h)));
                let text = guarded(|| {
                    let c = writer.new_change(kind(k), Data {}, handle(&h));
                    format!(
                        "\"r\":\"ok\",\"c\":{},\"last\":{}",
                        shown(&c),
                        sn(writer.as_writer().last_change_sequence_number)
                    )
                });
                out.end(&text.unwrap_or_else(|| "\"r\":\"panic\"".to_string()));
            }
            "l" | "x" => {
                let i: usize = argument.parse().expect("locator");
                out.begin(&format!("\"e\":\"{}\",\"i\":{},", if command == "l" { "add" } else { "remove" }, i));
                let done = guarded(|| match command {
                    "l" => writer.reader_locator_add(locator(i)),
                    _ => writer.reader_locator_remove(locator(i)),
                });
                out.end(if done.is_some() { "\"r\":\"ok\"" } else { "\"r\":\"panic\"" });
            }
            "s" => {
                out.begin("\"e\":\"state\",");
                let text = guarded(|| {
                    format!(
                        "\"r\":\"ok\",\"last\":{},\"g\":{}",
                        sn(writer.as_writer().last_change_sequence_number),
                        arr(guid_bytes(&writer.as_entity().guid))
                    )
                });
                out.end(&text.unwrap_or_else(|| "\"r\":\"panic\"".to_string()));
            }
            _ => panic!("unknown command {}", word),
        }
    }
}
