//! Family P: parameters. Each word is one event.
//!   p:<0|1>:<id>:<hex>:<hex>   encode a parameter in the byte order, decode the
//!                              encoding followed by the second byte string
//!   r:<0|1>:<hex>              read a parameter from the front of the bytes
use crate::sets::order;
use crate::{arr, guarded, hex, ints, Out};
use rtps_rs::verif::messages::submessage_elements::parameter::Parameter;
use rtps_rs::verif::structure::parameter_id::ParameterId;
use speedy::{Endianness, Readable, Writable};

fn id(value: u16) -> ParameterId {
    ParameterId::read_from_buffer_with_ctx(Endianness::BigEndian, &value.to_be_bytes()).expect("id")
}

/// A parameter as a peer may send it, with any length
fn received(e: Endianness, le: bool, bytes: Vec<u8>, out: &mut Out) {
    out.begin(&format!("\"e\":\"praw\",\"le\":{},\"b\":{},", le, arr(&bytes)));
    let text = guarded(|| {
        let mut rest = &bytes[..];
        match Parameter::read_from_stream_unbuffered_with_ctx(e, &mut rest) {
            Err(_) => "\"r\":\"err\",\"rid\":[],\"rv\":[],\"used\":0".to_string(),
            Ok(q) => format!(
                "\"r\":\"ok\",\"rid\":{},\"rv\":{},\"used\":{}",
                arr((ints(q.verif_parameter_id())[0] as u16).to_be_bytes()),
                arr(q.verif_value()),
                bytes.len() - rest.len()
            ),
        }
    });
    out.end(&text.unwrap_or_else(|| {
        "\"r\":\"panic\",\"rid\":[],\"rv\":[],\"used\":0".to_string()
    }));
}

pub fn run(words: &[&str], out: &mut Out) {
    out.start("");
    for word in words {
        let p: Vec<&str> = word.split(':').collect();
        let (e, le) = order(p[1]);
        if p[0] == "r" {
            received(e, le, hex(p[2]), out);
            continue;
        }
        assert_eq!(p[0], "p");
        let pid: u16 = p[2].parse().expect("id");
        let value = hex(p[3]);
        let tail = hex(p[4]);
        out.begin(&format!(
            "\"e\":\"param\",\"le\":{},\"id\":{},\"v\":{},\"tail\":{},",
            le,
            arr(pid.to_be_bytes()),
            arr(&value),
            arr(&tail)
        ));
        let parameter = Parameter::verif_new(id(pid), value);
        let text = guarded(|| match parameter.write_to_vec_with_ctx(e) {
            Err(_) => "\"r\":\"err\"".to_string(),
            Ok(b) => {
                let mut all = b.clone();
                all.extend_from_slice(&tail);
                let mut rest = &all[..];
                let read = Parameter::read_from_stream_unbuffered_with_ctx(e, &mut rest);
                let (d, rid, rv) = match read {
                    Err(_) => ("err", "[]".to_string(), "[]".to_string()),
                    Ok(q) => (
                        "ok",
                        arr((ints(q.verif_parameter_id())[0] as u16).to_be_bytes()),
                        arr(q.verif_value()),
                    ),
                };
                format!(
                    "\"r\":\"ok\",\"b\":{},\"d\":\"{}\",\"rid\":{},\"rv\":{},\"used\":{}",
                    arr(&b),
                    d,
                    rid,
                    rv,
                    all.len() - rest.len()
                )
            }
        });
        out.end(&text.unwrap_or_else(|| "\"r\":\"panic\"".to_string()));
    }
}
