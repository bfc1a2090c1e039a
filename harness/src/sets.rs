//! Family N: a number set. `N <sn|fn> <canonical base> <command>...`
//!   i<hex>     insert a number
//!   m          iterate
//!   w<0|1>     write in big (0) or little endian (1) and read back
//!   r<0|1><hex>  read from these bytes; the set read replaces the present one
//! The code consumes a set when it is iterated, so each iteration works on a set
//! made anew by the same operations.
use crate::{arr, guarded, hex, ints, Out};
use num_traits::{CheckedAdd, CheckedSub, FromPrimitive, ToPrimitive};
use rtps_rs::verif::common::ranged_bit_set::RangedBitSet;
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use speedy::{Endianness, Readable, Writable};

trait Number:
    CheckedAdd + CheckedSub + ToPrimitive + FromPrimitive + std::fmt::Debug + Copy
{
    fn from_canonical(b: &[u8]) -> Self;
    fn canonical(self) -> String;
    fn canonical_int(x: i128) -> String;
}

impl Number for SequenceNumber_t {
    fn from_canonical(b: &[u8]) -> Self {
        let mut a = [0; 8];
        a.copy_from_slice(b);
        SequenceNumber_t::from(i64::from_be_bytes(a))
    }
    fn canonical(self) -> String {
        arr(i64::from(self).to_be_bytes())
    }
    fn canonical_int(x: i128) -> String {
        arr((x as i64).to_be_bytes())
    }
}

impl Number for FragmentNumber_t {
    fn from_canonical(b: &[u8]) -> Self {
        let mut a = [0; 4];
        a.copy_from_slice(b);
        FragmentNumber_t::from(u32::from_be_bytes(a))
    }
    fn canonical(self) -> String {
        arr(u32::from(self).to_be_bytes())
    }
    fn canonical_int(x: i128) -> String {
        arr((x as u32).to_be_bytes())
    }
}

enum Op<B> {
    Insert(B),
    Wire(Endianness),
    Read(Endianness, Vec<u8>),
}

type Set<B> = RangedBitSet<B>;

pub fn order(word: &str) -> (Endianness, bool) {
    match word {
        "1" => (Endianness::LittleEndian, true),
        "0" => (Endianness::BigEndian, false),
        _ => panic!("byte order"),
    }
}

fn rebuild<B: Number>(base: B, ops: &[Op<B>]) -> Set<B>
where
    Set<B>: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let mut set = Set::new(base);
    for op in ops {
        match op {
            Op::Insert(v) => {
                set.insert(*v);
            }
            Op::Wire(e) => {
                let b = set.write_to_vec_with_ctx(*e).expect("written before");
                set = Set::read_from_buffer_with_ctx(*e, &b).expect("read before");
            }
            Op::Read(e, b) => {
                set = Set::read_from_buffer_with_ctx(*e, b).expect("read before");
            }
        }
    }
    set
}

fn session<B: Number>(words: &[&str], out: &mut Out)
where
    Set<B>: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let base_bytes = hex(words[1]);
    let base = B::from_canonical(&base_bytes);
    out.start(&format!("\"ty\":\"{}\",\"base\":{},", words[0], arr(&base_bytes)));
    let mut set = Set::new(base);
    let mut ops: Vec<Op<B>> = vec![];
    for word in &words[2..] {
        let (command, argument) = word.split_at(1);
        match command {
            "i" => {
                let b = hex(argument);
                out.begin(&format!("\"e\":\"ins\",\"v\":{},", arr(&b)));
                let v = B::from_canonical(&b);
                match guarded(|| set.insert(v)) {
                    None => {
                        out.end("\"r\":\"panic\"");
                        return;
                    }
                    Some(accepted) => {
                        out.end(&format!("\"r\":\"ok\",\"acc\":{}", accepted));
                        ops.push(Op::Insert(v));
                    }
                }
            }
            "m" => {
                out.begin("\"e\":\"iter\",");
                let shown = B::canonical_int(ints(&set)[0]);
                match guarded(|| arr(rebuild(base, &ops).into_iter().map(B::canonical))) {
                    None => {
                        out.end("\"r\":\"panic\"");
                        return;
                    }
                    Some(members) => {
                        out.end(&format!("\"r\":\"ok\",\"base\":{},\"ms\":{}", shown, members))
                    }
                }
            }
            "w" => {
                let (e, le) = order(argument);
                out.begin(&format!("\"e\":\"wire\",\"le\":{},", le));
                let result = guarded(|| {
                    let b = set.write_to_vec_with_ctx(e).map_err(|_| ())?;
                    let read = Set::<B>::read_from_buffer_with_ctx(e, &b).map_err(|_| ())?;
                    Ok::<_, ()>((b, read))
                });
                match result {
                    None => {
                        out.end("\"r\":\"panic\"");
                        return;
                    }
                    Some(Err(())) => {
                        out.end("\"r\":\"err\"");
                        return;
                    }
                    Some(Ok((b, read))) => {
                        set = read;
                        ops.push(Op::Wire(e));
                        out.end(&format!("\"r\":\"ok\",\"b\":{}", arr(b)));
                    }
                }
            }
            "r" => {
                let (e, le) = order(&argument[..1]);
                let b = hex(&argument[1..]);
                out.begin(&format!("\"e\":\"read\",\"le\":{},\"b\":{},", le, arr(&b)));
                match guarded(|| Set::<B>::read_from_buffer_with_ctx(e, &b)) {
                    None => {
                        out.end("\"r\":\"panic\"");
                        return;
                    }
                    Some(Err(_)) => out.end("\"r\":\"err\""),
                    Some(Ok(read)) => {
                        set = read;
                        ops.push(Op::Read(e, b));
                        out.end("\"r\":\"ok\"");
                    }
                }
            }
            _ => panic!("unknown command {}", word),
        }
    }
}

pub fn run(words: &[&str], out: &mut Out) {
    match words[0] {
        "sn" => session::<SequenceNumber_t>(words, out),
        "fn" => session::<FragmentNumber_t>(words, out),
        _ => panic!("number type"),
    }
}
