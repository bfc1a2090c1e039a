//! Every value of two bytes at once: the texts of 65536 events are recorded as
//! runs.  Within a run all texts are the same but for some numbers, each of
//! which is the high byte of x in all of them, or the low byte in all of them.
//! From a run, the text of each event in it can be told exactly.

/// Numbers that stand for the bytes of x
const HIGH: i64 = -1001;
const LOW: i64 = -1002;

/// More runs than this are not recorded
const MOST: usize = 600;

struct Text {
    /// The text with a mark for each number
    around: String,
    numbers: Vec<i64>,
}

const MARK: char = '\u{1}';

fn split(text: &str) -> Text {
    let (mut around, mut numbers) = (String::with_capacity(text.len()), vec![]);
    let (mut quoted, mut from) = (false, None);
    for (i, c) in text.bytes().chain(Some(b' ')).enumerate() {
        quoted ^= c == b'"';
        if !quoted && (c.is_ascii_digit() || c == b'-') {
            from = from.or(Some(i));
        } else {
            if let Some(from) = from.take() {
                numbers.push(text[from..i].parse().expect("a number"));
                around.push(MARK);
            }
            around.push(c as char);
        }
    }
    Text { around, numbers }
}

#[derive(Clone, Copy)]
struct May {
    fixed: bool,
    high: bool,
    low: bool,
}

struct Run {
    first: u32,
    text: Text,
    may: Vec<May>,
}

impl Run {
    fn new(x: u32, text: Text) -> Run {
        let may = vec![May { fixed: true, high: true, low: true }; text.numbers.len()];
        let mut run = Run { first: x, text, may };
        let numbers = run.text.numbers.clone();
        assert!(run.narrow(x, &numbers), "a run of one");
        run
    }

    fn narrow(&mut self, x: u32, numbers: &[i64]) -> bool {
        let (high, low) = (i64::from(x >> 8), i64::from(x & 255));
        let may = |i: usize, m: &May| May {
            fixed: m.fixed && numbers[i] == self.text.numbers[i],
            high: m.high && numbers[i] == high,
            low: m.low && numbers[i] == low,
        };
        let next: Vec<May> = self.may.iter().enumerate().map(|(i, m)| may(i, m)).collect();
        let fits = next.iter().all(|m| m.fixed || m.high || m.low);
        if fits {
            self.may = next;
        }
        fits
    }

    fn takes(&mut self, x: u32, text: &Text) -> bool {
        text.around == self.text.around && self.narrow(x, &text.numbers)
    }

    fn shown(&self, last: u32) -> String {
        let mut text = String::new();
        let mut i = 0;
        for c in self.text.around.chars() {
            if c == MARK {
                let number = match self.may[i] {
                    May { fixed: true, .. } => self.text.numbers[i],
                    May { low: true, .. } => LOW,
                    _ => HIGH,
                };
                text.push_str(&number.to_string());
                i += 1;
            } else {
                text.push(c);
            }
        }
        format!("{{\"lo\":{},\"hi\":{},\"t\":{{{}}}}}", self.first, last, text)
    }
}

pub fn runs(event: impl Fn(u32) -> String) -> String {
    let mut shown: Vec<String> = vec![];
    let mut run: Option<Run> = None;
    for x in 0..65536 {
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let text = split(&event(x));
        let goes_on = run.as_mut().map_or(false, |run| run.takes(x, &text));
        if !goes_on {
            if let Some(run) = run.take() {
                shown.push(run.shown(x - 1));
            }
            if shown.len() == MOST {
                return shown.join(",");
            }
            run = Some(Run::new(x, text));
        }
    }
    shown.extend(run.map(|run| run.shown(65535)));
    shown.join(",")
}
