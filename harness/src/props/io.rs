//! C17: readers and writers with faults.

use crate::core::*;
use crate::rng::Rng;
use crate::sval;
use crate::{gen, model};
use serde_json::{json, Value};
use std::io::{self, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROPS: &[Prop] = &[Prop {
    id: "C17",
    quick: 300_000,
    thorough: 6_000_000,
    rule: "values written to, and documents read from, streams that transfer 1 to n bytes at a time, interrupt, fail with one of 9 error kinds or stop accepting bytes after any number of bytes, or deliver invalid UTF-8 at any place; the three writing and the reading entry point. Non-trivial: a fault was delivered or at least two transfers happened; distinct by text and fault plan",
    run: c17,
}];

const KINDS: &[ErrorKind] = &[
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::StorageFull,
];

#[derive(Clone, Debug)]
enum Then {
    Nothing,
    Fail(ErrorKind),
    /// Ok(0) for writers, end of file for readers.
    Stop,
}

#[derive(Clone, Debug)]
struct Plan {
    /// Bytes per transfer, in turn; 0 stands for an interruption.
    chunks: Vec<usize>,
    /// After so many bytes
    at: usize,
    then: Then,
}

struct Sink {
    plan: Plan,
    got: Vec<u8>,
    turn: usize,
    calls: usize,
    failed: bool,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = self.plan.chunks[self.turn % self.plan.chunks.len()];
        self.turn += 1;
        if n == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        match self.plan.then {
            Then::Nothing => {}
            _ => {
                let room = self.plan.at.saturating_sub(self.got.len());
                if room == 0 {
                    self.failed = true;
                    return match self.plan.then {
                        Then::Fail(k) => Err(k.into()),
                        _ => Ok(0),
                    };
                }
                n = n.min(room);
            }
        }
        n = n.min(b.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Source<'a> {
    plan: Plan,
    data: &'a [u8],
    at: usize,
    turn: usize,
    calls: usize,
    failed: bool,
}

impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = self.plan.chunks[self.turn % self.plan.chunks.len()];
        self.turn += 1;
        if n == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        match self.plan.then {
            Then::Nothing => {}
            Then::Stop => n = n.min(self.plan.at.saturating_sub(self.at)),
            Then::Fail(k) => {
                let room = self.plan.at.saturating_sub(self.at);
                if room == 0 {
                    self.failed = true;
                    return Err(k.into());
                }
                n = n.min(room);
            }
        }
        n = n.min(b.len()).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn plan(r: &mut Rng, len: usize) -> Plan {
    let mut chunks: Vec<usize> = match r.below(5) {
        4 => (0..r.range(1, 3)).map(|_| gen::big_size(r, 1 << 20)).collect(),
        0 => vec![usize::MAX],
        1 => vec![1],
        _ => (0..r.range(1, 5)).map(|_| r.range(1, 40)).collect(),
    };
    if r.chance(1, 3) {
        let i = r.below(chunks.len() + 1);
        chunks.insert(i, 0);
    }
    if chunks.iter().all(|c| *c == 0) {
        chunks.push(3);
    }
    let then = match r.below(5) {
        0 | 1 => Then::Nothing,
        2 => Then::Stop,
        _ => Then::Fail(*r.pick(KINDS)),
    };
    Plan { chunks, at: r.below(len + 2), then }
}

fn call<T>(f: impl FnOnce() -> Result<T, toon_rs::Error>) -> Result<Result<T, toon_rs::Error>, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn c17(c: &mut Case) -> Verdict {
    if c.no % 2 == 0 {
        writing(c)
    } else {
        reading(c)
    }
}

fn writing(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let mut p = gen::profile(r);
    p.max_depth = 3;
    let mut o = plain_options(r);
    if r.chance(1, 4) {
        o.key_folding = KeyFolding::Safe;
    }
    if r.chance(1, 250) {
        let mut v = gen::document(r, &p);
        gen::enlarge(r, &mut v);
        c.obs.count("large documents");
        return writing_of(c, &v, &v, &o);
    }
    let s = sval::value(r, &p, 0);
    let Some(image) = s.image() else { return Ok(()) };
    writing_of(c, &s, &image, &o)
}

fn writing_of<T: serde::Serialize + std::fmt::Debug>(c: &mut Case, s: &T, image: &Value, o: &Options) -> Verdict {
    let r = &mut c.rng;
    let want = model::encode(image, o);
    let pl = plan(r, want.len());
    let input = json!({"value": format!("{s:?}"), "options": opts_json(o), "writer": format!("{pl:?}")});
    for name in ["encode_to_writer", "ser::to_writer", "ser::to_writer_streaming"] {
        let mut w = Sink { plan: pl.clone(), got: vec![], turn: 0, calls: 0, failed: false };
        let res = call(|| match name {
            "encode_to_writer" => toon_rs::encode_to_writer(&mut w, s, o),
            "ser::to_writer" => toon_rs::ser::to_writer(&mut w, s, o),
            _ => toon_rs::ser::to_writer_streaming(&mut w, s, o),
        });
        let res = match res {
            Ok(x) => x,
            Err(m) => return violation(format!("{name} panics: {m}"), input),
        };
        c.obs.add("transfers to writers", w.calls as u64);
        if w.failed || w.calls > 1 {
            c.obs.nontrivial(format!("{want}{pl:?}").as_bytes());
        }
        if !want.as_bytes().starts_with(&w.got) {
            return violation(format!("{name} wrote {:?}, which does not begin the text {want:?}", String::from_utf8_lossy(&w.got)), input);
        }
        if w.failed {
            c.obs.count("writer faults delivered");
            let kind = match pl.then {
                Then::Fail(k) => k,
                _ => ErrorKind::WriteZero,
            };
            match res {
                Ok(()) => return violation(format!("{name} reports success though the writer failed after {} of {} bytes", w.got.len(), want.len()), input),
                Err(toon_rs::Error::Io(e)) if e.kind() == kind => {}
                Err(e) => return violation(format!("{name} reports {e:?} for a writer failing with {kind:?}"), input),
            }
        } else {
            if let Err(e) = res {
                return violation(format!("{name} fails though the writer did not: {e}"), input);
            }
            if w.got != want.as_bytes() {
                return violation(format!("{name} wrote {:?} instead of {want:?}", String::from_utf8_lossy(&w.got)), input);
            }
        }
    }
    Ok(())
}

fn reading(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let p = gen::profile(r);
    let mut v = gen::document(r, &p);
    if r.chance(1, 250) {
        gen::enlarge(r, &mut v);
        c.obs.count("large documents");
    }
    let o = plain_options(r);
    let mut text = model::encode(&v, &o);
    if r.chance(1, 4) {
        text = gen::edit(r, &text);
    }
    if r.chance(1, 20) {
        gen::odd_ends(r, &mut text);
    }
    let mut data = text.clone().into_bytes();
    // Invalid UTF-8: a stray byte, or an encoding cut short
    if r.chance(1, 5) && !data.is_empty() {
        let i = r.below(data.len() + 1);
        match r.below(4) {
            0 => data.insert(i, *r.pick(&[0x80, 0xff, 0xc0, 0xfe, 0xf8])),
            1 => {
                let b: &[u8] = r.pick::<&[u8]>(&[&[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98]]);
                data.splice(i..i, b.iter().copied());
            }
            2 => data.truncate(i),
            _ => {
                data.truncate(i);
                data.extend_from_slice(&[0xe2, 0x82]);
            }
        }
    }
    let pl = plan(r, data.len());
    let all = data.clone();
    let shown = format!("{pl:?}");
    let input = || json!({"text": String::from_utf8_lossy(&all), "bytes": if all.len() < 5000 { &all[..] } else { &[] }, "options": opts_json(&o), "reader": shown});
    let mut src = Source { plan: pl.clone(), data: &data, at: 0, turn: 0, calls: 0, failed: false };
    let got: Result<Value, toon_rs::Error> = match call(|| toon_rs::decode_from_reader(&mut src, &o)) {
        Ok(g) => g,
        Err(m) => return violation(format!("decode_from_reader panics: {m}"), input()),
    };
    c.obs.add("transfers from readers", src.calls as u64);
    if src.failed || src.calls > 2 {
        c.obs.nontrivial(format!("{text}{pl:?}").as_bytes());
    }
    if src.failed {
        c.obs.count("reader faults delivered");
        if text.len() < 200 {
            c.obs.sample(|| input());
        }
        let Then::Fail(kind) = pl.then else { unreachable!() };
        return match got {
            Ok(v) => violation(format!("decode_from_reader gives {v} though the reader failed after {} of {} bytes", src.at, data.len()), input()),
            Err(toon_rs::Error::Io(e)) if e.kind() == kind => Ok(()),
            // What was read so far may already be wrong
            Err(_) if std::str::from_utf8(&data[..src.at]).is_err() => Ok(()),
            Err(e) => violation(format!("decode_from_reader reports {e:?} for a reader failing with {kind:?}"), input()),
        };
    }
    // Everything up to the end of the stream counts
    let end = match pl.then {
        Then::Stop => pl.at.min(data.len()),
        _ => data.len(),
    };
    match std::str::from_utf8(&data[..end]) {
        Err(_) => {
            c.obs.count("invalid UTF-8 delivered");
            match got {
                Ok(v) => violation(format!("decode_from_reader gives {v} for a stream that is not UTF-8"), input()),
                Err(_) => Ok(()),
            }
        }
        Ok(t) => {
            let want = decode_value(t, &o);
            match (got, want) {
                (Ok(a), Ok(b)) if a == b => {
                    c.obs.count("read like the string");
                    Ok(())
                }
                (Err(a), Err(Fail::Err { msg, .. })) if a.to_string() == msg => {
                    c.obs.count("refused like the string");
                    Ok(())
                }
                (a, b) => violation(format!("decode_from_reader gives {a:?}, decode_from_str gives {b:?}\n{t}"), input()),
            }
        }
    }
}
