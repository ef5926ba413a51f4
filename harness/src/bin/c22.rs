//! C22 faults while bytes are transferred are reported, and pieces make no difference.
use gsmon::prelude::*;
use ark_serialize::{Read, Write};
use ark_std::io::{self, Error, ErrorKind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    /// An error once the given number of bytes has passed.
    Err(ErrorKind),
    /// Nothing more is taken or given (a full disk, a closed pipe).
    End,
    /// One error, after which transfer works again.
    Once(ErrorKind),
}
const KINDS_OF: [ErrorKind; 17] = {
    use ErrorKind::*;
    [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Other, UnexpectedEof]
};
/// A device that passes pieces of changing length, is interrupted from time to time, and fails at a given point.
struct Dev<'a> {
    src: &'a [u8],
    done: usize,
    got: Vec<u8>,
    steps: &'a [usize],
    tick: usize,
    interrupts: bool,
    fault: Option<(usize, Fault)>,
    after: usize,
    calls: u64,
}
impl<'a> Dev<'a> {
    fn new(src: &'a [u8], steps: &'a [usize], interrupts: bool, fault: Option<(usize, Fault)>) -> Self {
        Dev { src, done: 0, got: vec![], steps, tick: 0, interrupts, fault, after: 0, calls: 0 }
    }
    fn turn(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if want == 0 {
            return Ok(0);
        }
        self.tick += 1;
        if self.interrupts && self.tick % 3 == 1 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = want.min(self.steps[self.tick % self.steps.len()].max(1));
        if let Some((at, f)) = self.fault {
            n = n.min(at - self.done.min(at));
            if n == 0 {
                self.after += 1;
                match f {
                    Fault::Err(k) => return Err(Error::from(k)),
                    Fault::End => return Ok(0),
                    Fault::Once(k) => {
                        self.fault = None;
                        return Err(Error::from(k));
                    }
                }
            }
        }
        self.done += n;
        Ok(n)
    }
}
impl Write for Dev<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.turn(b.len())?;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Dev<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let at = self.done;
        let n = self.turn(b.len().min(self.src.len() - at))?;
        b[..n].copy_from_slice(&self.src[at..at + n]);
        Ok(n)
    }
}
fn steps(r: &mut StdRng) -> Vec<usize> {
    match pick(r, 4) {
        0 => vec![1],
        1 => vec![usize::MAX],
        2 => vec![[2, 3, 7, 8, 9, 31, 32, 33, 47, 48, 49, 95, 96, 97][pick(r, 14)]],
        _ => (0..1 + pick(r, 7)).map(|_| 1 + pick(r, 50)).collect(),
    }
}
fn fault(r: &mut StdRng) -> Fault {
    let k = KINDS_OF[pick(r, 17)];
    [Fault::Err(k), Fault::End, Fault::Once(k)][pick(r, 3)]
}
/// One object, every point of its encoding (or as many as `points`).
fn every_point<E: Eng>(mon: &Mon, q: u64, t: u64, size: usize, points: usize) {
    mon.stage(&format!("a fault at every byte/{}", E::name()), q, t, |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let o = build::<E>(&mut c.rng, k, size);
        let m = MODES[pick(&mut c.rng, 2)];
        let bytes = o.enc(m);
        let ctx = |f: &dyn std::fmt::Debug| format!("{k:?} on {}, compressed: {}, {f:?}, {} bytes", E::name(), m == Compress::Yes, bytes.len());
        let all = bytes.len() <= points;
        c.count(if all { "objects with a fault at every byte" } else { "objects with a fault at some bytes" });
        for j in 0..bytes.len().min(points) {
            let at = if all { j } else { pick(&mut c.rng, bytes.len()) };
            let (st, f, intr) = (steps(&mut c.rng), fault(&mut c.rng), coin(&mut c.rng, 1, 4));
            let mut w = Dev::new(&[], &st, intr, Some((at, f)));
            let r = c.must("serialize", || o.write(&mut w, m));
            c.seen(&(&bytes, at, f, m == Compress::Yes, 0));
            c.count(&format!("writer {}", match f {
                Fault::Err(k) => format!("{k:?}"),
                Fault::End => "full".into(),
                Fault::Once(k) => format!("{k:?} once"),
            }));
            c.check(w.after > 0, || format!("the writer was never asked to take byte {at}; {}", ctx(&f)));
            c.check(r.is_err(), || format!("success reported although the writer failed at byte {at}; {}", ctx(&f)));
            c.check(w.got.len() >= at && w.got[..at] == bytes[..at], || format!("the writer got {:?} before it failed at byte {at}, expected {:?}; {}", w.got, &bytes[..at], ctx(&f)));
            let v = [Validate::Yes, Validate::No][pick(&mut c.rng, 2)];
            let mut rd = Dev::new(&bytes, &st, intr, Some((at, f)));
            let r = c.must("deserialize", || Obj::<E>::read(k, &mut rd, m, v));
            c.seen(&(&bytes, at, f, m == Compress::Yes, 1));
            c.count("reader");
            c.check(r.is_err(), || format!("an object although the reader failed at byte {at}: {}; {}", r.as_ref().map(|d| d.inner_debug()).unwrap_or_default(), ctx(&f)));
            c.check(rd.after > 0, || format!("the reader was never asked for byte {at}; {}", ctx(&f)));
        }
        // Room for all but the last byte, and for all.
        if !bytes.is_empty() {
            let mut buf = vec![0u8; bytes.len()];
            let r = c.must("serialize", || {
                let mut w = &mut buf[..];
                let r = o.write(&mut w, m);
                (r.is_ok(), w.len())
            });
            c.check(r == (true, 0) && buf == bytes, || format!("a buffer of the announced size gives {r:?}; {}", ctx(&"exact buffer")));
            let r = c.must("serialize", || o.write(&mut &mut buf[..bytes.len() - 1], m));
            c.check(r.is_err(), || format!("success reported for a buffer that is too short by one; {}", ctx(&"short buffer")));
        }
        c.check(o.enc(m) == bytes, || format!("the object has another encoding after the faults; {}", ctx(&"")));
        c.sample(|| ctx(&"faults at all positions"));
    });
}
/// Pieces and interruptions without a fault.
fn pieces<E: Eng>(mon: &Mon, q: u64, t: u64, size: usize) {
    mon.stage(&format!("pieces and interruptions/{}", E::name()), q, t, |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let size = if size > 2 && coin(&mut c.rng, 1, 60) { 40 } else { size };
        let o = build::<E>(&mut c.rng, k, size);
        for m in MODES {
            let bytes = o.enc(m);
            let (st, intr) = (steps(&mut c.rng), coin(&mut c.rng, 1, 2));
            let mut w = Dev::new(&[], &st, intr, None);
            let r = c.must("serialize", || o.write(&mut w, m));
            c.seen(&(&bytes, &st, intr));
            c.check(r.is_ok() && w.got == bytes, || format!("{k:?} on {}: written in pieces of {st:?} (interruptions: {intr}) {r:?}, {:?} instead of {bytes:?}", E::name(), w.got));
            let mut tail = bytes.clone();
            tail.extend([7; 9]);
            let mut rd = Dev::new(&tail, &st, intr, None);
            let v = [Validate::Yes, Validate::No][pick(&mut c.rng, 2)];
            match c.must("deserialize", || Obj::<E>::read(k, &mut rd, m, v)) {
                Ok(d) => {
                    c.check(o.same(&d), || format!("{k:?} on {}: read in pieces of {st:?} (interruptions: {intr}): {} instead of {}", E::name(), d.inner_debug(), o.inner_debug()));
                    c.check(rd.done == bytes.len(), || format!("{k:?} on {}: {} bytes taken instead of {}", E::name(), rd.done, bytes.len()));
                }
                Err(e) => c.fail(format!("{k:?} on {}: read in pieces of {st:?} (interruptions: {intr}): {e}", E::name())),
            }
            c.count("calls of writers and readers in pieces");
        }
    });
}
/// Several objects one after another in one stream that fails somewhere; what came before the fault is there.
fn logs<E: Eng>(mon: &Mon, q: u64, t: u64, size: usize) {
    mon.stage(&format!("streams of objects/{}", E::name()), q, t, |c| {
        let n = 2 + pick(&mut c.rng, 5);
        let list: Vec<_> = (0..n)
            .map(|_| {
                let k = KINDS[pick(&mut c.rng, KINDS.len())];
                let size = if size > 2 && coin(&mut c.rng, 1, 100) { 40 } else { size };
                (build::<E>(&mut c.rng, k, size), MODES[pick(&mut c.rng, 2)])
            })
            .collect();
        let ends: Vec<usize> = list
            .iter()
            .scan(0, |a, (o, m)| {
                *a += o.enc(*m).len();
                Some(*a)
            })
            .collect();
        let total = ends[n - 1];
        let full: Vec<u8> = list.iter().flat_map(|(o, m)| o.enc(*m)).collect();
        let at = match pick(&mut c.rng, 4) {
            0 => ends[pick(&mut c.rng, n)],
            1 => ends[pick(&mut c.rng, n)].saturating_sub(1),
            _ => pick(&mut c.rng, total + 1),
        };
        let st = steps(&mut c.rng);
        let intr = coin(&mut c.rng, 1, 4);
        let f = [Fault::End, Fault::Err(ErrorKind::Other)][pick(&mut c.rng, 2)];
        let mut w = Dev::new(&[], &st, intr, Some((at, f)));
        for (j, (o, m)) in list.iter().enumerate() {
            let r = c.must("serialize", || o.write(&mut w, *m));
            c.check(r.is_ok() == (ends[j] <= at), || format!("object {j} of {n} ({:?}, ends at byte {}) in a stream that fails at byte {at}: {r:?}", o.kind(), ends[j]));
        }
        let got = w.got;
        c.check(got[..] == full[..at.min(total)], || format!("{} bytes arrived of a stream that fails at byte {at}, other than what was written", got.len()));
        c.seen(&(&full, at, f));
        let mut rd = Dev::new(&got, &st, intr, None);
        for (j, (o, m)) in list.iter().enumerate() {
            let r = c.must("deserialize", || Obj::<E>::read(o.kind(), &mut rd, *m, Validate::Yes));
            match r {
                Ok(d) => {
                    c.check(ends[j] <= at && o.same(&d), || format!("object {j} of {n} ({:?}) read back as {} from a stream that was cut at byte {at}", o.kind(), d.inner_debug()));
                }
                Err(e) => {
                    c.check(ends[j] > at, || format!("object {j} of {n} ({:?}, complete) read back: {e}", o.kind()));
                    break;
                }
            }
        }
        // Continued where it stopped by writing the incomplete ones again.
        let from = ends.iter().filter(|e| **e <= at).count();
        let mut rest = vec![];
        for (o, m) in &list[from..] {
            c.check(c.must("serialize", || o.write(&mut rest, *m)).is_ok(), || "an object cannot be written after a fault".into());
        }
        let start = if from == 0 { 0 } else { ends[from - 1] };
        c.check(rest[..] == full[start..], || "objects have other encodings after a fault".into());
        c.count("streams cut");
        c.sample(|| format!("{n} objects ending at {ends:?}, fault {f:?} at {at}"));
    });
}

const RULE: &str = "Each case writes and reads an object through a device that transfers pieces of changing length, is interrupted, and fails with an error or an end at a chosen byte (for objects up to the size limit, at every byte): success in spite of a fault, other bytes than without it, or a changed object is a violation. Streams of several objects are cut and read back. Distinct = distinct (encoding, fault position and kind, direction).";
fn check(mon: &Mon) {
    every_point::<E59>(mon, 12_000, 400_000, 3, 400);
    every_point::<E3>(mon, 3_000, 100_000, 2, 400);
    every_point::<EW>(mon, 1_500, 50_000, 2, 600);
    every_point::<Bls>(mon, 192, 6_000, 2, 40);
    pieces::<E59>(mon, 60_000, 2_000_000, 5);
    pieces::<Bls>(mon, 600, 20_000, 2);
    logs::<E59>(mon, 30_000, 1_000_000, 4);
    logs::<Bls>(mon, 200, 8_000, 2);
}
fn main() {
    gsmon::run("C22", RULE, check)
}
