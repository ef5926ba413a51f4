//! C13 serialization is lossless, canonical and sized as announced.
use gsmon::prelude::*;
use ark_std::io::{self, Error, ErrorKind, Read, Write};

/// Hands out a few bytes at a time, with interruptions, as sockets and pipes do.
struct Drip<'a> {
    left: &'a [u8],
    step: usize,
    tick: usize,
}
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.tick % 5 == 3 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = b.len().min(self.step).min(self.left.len());
        b[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}
/// Accepts a few bytes at a time; fails for good once `room` is used up.
struct Trickle {
    got: Vec<u8>,
    step: usize,
    room: usize,
    tick: usize,
}
impl Write for Trickle {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.tick % 7 == 2 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = b.len().min(self.step).min(self.room - self.got.len());
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const VALIDATES: [Validate; 2] = [Validate::Yes, Validate::No];

fn judge<E: Eng>(c: &Case, o: &Obj<E>) -> bool {
    let k = o.kind();
    let mut both = vec![];
    for m in MODES {
        let ctx = || format!("{k:?} on {}, compressed: {}, value {}", E::name(), m == Compress::Yes, o.inner_debug());
        let Ok(bytes) = c.must("serialize", || {
            let mut b = vec![];
            o.write(&mut b, m).map(|_| b)
        }) else {
            c.fail(format!("serialization into a vector fails; {}", ctx()));
            return false;
        };
        let size = c.must("serialized_size", || o.size(m));
        c.check(size == bytes.len(), || format!("announced {size} bytes, wrote {}; {}", bytes.len(), ctx()));
        // All parts are there, each with its own encoding: the size is the sum of the parts' sizes.
        let parts: usize = o.atoms().iter().map(|a| a.bytes(m).len()).sum();
        c.check(parts == bytes.len(), || format!("the parts have {parts} bytes, the object {}; {}", bytes.len(), ctx()));
        c.check(o.clone().enc(m) == bytes, || format!("a clone has another encoding; {}", ctx()));
        let mut tail = bytes.clone();
        tail.extend([0xa5, 0, 1, 0xff, 0, 0, 0, 0, 0, 0, 0, 7]);
        for v in VALIDATES {
            let mut rd = &tail[..];
            let d = match c.must("deserialize", || Obj::<E>::read(k, &mut rd, m, v)) {
                Ok(d) => d,
                Err(e) => {
                    c.fail(format!("an encoding written by the library is refused ({e}); {}", ctx()));
                    return false;
                }
            };
            c.check(rd.len() == 12, || format!("{} bytes left of the 12 that follow; {}", rd.len(), ctx()));
            if !c.check(o.same(&d), || format!("changed by serialization: {} became {}; {}", o.inner_debug(), d.inner_debug(), ctx())) {
                return false;
            }
            for m2 in MODES {
                c.check(d.enc(m2) == o.enc(m2), || format!("the decoded object has another encoding (compressed: {}); {}", m2 == Compress::Yes, ctx()));
            }
        }
        both.push(bytes);
    }
    c.seen(&both[1]);
    true
}
fn streams<E: Eng>(c: &mut Case, o: &Obj<E>) {
    let k = o.kind();
    for m in MODES {
        let bytes = o.enc(m);
        let step = [1, 2, 3, 7, 47, 48, 49][pick(&mut c.rng, 7)];
        let mut w = Trickle { got: vec![], step, room: usize::MAX / 2, tick: 0 };
        let ok = c.must("serialize", || o.write(&mut w, m)).is_ok();
        c.check(ok && w.got == bytes, || format!("{k:?}: a writer that takes {step} bytes at a time gets other bytes than a vector"));
        let mut r = Drip { left: &bytes, step, tick: 0 };
        match c.must("deserialize", || Obj::<E>::read(k, &mut r, m, Validate::Yes)) {
            Ok(d) => {
                c.check(r.left.is_empty() && o.same(&d), || format!("{k:?}: a reader that gives {step} bytes at a time leads to another object"));
            }
            Err(e) => c.fail(format!("{k:?}: a reader that gives {step} bytes at a time leads to an error: {e}")),
        }
        if !bytes.is_empty() {
            let room = pick(&mut c.rng, bytes.len());
            let mut w = Trickle { got: vec![], step: 50, room, tick: 0 };
            let r = c.must("serialize", || o.write(&mut w, m));
            c.check(r.is_err(), || format!("{k:?}: success reported although only {room} of {} bytes were accepted by the writer", bytes.len()));
            c.check(w.got[..] == bytes[..w.got.len()], || format!("{k:?}: other bytes written than without the fault"));
        }
    }
}
fn objects<E: Eng>(mon: &Mon, q: u64, t: u64, size: usize) {
    mon.stage(&format!("objects/{}", E::name()), q, t, |c| {
        let k = KINDS[(c.idx as usize) % KINDS.len()];
        let size = if coin(&mut c.rng, 1, 12) { size * 4 } else { size };
        let o = build::<E>(&mut c.rng, k, size);
        c.count(&format!("{} {k:?}", E::name()));
        c.sample(|| format!("{k:?}: {} bytes compressed, {} uncompressed", o.size(Compress::Yes), o.size(Compress::No)));
        if judge(c, &o) && coin(&mut c.rng, 1, 4) {
            streams(c, &o);
        }
    });
}
fn lengths<E: Eng>(mon: &Mon, list: &[usize]) {
    mon.stage(&format!("listed lengths/{}", E::name()), list.len() as u64 * 8, list.len() as u64 * 64, |c| {
        let n = list[c.idx as usize / 8 % list.len()];
        let r = &mut c.rng;
        let mut p = Pool::<Fr<E>>::new(r, &[]);
        let c1: Vec<_> = (0..n).map(|_| l1::<E>(&(p.next(r), p.next(r)))).collect();
        let c2: Vec<_> = (0..n).map(|_| l2::<E>(&(p.next(r), p.next(r)))).collect();
        let w = pick(r, 3);
        let rand: Matrix<_> = (0..n).map(|_| p.vec(r, w)).collect();
        let o = match c.idx % 8 {
            0 => Obj::K1(com1_with(c1, &rand)),
            1 => Obj::K2(com2_with(c2, &rand)),
            2 => Obj::VC1(c1),
            3 => Obj::VC2(c2),
            k => {
                let n2 = [0, 1, n.min(40)][pick(r, 3)];
                let (m, n) = if coin(r, 1, 2) { (n, n2) } else { (n2, n) };
                let q = REq { ty: TYPES[k as usize - 4], a: p.vec(r, n), b: p.vec(r, m), gamma: (0..m).map(|_| p.vec(r, n)).collect(), t: p.next(r) };
                match LEq::<E>::lift(&q) {
                    LEq::P(x) => Obj::P(x),
                    LEq::M1(x) => Obj::M1(x),
                    LEq::M2(x) => Obj::M2(x),
                    LEq::Q(x) => Obj::Q(x),
                }
            }
        };
        judge(c, &o);
    });
}
fn through<T: CanonicalSerialize + CanonicalDeserialize>(c: &mut Case, t: &T) -> T {
    let m = MODES[pick(&mut c.rng, 2)];
    let v = VALIDATES[pick(&mut c.rng, 2)];
    let mut b = vec![];
    let r = c.must("serialize", || t.serialize_with_mode(&mut b, m));
    let mut rd = &b[..];
    match (r, c.must("deserialize", || T::deserialize_with_mode(&mut rd, m, v))) {
        (Ok(()), Ok(x)) => {
            c.check(rd.is_empty(), || "bytes left over".into());
            x
        }
        (a, b) => {
            c.fail(format!("round trip of {} failed: {:?} {:?}", std::any::type_name::<T>(), a.err(), b.err()));
            c.abort()
        }
    }
}
fn through_eq<E: Eng>(c: &mut Case, q: &LEq<E>) -> LEq<E> {
    match q {
        LEq::P(x) => LEq::P(through(c, x)),
        LEq::M1(x) => LEq::M1(through(c, x)),
        LEq::M2(x) => LEq::M2(through(c, x)),
        LEq::Q(x) => LEq::Q(through(c, x)),
    }
}
fn through_proof<E: Eng>(c: &mut Case, p: &CProof<E>) -> CProof<E> {
    CProof { xcoms: through(c, &p.xcoms), ycoms: through(c, &p.ycoms), equ_proofs: through(c, &p.equ_proofs) }
}
/// The same history with and without a round trip of every object at every step.
fn behaves<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("history with round trips/{}", E::name()), q, t, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
        let rc = gen::crs::<Fr<E>>(&mut c.rng, kind);
        let (m, n) = gen::dims(&mut c.rng, max);
        let (mut re, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let good = !coin(&mut c.rng, 1, 5);
        if !good {
            re.t += gen::delta::<Fr<E>>(&mut c.rng);
        }
        let (key, eq) = (lift_crs::<E>(&rc), LEq::<E>::lift(&re));
        let (vx, vy) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let s = c.sub(1);
        c.seen(&(ty, m, n, &re, &rc));
        c.count(&format!("{} history {}", E::name(), ty.name()));
        // Plain.
        let mut rng = LogRng::new(s);
        let (xc, yc) = c.must("commit", || (batch_x(ty, &vx, &key, &mut rng), batch_y(ty, &vy, &key, &mut rng)));
        let pf = c.must("prove", || eq.prove(&vx, &vy, &xc, &yc, &key, &mut rng));
        let plain = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] };
        // With round trips.
        let key2 = through(c, &key);
        let eq2 = through_eq(c, &eq);
        let mut rng = LogRng::new(s);
        let (xc, yc) = c.must("commit", || (batch_x(ty, &vx, &key2, &mut rng), batch_y(ty, &vy, &key2, &mut rng)));
        let (xc, yc) = (through(c, &xc), through(c, &yc));
        let pf = c.must("prove", || eq2.prove(&vx, &vy, &xc, &yc, &key2, &mut rng));
        let pf = through(c, &pf);
        let tripped = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] };
        c.check(cproof_bytes(&plain) == cproof_bytes(&tripped) && plain == tripped, || {
            format!("commitments and proof differ after round trips of the CRS, the equation and the commitments ({}, {m}x{n}, {})", ty.name(), E::name())
        });
        let again = through_proof(c, &tripped);
        let v0 = eq.verify(&plain, &key);
        for (q, p, k, what) in [(&eq, &again, &key, "proof"), (&eq2, &plain, &key, "equation"), (&eq, &plain, &key2, "CRS"), (&eq2, &again, &key2, "everything")] {
            let v = q.verify(p, k);
            c.check(v == v0, || format!("verdict {v0:?} becomes {v:?} after a round trip of {what} ({}, {m}x{n}, {})", ty.name(), E::name()));
        }
        if good {
            c.check(v0 == Verdict::Accept, || format!("an honest proof is not accepted: {v0:?} ({}, {m}x{n})", ty.name()));
        }
        // Parts of a decoded list can be appended and proved about.
        if m >= 2 {
            let cut = 1 + pick(&mut c.rng, m - 1);
            let part = |r: std::ops::Range<usize>| Vars::<E> { s: vx.s[r.clone()].to_vec(), g1: if ty.xg() { vx.g1[r].to_vec() } else { vec![] }, g2: vec![] };
            let mut rng = LogRng::new(s);
            let (a, b) = (part(0..cut), part(cut..m));
            let a = c.must("commit", || batch_x(ty, &a, &key, &mut rng));
            let b = c.must("commit", || batch_x(ty, &b, &key, &mut rng));
            let (mut a, mut b) = (through(c, &a), through(c, &b));
            c.must("append", || a.append(&mut b));
            let a = through(c, &a);
            let yc = c.must("commit", || batch_y(ty, &vy, &key, &mut rng));
            let pf = c.must("prove", || eq.prove(&vx, &vy, &a, &yc, &key, &mut rng));
            let p = CProof { xcoms: a, ycoms: yc, equ_proofs: vec![pf] };
            let v = eq.verify(&p, &key);
            c.check(v == v0 || !rc.binding(), || format!("decoded and appended commitments cannot be proved about: {v:?} instead of {v0:?} ({}, {m}x{n}, {})", ty.name(), E::name()));
        }
    });
}
/// Equal values that were computed in different ways.
fn canonical<E: Eng>(mon: &Mon, q: u64, t: u64) {
    mon.stage(&format!("equal values/{}", E::name()), q, t, |c| {
        let f = |r: &mut StdRng| gen::elem::<Fr<E>>(r);
        let (a, b, d, e) = (f(&mut c.rng), f(&mut c.rng), f(&mut c.rng), f(&mut c.rng));
        let direct = l1::<E>(&(a, b));
        let z = l1::<E>(&(d, e));
        let detour = c.must("arithmetic", || ((direct + z) - z) + Com1::zero());
        let direct2 = l2::<E>(&(a, b));
        let z2 = l2::<E>(&(d, e));
        let detour2 = c.must("arithmetic", || ((direct2 + z2) - z2) + Com2::zero());
        let none = c.must("arithmetic", || direct - direct);
        let none2 = c.must("arithmetic", || -(direct2 - direct2));
        for m in MODES {
            c.check(Obj::<E>::C1(direct).enc(m) == Obj::<E>::C1(detour).enc(m), || format!("equal elements {direct:?} have different encodings"));
            c.check(Obj::<E>::C2(direct2).enc(m) == Obj::<E>::C2(detour2).enc(m), || format!("equal elements {direct2:?} have different encodings"));
            c.check(Obj::<E>::C1(none).enc(m) == Obj::<E>::C1(Com1::zero()).enc(m), || "two encodings of zero".into());
            c.check(Obj::<E>::C2(none2).enc(m) == Obj::<E>::C2(Com2::zero()).enc(m), || "two encodings of zero".into());
        }
        judge::<E>(c, &Obj::C1(none));
        judge::<E>(c, &Obj::C2(none2));
        c.seen(&(a, b, d, e));
    });
}
fn exhaustive<E: Eng>(mon: &Mon, r: u64) {
    let f = Fr::<E>::from;
    mon.stage_all(&format!("all small objects/{}", E::name()), r.pow(4) * 4, |c| {
        let mut k = c.idx;
        let mut d = |n: u64| {
            let v = k % n;
            k /= n;
            v
        };
        let ty = TYPES[d(4) as usize];
        let (a, b, x, y) = (f(d(r)), f(d(r)), f(d(r)), f(d(r)));
        judge::<E>(c, &Obj::Tag(ty.equ()));
        judge::<E>(c, &Obj::C1(l1::<E>(&(a, b))));
        judge::<E>(c, &Obj::C2(l2::<E>(&(x, y))));
        for rand in [vec![], vec![vec![]], vec![vec![x]], vec![vec![x, y]], vec![vec![x], vec![y]]] {
            judge::<E>(c, &Obj::K1(com1_with(vec![l1::<E>(&(a, b))], &rand)));
            judge::<E>(c, &Obj::K2(com2_with(vec![l2::<E>(&(a, b))], &rand)));
            judge::<E>(c, &Obj::Pf(equ_with(vec![l2::<E>(&(a, b))], vec![l1::<E>(&(x, y)); 2], ty.equ(), &rand)));
            judge::<E>(c, &Obj::Pf(equ_with(vec![], vec![l1::<E>(&(x, y))], ty.equ(), &rand)));
        }
        for (m, n) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
            let q = REq { ty, a: vec![a; n], b: vec![b; m], gamma: vec![vec![x; n]; m], t: y };
            judge::<E>(
                c,
                &match LEq::<E>::lift(&q) {
                    LEq::P(x) => Obj::P(x),
                    LEq::M1(x) => Obj::M1(x),
                    LEq::M2(x) => Obj::M2(x),
                    LEq::Q(x) => Obj::Q(x),
                },
            );
        }
        let k = CRS::<E> { u: vec![l1::<E>(&(a, b))], v: vec![], g1_gen: E::g1(&x), g2_gen: E::g2(&y), gt_gen: E::gt(&a) };
        judge::<E>(c, &Obj::Crs(k));
    });
}

const RULE: &str = "Each case writes an object of one of the library's types (or a whole history of them) in both forms, compares the bytes with the announced size, reads it back with bytes following, with and without validation, and compares every component, the debug output, the encodings and the behaviour. Distinct = distinct uncompressed encodings and histories.";
fn check(mon: &Mon) {
    objects::<E59>(mon, 300_000, 8_000_000, 6);
    objects::<E7>(mon, 20_000, 600_000, 4);
    objects::<EW>(mon, 20_000, 600_000, 4);
    objects::<Bls>(mon, 6_000, 100_000, 3);
    let l: Vec<usize> = (0..=34).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4097]).collect();
    lengths::<E59>(mon, &l);
    lengths::<Bls>(mon, &[0, 1, 2, 4, 9, 17]);
    behaves::<E59>(mon, 100_000, 4_000_000, 12);
    behaves::<EW>(mon, 2_000, 60_000, 6);
    behaves::<Bls>(mon, 64, 3_000, 4);
    canonical::<E59>(mon, 10_000, 300_000);
    canonical::<Bls>(mon, 400, 12_000);
    exhaustive::<E3>(mon, 3);
    exhaustive::<E5>(mon, 5);
}
fn main() {
    gsmon::run("C13", RULE, check)
}
