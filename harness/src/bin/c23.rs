//! C23 the byte encoding is fixed: what one build writes any other reads.
use gsmon::prelude::*;

/// The reference encoder: shares nothing with the library but arkworks' encoding of points and target elements.
struct Enc(Vec<u8>, Compress);
impl Enc {
    fn len(&mut self, n: usize) {
        self.0.extend((n as u64).to_le_bytes());
    }
    fn el<T: CanonicalSerialize>(&mut self, x: &T) {
        x.serialize_with_mode(&mut self.0, self.1).unwrap();
    }
    fn scalar<F: PrimeField>(&mut self, x: &F) {
        let mut b = x.into_bigint().to_bytes_le();
        b.resize((F::MODULUS_BIT_SIZE as usize).div_ceil(8), 0);
        self.0.extend(b);
    }
    fn mat<F: PrimeField>(&mut self, m: &Matrix<F>) {
        self.len(m.len());
        for row in m {
            self.len(row.len());
            row.iter().for_each(|x| self.scalar(x));
        }
    }
    fn com1s<E: Eng>(&mut self, l: &[Com1<E>]) {
        self.len(l.len());
        for c in l {
            self.el(&c.0);
            self.el(&c.1);
        }
    }
    fn com2s<E: Eng>(&mut self, l: &[Com2<E>]) {
        self.len(l.len());
        for c in l {
            self.el(&c.0);
            self.el(&c.1);
        }
    }
    fn els<T: CanonicalSerialize>(&mut self, l: &[T]) {
        self.len(l.len());
        l.iter().for_each(|x| self.el(x));
    }
    fn scalars<F: PrimeField>(&mut self, l: &[F]) {
        self.len(l.len());
        l.iter().for_each(|x| self.scalar(x));
    }
    fn tag(&mut self, t: &EquType) {
        self.0.push(match t {
            EquType::PairingProduct => 0,
            EquType::MultiScalarG1 => 1,
            EquType::MultiScalarG2 => 2,
            EquType::Quadratic => 3,
        });
    }
}
fn form(m: Compress) -> &'static str {
    if m == Compress::Yes {
        "compressed"
    } else {
        "uncompressed"
    }
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes, expected {}, first difference at byte {k}", a.len(), b.len())
}
/// Writes `x` and compares with the reference bytes, then reads those and compares with `x`.
fn both<T: CanonicalSerialize + CanonicalDeserialize>(c: &Case, what: &str, x: &T, same: impl Fn(&T) -> bool, fill: impl Fn(&mut Enc)) {
    for m in MODES {
        let mut e = Enc(vec![], m);
        fill(&mut e);
        let want = e.0;
        c.seen(&want);
        let mut got = vec![];
        let ok = c.must("serialize", || x.serialize_with_mode(&mut got, m)).is_ok();
        c.check(ok && got == want, || format!("the {} encoding of {what} is not the fixed one: {}", form(m), diff(&got, &want)));
        for v in [Validate::Yes, Validate::No] {
            let mut r = &want[..];
            match c.must("deserialize", || T::deserialize_with_mode(&mut r, m, v)) {
                Ok(y) => {
                    c.check(r.is_empty(), || format!("{} bytes of the {} encoding of {what} are left unread", r.len(), form(m)));
                    c.check(same(&y), || format!("the {} encoding of {what} is read as something else", form(m)));
                }
                Err(e) => c.fail(format!("the fixed {} encoding of {what} is refused: {e}", form(m))),
            }
        }
    }
}
fn coms<E: Eng>(r: &mut StdRng, p: &mut Pool<Fr<E>>, max: usize) -> (Vec<Com1<E>>, Vec<Com2<E>>) {
    let (a, b) = (r.gen_range(0..=max), r.gen_range(0..=max));
    let x = (0..a).map(|_| l1::<E>(&(p.next(r), p.next(r)))).collect();
    let y = (0..b).map(|_| l2::<E>(&(p.next(r), p.next(r)))).collect();
    (x, y)
}
fn objects<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("objects of up to {max}/{}", E::name()), q, t, |c| {
        let r = &mut c.rng.clone();
        let mut p = Pool::<Fr<E>>::new(r, &[]);
        let (xs, ys) = coms::<E>(r, &mut p, max);
        let ctx = format!("on {}", E::name());
        match c.idx % 6 {
            0 => {
                let k = CRS::<E> { u: xs, v: ys, g1_gen: E::g1(&p.next(r)), g2_gen: E::g2(&p.next(r)), gt_gen: E::gt(&p.next(r)) };
                let same = |o: &CRS<E>| o.u == k.u && o.v == k.v && o.g1_gen == k.g1_gen && o.g2_gen == k.g2_gen && o.gt_gen == k.gt_gen;
                both(c, &format!("the CRS {k:?} {ctx}"), &k, same, |e| {
                    e.com1s(&k.u);
                    e.com2s(&k.v);
                    e.el(&k.g1_gen);
                    e.el(&k.g2_gen);
                    e.el(&k.gt_gen);
                });
            }
            1 => {
                let (a, b) = (l1::<E>(&(p.next(r), p.next(r))), l2::<E>(&(p.next(r), p.next(r))));
                both(c, &format!("{a:?} {ctx}"), &a, |o| o.0 == a.0 && o.1 == a.1, |e| {
                    e.el(&a.0);
                    e.el(&a.1);
                });
                both(c, &format!("{b:?} {ctx}"), &b, |o| o.0 == b.0 && o.1 == b.1, |e| {
                    e.el(&b.0);
                    e.el(&b.1);
                });
                both(c, &format!("{xs:?} {ctx}"), &xs, |o| *o == xs, |e| e.com1s(&xs));
                both(c, &format!("{ys:?} {ctx}"), &ys, |o| *o == ys, |e| e.com2s(&ys));
                for ty in TYPES {
                    let t = ty.equ();
                    both(c, &format!("the tag {t:?}"), &t, |o| *o == t, |e| e.tag(&t));
                }
                let l: Vec<EquType> = (0..pick(r, 5)).map(|_| TYPES[pick(r, 4)].equ()).collect();
                both(c, &format!("the tags {l:?}"), &l, |o| *o == l, |e| {
                    e.len(l.len());
                    l.iter().for_each(|t| e.tag(t));
                });
            }
            2 | 3 => {
                let ty = TYPES[pick(r, 4)];
                let (m, n) = (r.gen_range(0..=max), r.gen_range(0..=max));
                let q = REq { ty, a: p.vec(r, n), b: p.vec(r, m), gamma: (0..m).map(|_| p.vec(r, n)).collect(), t: p.next(r) };
                let what = format!("the equation {q:?} {ctx}");
                match LEq::<E>::lift(&q) {
                    LEq::P(x) => both(c, &what, &x, |o| *o == x, |e| {
                        e.els(&x.a_consts);
                        e.els(&x.b_consts);
                        e.mat(&x.gamma);
                        e.el(&x.target);
                    }),
                    LEq::M1(x) => both(c, &what, &x, |o| *o == x, |e| {
                        e.els(&x.a_consts);
                        e.scalars(&x.b_consts);
                        e.mat(&x.gamma);
                        e.el(&x.target);
                    }),
                    LEq::M2(x) => both(c, &what, &x, |o| *o == x, |e| {
                        e.scalars(&x.a_consts);
                        e.els(&x.b_consts);
                        e.mat(&x.gamma);
                        e.el(&x.target);
                    }),
                    LEq::Q(x) => both(c, &what, &x, |o| *o == x, |e| {
                        e.scalars(&x.a_consts);
                        e.scalars(&x.b_consts);
                        e.mat(&x.gamma);
                        e.scalar(&x.target);
                    }),
                }
            }
            _ => honest::<E>(c, r, max),
        }
    });
}
/// Commitments and proofs as the library makes them: the public part is the public part, and what follows it are the
/// recorded random values, which open the commitments.
fn honest<E: Eng>(c: &Case, r: &mut StdRng, max: usize) {
    let ty = TYPES[pick(r, 4)];
    let kind = [Kind::Binding, Kind::Hiding][pick(r, 2)];
    let rc = gen::crs::<Fr<E>>(r, kind);
    let (m, n) = gen::dims(r, max.max(1));
    let (q, x, y) = gen::equation(r, ty, m, n, &crs_special(&rc));
    let (key, eq) = (lift_crs::<E>(&rc), LEq::<E>::lift(&q));
    let rng = &mut LogRng::new(r.next_u64());
    let p = c.must("commit_and_prove", || eq.commit_and_prove(&vars_x::<E>(ty, &x), &vars_y::<E>(ty, &y), &key, rng));
    let ctx = format!("{q:?} on {}", E::name());
    let (xc, yc, pf) = (&p.xcoms, &p.ycoms, &p.equ_proofs[0]);
    for md in MODES {
        let mut e = Enc(vec![], md);
        e.com1s(&xc.coms);
        rows::<E>(c, &format!("first-side commitments for {ctx}"), xc, md, e.0, m, ty.kx(), |rows| {
            let want: Vec<_> = x.iter().zip(rows).map(|(x, r)| rc.com_x(ty, *x, r)).collect();
            l1s::<E>(&want) == xc.coms
        });
        let mut e = Enc(vec![], md);
        e.com2s(&yc.coms);
        rows::<E>(c, &format!("second-side commitments for {ctx}"), yc, md, e.0, n, ty.ky(), |rows| {
            let want: Vec<_> = y.iter().zip(rows).map(|(y, s)| rc.com_y(ty, *y, s)).collect();
            l2s::<E>(&want) == yc.coms
        });
        let mut e = Enc(vec![], md);
        e.com2s(&pf.pi);
        e.com1s(&pf.theta);
        e.tag(&ty.equ());
        rows::<E>(c, &format!("the proof of {ctx}"), pf, md, e.0, ty.ky(), ty.kx(), |_| true);
    }
    c.count("honest commitments and proofs");
    // The other way round: bytes made here are read as the objects they describe, and the proof still verifies.
    let z = vec![];
    let mut e = Enc(vec![], Compress::No);
    e.com1s(&xc.coms);
    e.mat::<Fr<E>>(&z);
    let xb = e.0;
    let mut e = Enc(vec![], Compress::No);
    e.com2s(&yc.coms);
    e.mat::<Fr<E>>(&z);
    let yb = e.0;
    let mut e = Enc(vec![], Compress::No);
    e.com2s(&pf.pi);
    e.com1s(&pf.theta);
    e.tag(&ty.equ());
    e.mat::<Fr<E>>(&z);
    let pb = e.0;
    let read = || -> Result<CProof<E>, ark_serialize::SerializationError> {
        Ok(CProof {
            xcoms: CanonicalDeserialize::deserialize_uncompressed(&xb[..])?,
            ycoms: CanonicalDeserialize::deserialize_uncompressed(&yb[..])?,
            equ_proofs: vec![CanonicalDeserialize::deserialize_uncompressed(&pb[..])?],
        })
    };
    match c.must("deserialize", read) {
        Ok(o) => {
            let same = o.xcoms.coms == xc.coms && o.ycoms.coms == yc.coms && o.equ_proofs[0].pi == pf.pi && o.equ_proofs[0].theta == pf.theta && o.equ_proofs[0].equ_type == ty.equ();
            c.check(same, || format!("the fixed encoding of commitments and proof of {ctx} is read as something else"));
            let v = eq.verify(&o, &key);
            c.check(v == Verdict::Accept, || format!("a proof of {ctx} read from its fixed encoding gives {v:?}"));
        }
        Err(e) => c.fail(format!("the fixed encoding of commitments or proof of {ctx} is refused: {e}")),
    }
}
/// The encoding of `x` is `head` followed by a matrix of `m` rows of `k` scalars that satisfies `open`.
fn rows<E: Eng>(c: &Case, what: &str, x: &impl CanonicalSerialize, md: Compress, head: Vec<u8>, m: usize, k: usize, open: impl Fn(&Matrix<Fr<E>>) -> bool) {
    let mut got = vec![];
    let ok = c.must("serialize", || x.serialize_with_mode(&mut got, md)).is_ok();
    c.seen(&got);
    if !c.check(ok && got.starts_with(&head), || format!("the {} encoding of {what} does not start with its public part: {}", form(md), diff(&got, &head))) {
        return;
    }
    let mut at = head.len();
    let w = (<Fr<E>>::MODULUS_BIT_SIZE as usize).div_ceil(8);
    let mut long = |at: &mut usize| -> Option<usize> {
        let b = got.get(*at..*at + 8)?;
        *at += 8;
        Some(u64::from_le_bytes(b.try_into().unwrap()) as usize)
    };
    let mut mat: Option<Matrix<Fr<E>>> = Some(vec![]);
    if long(&mut at) != Some(m) {
        mat = None;
    }
    for _ in 0..m {
        if mat.is_none() || long(&mut at) != Some(k) || got.len() < at + k * w {
            mat = None;
            break;
        }
        let row = (0..k).map(|j| Fr::<E>::from_le_bytes_mod_order(&got[at + j * w..at + (j + 1) * w])).collect();
        at += k * w;
        mat.as_mut().unwrap().push(row);
    }
    match mat {
        Some(v) if at == got.len() => {
            let mut e = Enc(head.clone(), md);
            e.mat(&v);
            c.check(e.0 == got, || format!("the {} encoding of {what} has scalars that are not reduced", form(md)));
            c.check(open(&v), || format!("the random values {v:?} in the {} encoding of {what} do not open the commitments", form(md)));
        }
        _ => c.fail(format!("the {} encoding of {what} does not end with a matrix of {m} times {k} random values", form(md))),
    }
}

// ------------------------------------------------------------------------------------------------------------------
// Recorded encodings: `c23 --record FILE` wrote them when the check was made.
const GOLDEN: &str = include_str!("../../golden.txt");
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}
fn record<E: Eng>(tag: &str) -> String {
    let mut o = String::new();
    for (k, kind) in KINDS.iter().enumerate() {
        for m in MODES {
            let mut r = seeded(1000 + k as u64);
            o += &format!("object {tag} {k} {kind:?} {} {}\n", form(m), hex(&build::<E>(&mut r, *kind, 3).enc(m)));
        }
    }
    for ty in TYPES {
        for (j, kind) in [Kind::Binding, Kind::Hiding].into_iter().enumerate() {
            let mut r = seeded(2000 + ty as u64 * 2 + j as u64);
            let rc = gen::crs::<Fr<E>>(&mut r, kind);
            let (q, x, y) = gen::equation(&mut r, ty, 2, 3, &[]);
            let (key, eq) = (lift_crs::<E>(&rc), LEq::<E>::lift(&q));
            let p = eq.commit_and_prove(&vars_x::<E>(ty, &x), &vars_y::<E>(ty, &y), &key, &mut LogRng::new(7));
            for m in MODES {
                let mut b = vec![vec![]; 5];
                key.serialize_with_mode(&mut b[0], m).unwrap();
                match &eq {
                    LEq::P(e) => e.serialize_with_mode(&mut b[1], m).unwrap(),
                    LEq::M1(e) => e.serialize_with_mode(&mut b[1], m).unwrap(),
                    LEq::M2(e) => e.serialize_with_mode(&mut b[1], m).unwrap(),
                    LEq::Q(e) => e.serialize_with_mode(&mut b[1], m).unwrap(),
                }
                p.xcoms.serialize_with_mode(&mut b[2], m).unwrap();
                p.ycoms.serialize_with_mode(&mut b[3], m).unwrap();
                p.equ_proofs[0].serialize_with_mode(&mut b[4], m).unwrap();
                let parts: Vec<String> = b.iter().map(|x| hex(x)).collect();
                o += &format!("proof {tag} {} {} {}\n", ty as usize, form(m), parts.join(" "));
            }
        }
    }
    o
}
/// One recorded line.
fn replay<E: Eng>(c: &Case, f: &[&str]) {
    let mode = |s: &str| MODES.into_iter().find(|m| form(*m) == s).unwrap();
    if f[0] == "object" {
        let (k, m, b) = (KINDS[f[2].parse::<usize>().unwrap()], mode(f[4]), unhex(f[5]));
        c.seen(&b);
        match c.must("deserialize", || Obj::<E>::read(k, &b[..], m, Validate::Yes)) {
            Ok(o) => {
                c.check(c.must("serialize", || o.enc(m)) == b, || format!("a recorded encoding of {k:?} is written differently after reading it"));
                // What it was made from.
                let mut r = seeded(1000 + f[2].parse::<u64>().unwrap());
                let made = c.must("make the recorded object", || build::<E>(&mut r, k, 3));
                c.check(o.inner_debug() == made.inner_debug(), || format!("a recorded encoding of {k:?} is read as {}, it was {}", o.inner_debug(), made.inner_debug()));
            }
            Err(e) => c.fail(format!("a recorded {} encoding of {k:?} is refused: {e}", f[4])),
        }
    } else {
        let (ty, m) = (TYPES[f[2].parse::<usize>().unwrap()], mode(f[3]));
        let b: Vec<Vec<u8>> = f[4..].iter().map(|s| unhex(s)).collect();
        c.seen(&b);
        let read = || -> Result<_, ark_serialize::SerializationError> {
            let v = Validate::Yes;
            let key: CRS<E> = CanonicalDeserialize::deserialize_with_mode(&b[0][..], m, v)?;
            let eq = match ty {
                Ty::P => LEq::P(CanonicalDeserialize::deserialize_with_mode(&b[1][..], m, v)?),
                Ty::M1 => LEq::M1(CanonicalDeserialize::deserialize_with_mode(&b[1][..], m, v)?),
                Ty::M2 => LEq::M2(CanonicalDeserialize::deserialize_with_mode(&b[1][..], m, v)?),
                Ty::Q => LEq::Q(CanonicalDeserialize::deserialize_with_mode(&b[1][..], m, v)?),
            };
            let p = CProof {
                xcoms: CanonicalDeserialize::deserialize_with_mode(&b[2][..], m, v)?,
                ycoms: CanonicalDeserialize::deserialize_with_mode(&b[3][..], m, v)?,
                equ_proofs: vec![CanonicalDeserialize::deserialize_with_mode(&b[4][..], m, v)?],
            };
            Ok((key, eq, p))
        };
        match c.must("deserialize", read) {
            Ok((key, eq, p)) => {
                let v: Verdict = eq.verify(&p, &key);
                c.check(v == Verdict::Accept, || format!("a recorded proof of type {ty:?} gives {v:?}"));
            }
            Err(e) => c.fail(format!("a recorded CRS, equation, commitment or proof of type {ty:?} is refused: {e}")),
        }
    }
}

const RULE: &str = "Each case encodes an object with the library and with an independent reference encoder (lengths as 64-bit little-endian numbers, components in declared order, one-byte tags), compares the bytes, and lets the library read the reference bytes; the random values at the end of honest commitments are checked to open them. Encodings recorded when the check was made are read again, and the recorded proofs verified. Distinct = distinct encodings.";
fn check(mon: &Mon) {
    let args: Vec<String> = std::env::args().collect();
    if let Some(k) = args.iter().position(|a| a == "--record") {
        std::fs::write(&args[k + 1], record::<Bls>("bls") + &record::<E59>("e59")).unwrap();
        std::process::exit(0);
    }
    let lines: Vec<Vec<&str>> = GOLDEN.lines().map(|l| l.split(' ').collect()).collect();
    mon.stage_all("recorded encodings", lines.len() as u64, |c| {
        let f = &lines[c.idx as usize];
        match f[1] {
            "bls" => replay::<Bls>(c, f),
            _ => replay::<E59>(c, f),
        }
    });
    objects::<E59>(mon, 60_000, 900_000, 9);
    objects::<EW>(mon, 20_000, 300_000, 5);
    objects::<E3>(mon, 6_000, 100_000, 6);
    objects::<Bls>(mon, 300, 6_000, 2);
    objects::<E59>(mon, 40, 600, 300);
}

fn main() {
    gsmon::run("C23", RULE, check)
}
