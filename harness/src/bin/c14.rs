//! C14 validated deserialization never accepts invalid encodings, and accepts canonical ones only.
use ark_bls12_381::{g1::Config as G1Config, g2::Config as G2Config, Fq, Fq12, Fq2, Fr as R, G1Affine, G2Affine};
use ark_ec::CurveConfig;
use ark_ff::BigInt;
use gsmon::prelude::*;

type B = Bls;

// ------------------------------------------------------------------------------------------------------------------
// An oracle for validity that shares no code with the decoder: the curve equation, and the order by plain doubling.

fn order_ok<G: AdditiveGroup>(p: G) -> bool {
    let mut acc = G::ZERO;
    for b in ark_ff::BitIteratorBE::without_leading_zeros(R::MODULUS) {
        acc.double_in_place();
        if b {
            acc += p;
        }
    }
    acc.is_zero()
}
fn good1(p: &G1Affine) -> bool {
    p.infinity || (p.y.square() == p.x.square() * p.x + Fq::from(4u64) && order_ok(p.into_group()))
}
fn good2(p: &G2Affine) -> bool {
    let b = Fq2::new(Fq::from(4u64), Fq::from(4u64));
    p.infinity || (p.y.square() == p.x.square() * p.x + b && order_ok(p.into_group()))
}
fn good_t(t: &PairingOutput<B>) -> bool {
    t.0.pow(R::MODULUS) == Fq12::ONE
}
fn invalid_part(o: &Obj<B>) -> Option<String> {
    o.atoms().iter().enumerate().find_map(|(k, a)| {
        let ok = match a {
            Atom::G1(p) => good1(p),
            Atom::G2(p) => good2(p),
            Atom::Gt(t) => good_t(t),
            _ => true,
        };
        (!ok).then(|| format!("part {k}, a {}", a.name()))
    })
}

// ------------------------------------------------------------------------------------------------------------------
// Faults in one part.

#[derive(Clone, Debug)]
struct Fault {
    what: &'static str,
    bytes: Vec<u8>,
}
fn be48(x: &BigInt<6>) -> [u8; 48] {
    let mut o = [0; 48];
    o.copy_from_slice(&x.to_bytes_be());
    o
}
fn plus<const N: usize>(x: BigInt<N>, m: BigInt<N>) -> Option<BigInt<N>> {
    let mut y = x;
    (!y.add_with_carry(&m)).then_some(y)
}
/// A coordinate's encoding plus the field's modulus, where that fits into `bits` bits.
fn non_reduced(x: &Fq, bits: u32) -> Option<[u8; 48]> {
    plus(x.into_bigint(), Fq::MODULUS).filter(|y| y.num_bits() <= bits).map(|y| be48(&y))
}
/// Random points with a small x coordinate, so that x + p can be encoded.
fn small1(r: &mut StdRng) -> G1Affine {
    loop {
        // Not in the subgroup, most likely: the fault is in the coordinate as well.
        let x = Fq::from(r.next_u32() as u64);
        if let Some(p) = G1Affine::get_point_from_x_unchecked(x, coin(r, 1, 2)) {
            return p;
        }
    }
}
fn small2(r: &mut StdRng) -> G2Affine {
    loop {
        let x = Fq2::new(Fq::from(r.next_u32() as u64), Fq::from(r.next_u32() as u64));
        if let Some(p) = G2Affine::get_point_from_x_unchecked(x, coin(r, 1, 2)) {
            return p;
        }
    }
}
/// A point of the subgroup whose first coordinate plus p still fits into 381 bits.
fn low1(r: &mut StdRng) -> G1Affine {
    loop {
        let p = B::g1(&R::rand(r));
        if non_reduced(&p.x, 381).is_some() {
            return p;
        }
    }
}
fn low2(r: &mut StdRng) -> G2Affine {
    loop {
        let p = B::g2(&R::rand(r));
        if non_reduced(&p.x.c1, 381).is_some() && non_reduced(&p.x.c0, 384).is_some() {
            return p;
        }
    }
}
/// n / l, which leaves no remainder.
fn part(n: &[u64], l: u64) -> Vec<u64> {
    let mut q = vec![0; n.len()];
    let mut rem = 0u128;
    for k in (0..n.len()).rev() {
        let d = (rem << 64) | n[k] as u128;
        q[k] = (d / l as u128) as u64;
        rem = d % l as u128;
    }
    assert_eq!(rem, 0);
    q
}
/// Points on the curve but outside the subgroup: any, the part outside only, of small prime order, or a member plus one of these.
fn off_subgroup1(r: &mut StdRng) -> G1Affine {
    loop {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(Fq::rand(r), coin(r, 1, 2)) {
            let small = |r: &mut StdRng| p.mul_bigint(R::MODULUS).into_affine().mul_bigint(part(<G1Config as CurveConfig>::COFACTOR, [3, 11, 10177][pick(r, 3)]));
            let q = match pick(r, 6) {
                0 | 1 => p,
                2 | 3 => p.mul_bigint(R::MODULUS).into_affine(),
                4 => small(r).into_affine(),
                _ => (small(r) + B::g1(&gen::nz(r))).into_affine(),
            };
            if !good1(&q) {
                return q;
            }
        }
    }
}
fn off_subgroup2(r: &mut StdRng) -> G2Affine {
    loop {
        if let Some(p) = G2Affine::get_point_from_x_unchecked(Fq2::rand(r), coin(r, 1, 2)) {
            let small = |r: &mut StdRng| p.mul_bigint(R::MODULUS).into_affine().mul_bigint(part(<G2Config as CurveConfig>::COFACTOR, [13, 23, 2713][pick(r, 3)]));
            let q = match pick(r, 6) {
                0 | 1 => p,
                2 | 3 => p.mul_bigint(R::MODULUS).into_affine(),
                4 => small(r).into_affine(),
                _ => (small(r) + B::g2(&gen::nz(r))).into_affine(),
            };
            if !good2(&q) {
                return q;
            }
        }
    }
}
fn enc<T: CanonicalSerialize>(t: &T, m: Compress) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_with_mode(&mut b, m).unwrap();
    b
}
fn g1_faults(r: &mut StdRng, p: &G1Affine, m: Compress) -> Vec<Fault> {
    let mut o = vec![];
    let mut add = |what, bytes| o.push(Fault { what, bytes });
    let un = m == Compress::No;
    add("outside the subgroup", enc(&off_subgroup1(r), m));
    if un {
        let (x, y) = (Fq::rand(r), Fq::rand(r));
        add("off the curve", enc(&G1Affine::new_unchecked(x, y), m));
        let q = B::g1(&gen::nz(r));
        let u: Fq = gen::nz(r);
        if u.pow([6]) != Fq::ONE {
            add("on an isomorphic curve", enc(&G1Affine::new_unchecked(q.x * u.square(), q.y * u.square() * u), m));
        }
        add("wrong y", enc(&G1Affine::new_unchecked(q.x, q.y + Fq::ONE), m));
        add("x and y exchanged", enc(&G1Affine::new_unchecked(q.y, q.x), m));
        add("y = 0", enc(&G1Affine::new_unchecked(q.x, Fq::ZERO), m));
        add("both coordinates 0", vec![0; 96]);
    } else {
        loop {
            let x = Fq::rand(r);
            if G1Affine::get_point_from_x_unchecked(x, true).is_none() {
                let mut b = be48(&x.into_bigint()).to_vec();
                b[0] |= 0x80;
                add("x without a point", b);
                break;
            }
        }
    }
    for q in [low1(r), small1(r)] {
        let mut b = enc(&q, m);
        if let Some(x) = non_reduced(&q.x, 381) {
            let top = b[0] & 0xe0;
            b[..48].copy_from_slice(&x);
            b[0] |= top;
            add("x not reduced", b);
        }
        if un {
            if let Some(y) = non_reduced(&q.y, 384) {
                let mut b = enc(&q, m);
                b[48..].copy_from_slice(&y);
                add("y not reduced", b);
            }
        }
    }
    let e = enc(p, m);
    let mut b = e.clone();
    b[0] ^= 0x80;
    add("compression flag flipped", b);
    let q = B::g1(&gen::nz(r));
    let mut b = enc(&q, m);
    b[0] |= 0x40;
    add("infinity flag on a point", b);
    let mut b = enc(&G1Affine::identity(), m);
    b[0] |= 0x20;
    add("sort flag on infinity", b);
    let mut b = enc(&G1Affine::identity(), m);
    let k = 1 + pick(r, b.len() - 1);
    b[k] = 1 << pick(r, 8);
    add("infinity with a coordinate", b);
    if un {
        let mut b = enc(&q, m);
        b[0] |= 0x20;
        add("sort flag without compression", b);
        let mut b = enc(&q, m);
        b[48] |= [0x80, 0x40, 0x20][pick(r, 3)];
        add("flag bits on y", b);
    }
    o
}
fn g2_faults(r: &mut StdRng, p: &G2Affine, m: Compress) -> Vec<Fault> {
    let mut o = vec![];
    let mut add = |what, bytes| o.push(Fault { what, bytes });
    let un = m == Compress::No;
    add("outside the subgroup", enc(&off_subgroup2(r), m));
    if un {
        add("off the curve", enc(&G2Affine::new_unchecked(Fq2::rand(r), Fq2::rand(r)), m));
        let q = B::g2(&gen::nz(r));
        for u in [Fq2::new(gen::nz::<Fq>(r), Fq::ZERO), Fq2::rand(r)] {
            if u.pow([6]) != Fq2::ONE && !u.is_zero() {
                add("on an isomorphic curve", enc(&G2Affine::new_unchecked(q.x * u.square(), q.y * u.square() * u), m));
            }
        }
        add("wrong y", enc(&G2Affine::new_unchecked(q.x, q.y + Fq2::ONE), m));
        add("x and y exchanged", enc(&G2Affine::new_unchecked(q.y, q.x), m));
        add("both coordinates 0", vec![0; 192]);
    } else {
        loop {
            let x = Fq2::rand(r);
            if G2Affine::get_point_from_x_unchecked(x, true).is_none() {
                let mut b = be48(&x.c1.into_bigint()).to_vec();
                b.extend(be48(&x.c0.into_bigint()));
                b[0] |= 0x80;
                add("x without a point", b);
                break;
            }
        }
    }
    for q in [low2(r), small2(r)] {
        let e = enc(&q, m);
        let mut parts = vec![(&q.x.c1, 381), (&q.x.c0, 384)];
        if un {
            parts.extend([(&q.y.c1, 384), (&q.y.c0, 384)]);
        }
        for (k, (x, bits)) in parts.iter().enumerate() {
            if let Some(x) = non_reduced(x, *bits) {
                let mut b = e.clone();
                let top = if k == 0 { b[0] & 0xe0 } else { 0 };
                b[48 * k..48 * (k + 1)].copy_from_slice(&x);
                b[48 * k] |= top;
                add("coordinate not reduced", b);
            }
        }
    }
    let mut b = enc(p, m);
    b[0] ^= 0x80;
    add("compression flag flipped", b);
    let q = B::g2(&gen::nz(r));
    let mut b = enc(&q, m);
    b[0] |= 0x40;
    add("infinity flag on a point", b);
    let mut b = enc(&G2Affine::identity(), m);
    b[0] |= 0x20;
    add("sort flag on infinity", b);
    let mut b = enc(&G2Affine::identity(), m);
    let k = 1 + pick(r, b.len() - 1);
    b[k] = 1 << pick(r, 8);
    add("infinity with a coordinate", b);
    if un {
        let mut b = enc(&q, m);
        b[0] |= 0x20;
        add("sort flag without compression", b);
    }
    let mut b = enc(&q, m);
    b[48] |= [0x80, 0x40, 0x20][pick(r, 3)];
    add("flag bits on another coordinate", b);
    o
}
fn scalar_faults(r: &mut StdRng, x: &R) -> Vec<Fault> {
    let le = |b: BigInt<4>| b.to_bytes_le();
    let mut o = vec![];
    if let Some(y) = plus(x.into_bigint(), R::MODULUS) {
        o.push(Fault { what: "plus r", bytes: le(y) });
        if let Some(z) = plus(y, R::MODULUS) {
            o.push(Fault { what: "plus 2r", bytes: le(z) });
        }
    }
    o.push(Fault { what: "r", bytes: le(R::MODULUS) });
    o.push(Fault { what: "r + small", bytes: le(plus(R::MODULUS, BigInt::from(r.next_u64())).unwrap()) });
    o.push(Fault { what: "all ones", bytes: vec![0xff; 32] });
    let mut b = le(x.into_bigint());
    b[31] |= 0x80;
    o.push(Fault { what: "bit 255 set", bytes: b });
    o
}
fn target_faults(r: &mut StdRng, t: &PairingOutput<B>) -> Vec<Fault> {
    let m = Compress::No;
    let mut o = vec![];
    let mut add = |what, x: Fq12| {
        if !good_t(&PairingOutput(x)) {
            o.push(Fault { what, bytes: enc(&x, m) })
        }
    };
    let f = Fq12::rand(r);
    add("random field element", f);
    add("zero", Fq12::ZERO);
    add("minus one", -Fq12::ONE);
    add("negated", -t.0);
    add("two", Fq12::ONE + Fq12::ONE);
    let mut g = f;
    g.conjugate_in_place();
    let cyc = g * f.inverse().unwrap();
    add("of norm one only", cyc);
    add("cyclotomic, outside the subgroup", cyc.frobenius_map_twice() * cyc);
    add("valid times outside", t.0 * cyc);
    add("valid times cyclotomic", t.0 * cyc.frobenius_map_twice() * cyc);
    let e = enc(&t.0, m);
    let coords: Vec<Fq> = t.0.to_base_prime_field_elements().collect();
    for (k, x) in coords.iter().enumerate() {
        if let Some(y) = plus(x.into_bigint(), Fq::MODULUS) {
            let mut b = e.clone();
            b[48 * k..48 * (k + 1)].copy_from_slice(&y.to_bytes_le());
            o.push(Fault { what: "coordinate not reduced", bytes: b });
        }
    }
    o
}
trait Frob2 {
    fn frobenius_map_twice(&self) -> Self;
}
impl Frob2 for Fq12 {
    fn frobenius_map_twice(&self) -> Self {
        let mut x = *self;
        x.frobenius_map_in_place(2);
        x
    }
}
fn faults(r: &mut StdRng, a: &Atom<B>, m: Compress) -> Vec<Fault> {
    match a {
        Atom::G1(p) => g1_faults(r, p, m),
        Atom::G2(p) => g2_faults(r, p, m),
        Atom::F(x) => scalar_faults(r, x),
        Atom::Gt(t) => target_faults(r, t),
        Atom::Tag(_) => (4..=255u8).map(|b| Fault { what: "unknown tag", bytes: vec![b] }).collect(),
        Atom::Len(_) => vec![],
    }
}

// ------------------------------------------------------------------------------------------------------------------

/// An aborted call accepts nothing.
fn read(c: &Case, k: OKind, r: impl ark_std::io::Read, m: Compress) -> Result<Obj<B>, ()> {
    match lib(|| Obj::<B>::read(k, r, m, Validate::Yes)) {
        Ok(x) => x.map_err(|_| ()),
        Err(_) => {
            c.count("calls that panicked");
            Err(())
        }
    }
}
fn refused(c: &Case, k: OKind, bytes: &[u8], m: Compress, what: impl FnOnce() -> String) {
    match read(c, k, bytes, m) {
        Err(_) => {
            c.check(true, || unreachable!());
        }
        Ok(o) => {
            c.check(false, || format!("{k:?} (compressed: {}) accepted: {}; decoded to {}", m == Compress::Yes, what(), o.inner_debug()));
        }
    }
}
/// Whatever is accepted consists of valid parts and has this encoding.
fn sound(c: &Case, k: OKind, bytes: &[u8], m: Compress, what: impl Fn() -> String) -> bool {
    let mut rd = bytes;
    match read(c, k, &mut rd, m) {
        Err(_) => {
            c.check(true, || unreachable!());
            false
        }
        Ok(o) => {
            let used = bytes.len() - rd.len();
            c.check(o.enc(m) == bytes[..used], || format!("{k:?} (compressed: {}) accepts bytes that are not what the value {} is encoded to: {}", m == Compress::Yes, o.inner_debug(), what()));
            let bad = invalid_part(&o);
            c.check(bad.is_none(), || format!("{k:?} (compressed: {}): {} is invalid: {}", m == Compress::Yes, bad.unwrap_or_default(), what()));
            true
        }
    }
}
fn starts(a: &[Atom<B>], m: Compress) -> (Vec<usize>, usize) {
    let mut at = 0;
    let v = a
        .iter()
        .map(|x| {
            let s = at;
            at += x.bytes(m).len();
            s
        })
        .collect();
    (v, at)
}
/// Every fault in every part of an object.
fn parts(mon: &Mon, q: u64, t: u64) {
    mon.stage("faults in every part", q, t, |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let m = MODES[c.idx as usize / KINDS.len() % 2];
        let size = 1 + pick(&mut c.rng, 3);
        let o = build::<B>(&mut c.rng, k, size);
        let a = o.atoms();
        let e = o.enc(m);
        let (at, total) = starts(&a, m);
        let plain: Vec<u8> = a.iter().flat_map(|x| x.bytes(m)).collect();
        c.sample(|| format!("{k:?} with {} parts in {} bytes", a.len(), e.len()));
        if !sound(c, k, &e, m, || "an encoding written by the library".into()) {
            c.fail(format!("{k:?}: an encoding written by the library is refused"));
            return;
        }
        if plain != e || total != e.len() {
            // Not the layout the positions are computed from: nothing is claimed about it here.
            c.count("objects in an unknown layout");
            return;
        }
        c.seen(&e);
        for (j, x) in a.iter().enumerate() {
            let len = x.bytes(m).len();
            for f in faults(&mut c.rng, x, m) {
                assert_eq!(f.bytes.len(), len, "fault {} has another length", f.what);
                let mut b = e.clone();
                b[at[j]..at[j] + len].copy_from_slice(&f.bytes);
                c.seen(&(&b, m == Compress::Yes));
                c.count(&format!("{}: {}", x.name(), f.what));
                refused(c, k, &b, m, || format!("{} {} (part {j} of {}, at byte {})", x.name(), f.what, a.len(), at[j]));
            }
        }
    });
}
/// Every proper prefix of an encoding, also from readers that end early.
fn truncated(mon: &Mon, q: u64, t: u64) {
    mon.stage("truncation at every byte", q, t, |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let m = MODES[c.idx as usize / KINDS.len() % 2];
        let size = pick(&mut c.rng, 3);
        let o = build::<B>(&mut c.rng, k, size);
        let e = o.enc(m);
        c.seen(&e);
        // Prefixes far into long encodings are costly, as all complete parts are decoded: all short ones, then a sample.
        let step = (e.len() / 200).max(1);
        let mut n = 0;
        while n < e.len() {
            refused(c, k, &e[..n], m, || format!("only {n} of {} bytes", e.len()));
            c.mon.count("truncations", 1);
            n += 1 + if step > 1 { pick(&mut c.rng, 2 * step - 1) } else { 0 };
        }
    });
}
/// Bit flips, byte changes and exchanged parts: refused, or a canonical encoding of something valid.
fn mutated(mon: &Mon, q: u64, t: u64) {
    mon.stage("mutations", q, t, |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let m = MODES[c.idx as usize / KINDS.len() % 2];
        let size = pick(&mut c.rng, 4);
        let o = build::<B>(&mut c.rng, k, size);
        let a = o.atoms();
        let e = o.enc(m);
        let (at, total) = starts(&a, m);
        let plain: Vec<u8> = a.iter().flat_map(|x| x.bytes(m)).collect();
        if plain != e || total != e.len() || e.is_empty() {
            c.count("objects in an unknown layout");
            return;
        }
        // The decoder reserves memory for as many elements as announced. So only the lowest byte of a length is changed, and
        // only in plain lists: elsewhere another length would be read from arbitrary bytes.
        let plain_list = matches!(k, OKind::VC1 | OKind::VC2 | OKind::VTag);
        let is_len = |p: usize| {
            let j = at.partition_point(|s| *s <= p) - 1;
            match a[j] {
                Atom::Len(_) if plain_list => Some(p - at[j]),
                Atom::Len(_) => Some(8),
                _ => None,
            }
        };
        let mut tail = e.clone();
        tail.extend([0; 400]);
        for _ in 0..60 {
            let mut b = tail.clone();
            let how = pick(&mut c.rng, 6);
            for _ in 0..[1, 1, 1, 2, 3][pick(&mut c.rng, 5)] {
                let p = pick(&mut c.rng, e.len());
                match is_len(p) {
                    Some(0) => b[p] = c.rng.next_u32() as u8 % 8,
                    Some(_) => {}
                    None => match how {
                        0..=2 => b[p] ^= 1 << pick(&mut c.rng, 8),
                        3 => b[p] = c.rng.next_u32() as u8,
                        4 => b[p] = [0, 0xff, 1, 0x80, 0x7f][pick(&mut c.rng, 5)],
                        _ => {
                            // A whole part replaced by another part of the same length, or zeroed.
                            let j = at.partition_point(|s| *s <= p) - 1;
                            let len = a[j].bytes(m).len();
                            let l = pick(&mut c.rng, a.len());
                            let src = a[l].bytes(m);
                            let src = if src.len() == len && !matches!(a[l], Atom::Len(_)) { src } else { vec![0; len] };
                            b[at[j]..at[j] + len].copy_from_slice(&src);
                        }
                    },
                }
            }
            c.seen(&(&b[..e.len()], m == Compress::Yes));
            let ok = sound(c, k, &b, m, || format!("mutation of {:?}", o.inner_debug()));
            c.count(if ok { "mutations accepted" } else { "mutations refused" });
        }
    });
}
/// Objects that contain an invalid element, built without any encoding of ours: independent of the layout.
fn built(mon: &Mon, q: u64, t: u64) {
    mon.stage("objects with one invalid element", q, t, |c| {
        let r = &mut c.rng;
        let bad1 = |r: &mut StdRng, m: Compress| -> G1Affine {
            let q = B::g1(&gen::nz(r));
            let u: Fq = Fq::from(2u64 + r.next_u32() as u64);
            match pick(r, 3) {
                0 if m == Compress::No => G1Affine::new_unchecked(Fq::rand(r), Fq::rand(r)),
                1 if m == Compress::No => G1Affine::new_unchecked(q.x * u.square(), q.y * u.square() * u),
                _ => off_subgroup1(r),
            }
        };
        let bad2 = |r: &mut StdRng, m: Compress| -> G2Affine {
            let q = B::g2(&gen::nz(r));
            let u: Fq2 = Fq2::new(Fq::from(2u64 + r.next_u32() as u64), Fq::ZERO);
            match pick(r, 3) {
                0 if m == Compress::No => G2Affine::new_unchecked(Fq2::rand(r), Fq2::rand(r)),
                1 if m == Compress::No => G2Affine::new_unchecked(q.x * u.square(), q.y * u.square() * u),
                _ => off_subgroup2(r),
            }
        };
        let m = MODES[pick(r, 2)];
        let mut o = build::<B>(r, KINDS[c.idx as usize % KINDS.len()], 3);
        let mut done = true;
        let what = match &mut o {
            Obj::Crs(k) => match pick(r, 5) {
                0 if !k.u.is_empty() => {
                    let j = pick(r, k.u.len());
                    *(if coin(r, 1, 2) { &mut k.u[j].0 } else { &mut k.u[j].1 }) = bad1(r, m);
                    "u"
                }
                1 if !k.v.is_empty() => {
                    let j = pick(r, k.v.len());
                    *(if coin(r, 1, 2) { &mut k.v[j].0 } else { &mut k.v[j].1 }) = bad2(r, m);
                    "v"
                }
                2 => {
                    k.g2_gen = bad2(r, m);
                    "g2_gen"
                }
                3 => {
                    k.gt_gen = PairingOutput(Fq12::rand(r));
                    "gt_gen"
                }
                _ => {
                    k.g1_gen = bad1(r, m);
                    "g1_gen"
                }
            },
            Obj::C1(x) => {
                *(if coin(r, 1, 2) { &mut x.0 } else { &mut x.1 }) = bad1(r, m);
                "element"
            }
            Obj::C2(x) => {
                *(if coin(r, 1, 2) { &mut x.0 } else { &mut x.1 }) = bad2(r, m);
                "element"
            }
            Obj::K1(Commit1 { coms: v, .. }) | Obj::VC1(v) if !v.is_empty() => {
                let j = pick(r, v.len());
                *(if coin(r, 1, 2) { &mut v[j].0 } else { &mut v[j].1 }) = bad1(r, m);
                "commitment"
            }
            Obj::K2(Commit2 { coms: v, .. }) | Obj::VC2(v) if !v.is_empty() => {
                let j = pick(r, v.len());
                *(if coin(r, 1, 2) { &mut v[j].0 } else { &mut v[j].1 }) = bad2(r, m);
                "commitment"
            }
            Obj::Mat1(v) if !v.is_empty() && !v[0].is_empty() => {
                let j = pick(r, v.len());
                let l = pick(r, v[0].len());
                *(if coin(r, 1, 2) { &mut v[j][l].0 } else { &mut v[j][l].1 }) = bad1(r, m);
                "matrix entry"
            }
            Obj::Pf(p) if !p.pi.is_empty() && !p.theta.is_empty() => {
                if coin(r, 1, 2) {
                    let j = pick(r, p.pi.len());
                    *(if coin(r, 1, 2) { &mut p.pi[j].0 } else { &mut p.pi[j].1 }) = bad2(r, m);
                } else {
                    let j = pick(r, p.theta.len());
                    *(if coin(r, 1, 2) { &mut p.theta[j].0 } else { &mut p.theta[j].1 }) = bad1(r, m);
                }
                "proof element"
            }
            Obj::VPf(v) if !v.is_empty() => {
                let j = pick(r, v.len());
                if coin(r, 1, 2) {
                    v[j].pi[0].1 = bad2(r, m);
                } else {
                    v[j].theta[1].0 = bad1(r, m);
                }
                "element of one of several proofs"
            }
            Obj::P(q) => {
                if !q.a_consts.is_empty() && coin(r, 1, 3) {
                    let j = pick(r, q.a_consts.len());
                    q.a_consts[j] = bad1(r, m);
                    "constant"
                } else if !q.b_consts.is_empty() && coin(r, 1, 2) {
                    let j = pick(r, q.b_consts.len());
                    q.b_consts[j] = bad2(r, m);
                    "constant"
                } else {
                    q.target = PairingOutput(Fq12::rand(r));
                    "target"
                }
            }
            Obj::M1(q) => {
                if !q.a_consts.is_empty() && coin(r, 1, 2) {
                    let j = pick(r, q.a_consts.len());
                    q.a_consts[j] = bad1(r, m);
                    "constant"
                } else {
                    q.target = bad1(r, m);
                    "target"
                }
            }
            Obj::M2(q) => {
                if !q.b_consts.is_empty() && coin(r, 1, 2) {
                    let j = pick(r, q.b_consts.len());
                    q.b_consts[j] = bad2(r, m);
                    "constant"
                } else {
                    q.target = bad2(r, m);
                    "target"
                }
            }
            _ => {
                done = false;
                ""
            }
        };
        if done {
            let e = o.enc(m);
            c.seen(&e);
            c.count(&format!("{:?} with an invalid {what}", o.kind()));
            refused(c, o.kind(), &e, m, || format!("an invalid {what} in {}", o.inner_debug()));
        }
    });
}
/// Long lists with few invalid points in them, some of which cancel each other.
fn long(mon: &Mon, q: u64, t: u64) {
    const KS: [OKind; 9] = [OKind::VC1, OKind::VC2, OKind::K1, OKind::K2, OKind::P, OKind::M1, OKind::M2, OKind::Pf, OKind::Crs];
    mon.stage("invalid points in long lists", q, t, |c| {
        let k = KS[c.idx as usize % KS.len()];
        let r = &mut c.rng;
        let m = MODES[pick(r, 2)];
        let n = match pick(r, 6) {
            0..=2 => r.gen_range(4..=20),
            3 => r.gen_range(20..=70),
            4 => [31, 32, 33, 63, 64, 65][pick(r, 6)],
            _ => [100, 127, 128, 129, 257][pick(r, 5)],
        };
        let mut g1: Vec<G1Affine> = vec![B::g1(&gen::nz(r)), B::g1(&gen::nz(r)), G1Affine::zero()];
        let mut g2: Vec<G2Affine> = vec![B::g2(&gen::nz(r)), B::g2(&gen::nz(r)), G2Affine::zero()];
        (g1, g2) = ((0..2 * n).map(|_| g1[pick(r, 3)]).collect(), (0..2 * n).map(|_| g2[pick(r, 3)]).collect());
        // Which of the two lists holds the fault.
        let second = match k {
            OKind::VC1 | OKind::K1 | OKind::M1 => false,
            OKind::VC2 | OKind::K2 | OKind::M2 => true,
            _ => coin(r, 1, 2),
        };
        // Constants of equations use n of the points only.
        let used = if matches!(k, OKind::P | OKind::M1 | OKind::M2) { n } else { 2 * n };
        let bad = (off_subgroup1(r), off_subgroup2(r));
        let how = pick(r, 5);
        let at = match how {
            0 | 1 => vec![pick(r, used)],
            2 => vec![used - 1 - pick(r, 2)],
            3 => (0..2 + pick(r, 4)).map(|_| pick(r, used)).collect(),
            _ => (0..used).collect(),
        };
        for (j, p) in at.iter().enumerate() {
            // Each followed by its negative, so that sums may lie in the subgroup; all or some of them.
            let neg = how >= 3 && j % 2 == 1;
            g1[*p] = if second { g1[*p] } else if neg { -bad.0 } else { bad.0 };
            g2[*p] = if !second { g2[*p] } else if neg { -bad.1 } else { bad.1 };
        }
        let c1: Vec<Com1<B>> = g1.chunks(2).map(|p| Com1(p[0], p[1])).collect();
        let c2: Vec<Com2<B>> = g2.chunks(2).map(|p| Com2(p[0], p[1])).collect();
        let f: Vec<Fr<B>> = vec![Fr::<B>::from(3u64); n];
        let (w1, w2) = (g1[..n].to_vec(), g2[..n].to_vec());
        let o = match k {
            OKind::VC1 => Obj::VC1(c1),
            OKind::VC2 => Obj::VC2(c2),
            OKind::K1 => Obj::K1(com1_with(c1, &vec![f.clone(); 2])),
            OKind::K2 => Obj::K2(com2_with(c2, &vec![f.clone(); 2])),
            OKind::P => Obj::P(PPE { a_consts: w1, b_consts: w2, gamma: vec![vec![f[0]]], target: B::gt(&Fr::<B>::from(5u64)) }),
            OKind::M1 => Obj::M1(MSMEG1 { a_consts: w1, b_consts: f, gamma: vec![], target: B::g1(&Fr::<B>::from(5u64)) }),
            OKind::M2 => Obj::M2(MSMEG2 { a_consts: f, b_consts: w2, gamma: vec![], target: B::g2(&Fr::<B>::from(5u64)) }),
            OKind::Pf => Obj::Pf(equ_with(c2, c1, TYPES[pick(r, 4)].equ(), &vec![])),
            _ => {
                let mut k = lift_crs::<B>(&gen::crs::<Fr<B>>(r, Kind::Binding));
                (k.u, k.v) = (c1, c2);
                Obj::Crs(k)
            }
        };
        let e = o.enc(m);
        c.seen(&e);
        c.count(&format!("{k:?} with invalid points in a long list"));
        refused(c, k, &e, m, || format!("{} points outside the subgroup among {used} (side {}, positions {at:?})", at.len(), 1 + second as u8));
    });
}
/// Shadow engines: scalars and target elements only, but many more of them.
fn shadow<E: Eng>(mon: &Mon, q: u64, t: u64) {
    mon.stage(&format!("scalars and tags/{}", E::name()), q, t, |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let m = MODES[c.idx as usize / KINDS.len() % 2];
        let o = build::<E>(&mut c.rng, k, 4);
        let a = o.atoms();
        let e = o.enc(m);
        let plain: Vec<u8> = a.iter().flat_map(|x| x.bytes(m)).collect();
        if plain != e {
            c.count("objects in an unknown layout");
            return;
        }
        c.seen(&e);
        let p = Fr::<E>::MODULUS.to_bytes_le();
        let mut at = 0;
        for (j, x) in a.iter().enumerate() {
            let b = x.bytes(m);
            let mut o2 = e.clone();
            let mut bad = vec![];
            match x {
                // Points of a shadow engine are encoded as scalars, too.
                Atom::F(_) | Atom::G1(_) | Atom::G2(_) => {
                    let mut v = b.clone();
                    let mut carry = 0u16;
                    for (d, s) in v.iter_mut().zip(&p) {
                        carry += *d as u16 + *s as u16;
                        *d = carry as u8;
                        carry >>= 8;
                    }
                    if carry == 0 {
                        bad.push(v);
                    }
                    bad.push(p[..b.len()].to_vec());
                    bad.push(vec![0xff; b.len()]);
                }
                Atom::Tag(_) => bad.push(vec![4 + pick(&mut c.rng, 252) as u8]),
                Atom::Gt(_) => bad.push(vec![0; b.len()]),
                Atom::Len(_) => {}
            }
            for f in bad {
                o2[at..at + b.len()].copy_from_slice(&f);
                let r = c.must("deserialize", || Obj::<E>::read(k, &o2[..], m, Validate::Yes));
                c.check(r.is_err(), || format!("{k:?} on {} accepted with an invalid {} (part {j})", E::name(), x.name()));
            }
            at += b.len();
        }
        for n in 0..e.len() {
            let r = c.must("deserialize", || Obj::<E>::read(k, &e[..n], m, Validate::Yes));
            c.check(r.is_err(), || format!("{k:?} on {}: accepted with {n} of {} bytes", E::name(), e.len()));
        }
    });
}
fn tags(mon: &Mon) {
    mon.stage_all("all tag bytes", 256, |c| {
        let b = c.idx as u8;
        for m in MODES {
            for v in [Validate::Yes, Validate::No] {
                let r = c.must("deserialize", || EquType::deserialize_with_mode(&[b][..], m, v));
                c.check(r.is_ok() == (b < 4), || format!("tag {b} decodes to {r:?}"));
                if let Ok(t) = r {
                    c.check(ser(&t) == [b], || format!("tag {b} decodes to {t:?}, which encodes to {:?}", ser(&t)));
                    c.check(t == TYPES[b as usize].equ(), || format!("tag {b} decodes to {t:?}"));
                }
            }
            for n in 0..3 {
                let r = c.must("deserialize", || Vec::<EquType>::deserialize_with_mode(&[&[n + 1, 0, 0, 0, 0, 0, 0, 0][..], &vec![b; n as usize][..]].concat()[..], m, Validate::Yes));
                c.check(r.is_err(), || format!("{n} tags accepted as a list of {}", n + 1));
            }
        }
        c.seen(&b);
    });
}

const RULE: &str = "Each evaluation is one damaged encoding given to the real validated deserialization: refusal is required for every injected fault, and for mutations either refusal or a value that encodes to the same bytes and whose parts are valid by an oracle of its own (curve equation, multiplication by the group order). Distinct = distinct damaged encodings.";
fn check(mon: &Mon) {
    tags(mon);
    parts(mon, 1_600, 40_000);
    truncated(mon, 1_000, 30_000);
    mutated(mon, 1_600, 60_000);
    built(mon, 8_000, 200_000);
    long(mon, 1_800, 40_000);
    shadow::<E59>(mon, 200_000, 6_000_000);
    shadow::<EW>(mon, 20_000, 400_000);
}
fn main() {
    gsmon::run("C14", RULE, check)
}
