//! C18 operations have no memory.
use gsmon::prelude::*;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

/// The result of an operation, and what the reference model says against it.
type Res = (Result<Vec<u8>, String>, Option<String>);
/// One operation on shared inputs: as they lie there, or on copies in places that other operations used before.
type OpFn = Arc<dyn Fn(Place) -> Res + Send + Sync>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    Shared,
    /// In boxes of their own, freed afterwards, so that the next one is likely to get the same addresses.
    Fresh,
    /// Assigned to a place that keeps its allocations.
    Slot,
    /// Moved once more between uses.
    Moved,
}
const PLACES: [Place; 4] = [Place::Shared, Place::Fresh, Place::Slot, Place::Moved];

struct World<E: Eng> {
    rcs: Vec<RCrs<Fr<E>>>,
    keys: Vec<CRS<E>>,
    reqs: Vec<REq<Fr<E>>>,
    eqs: Vec<LEq<E>>,
    wit: Vec<(Vec<Fr<E>>, Vec<Fr<E>>)>,
    vars: Vec<(Vars<E>, Vars<E>)>,
    /// (equation, CRS, proof)
    proofs: Vec<(usize, usize, CProof<E>)>,
    mats: Vec<(Matrix<Com1<E>>, Matrix<Com2<E>>, Matrix<Fr<E>>)>,
    scratch: Mutex<Vec<Box<(CRS<E>, Vec<Com1<E>>)>>>,
    slot: Mutex<Option<(CRS<E>, LEq<E>, CProof<E>)>>,
}
impl<E: Eng> World<E> {
    fn bytes(&self) -> Vec<u8> {
        let mut b: Vec<u8> = self.keys.iter().flat_map(ser).collect();
        b.extend(format!("{:?}", self.keys).bytes());
        b.extend(format!("{:?}", self.eqs).bytes());
        b.extend(format!("{:?}", self.vars).bytes());
        b.extend(format!("{:?}", self.proofs).bytes());
        b.extend(format!("{:?}", self.mats).bytes());
        b
    }
}
/// CRSs that share parts with each other.
fn twins<F: PrimeField>(r: &mut StdRng, n: usize) -> Vec<RCrs<F>> {
    let first = [Kind::Binding, Kind::Hiding][pick(r, 2)];
    let mut o: Vec<RCrs<F>> = vec![gen::crs(r, first)];
    while o.len() < n {
        let mut k = o[pick(r, o.len())].clone();
        let d: F = gen::delta(r);
        match pick(r, 9) {
            // The hiding (or binding) counterpart of one side or both.
            0 => {
                k.u[1].1 -= k.g1;
                k.v[1].1 -= k.g2;
            }
            1 => k.u[1].1 += k.g1,
            2 => k.v[1].1 -= k.g2,
            3 => k.u[1] = sc2(d, k.u[1]),
            4 => k.v[1] = sc2(d, k.v[1]),
            5 => k.u = gen::crs::<F>(r, Kind::Binding).u,
            6 => k.v = gen::crs::<F>(r, Kind::Binding).v,
            7 => {
                // The same key with other generators.
                k.g1 *= d;
                k.g2 *= d;
            }
            _ => {
                let kind = [Kind::Binding, Kind::Hiding, Kind::Arbitrary][pick(r, 3)];
                k = gen::crs(r, kind)
            }
        }
        o.push(k);
    }
    o
}
fn equations<F: PrimeField>(r: &mut StdRng, n: usize, max: usize, sp: &[F]) -> Vec<(REq<F>, Vec<F>, Vec<F>)> {
    let mut o: Vec<(REq<F>, Vec<F>, Vec<F>)> = vec![];
    while o.len() < n {
        if !o.is_empty() && coin(r, 1, 2) {
            // Shares most of its parts with an earlier one.
            let (mut q, mut x, mut y) = o[pick(r, o.len())].clone();
            let d: F = gen::delta(r);
            match pick(r, 7) {
                0 => {
                    let k = pick(r, q.a.len());
                    q.a[k] += d;
                }
                1 => {
                    let k = pick(r, q.b.len());
                    q.b[k] += d;
                }
                2 => {
                    let (i, j) = (pick(r, q.b.len()), pick(r, q.a.len()));
                    q.gamma[i][j] += d;
                }
                3 => {
                    let k = pick(r, x.len());
                    x[k] += d;
                }
                4 => {
                    let k = pick(r, y.len());
                    y[k] += d;
                }
                5 => {
                    q.t += d;
                    o.push((q, x, y));
                    continue;
                }
                _ => q.ty = TYPES[pick(r, 4)],
            }
            q.t = q.eval(&x, &y);
            o.push((q, x, y));
        } else {
            let ty = TYPES[pick(r, 4)];
            let (m, n) = gen::dims_wide(r, max);
            o.push(gen::equation(r, ty, m, n, sp));
        }
    }
    o
}
fn world<E: Eng>(r: &mut StdRng, crss: usize, eqs: usize, max: usize, seed: u64) -> World<E> {
    let rcs = twins::<Fr<E>>(r, crss);
    let keys: Vec<CRS<E>> = rcs.iter().map(lift_crs::<E>).collect();
    let sp = crs_special(&rcs[0]);
    let all = equations(r, eqs, max, &sp);
    let vars: Vec<_> = all.iter().map(|(q, x, y)| (vars_x::<E>(q.ty, x), vars_y::<E>(q.ty, y))).collect();
    let leqs: Vec<LEq<E>> = all.iter().map(|a| LEq::lift(&a.0)).collect();
    let mut proofs = vec![];
    for k in 0..eqs + crss {
        let (e, c) = if k < eqs { (k, pick(r, crss)) } else { (pick(r, eqs), k - eqs) };
        let p = leqs[e].commit_and_prove(&vars[e].0, &vars[e].1, &keys[c], &mut LogRng::new(seed ^ k as u64));
        proofs.push((e, c, p));
    }
    let mut p = Pool::<Fr<E>>::random();
    let mats = (0..3)
        .map(|_| {
            let (i, k) = gen::dims(r, max);
            let (j, _) = gen::dims(r, max);
            let a = (0..i).map(|_| (0..k).map(|_| l1::<E>(&(p.next(r), p.next(r)))).collect()).collect();
            let b = (0..i).map(|_| (0..k).map(|_| l2::<E>(&(p.next(r), p.next(r)))).collect()).collect();
            (a, b, (0..k).map(|_| p.vec(r, j)).collect())
        })
        .collect();
    World { rcs, keys, reqs: all.iter().map(|a| a.0.clone()).collect(), eqs: leqs, wit: all.into_iter().map(|a| (a.1, a.2)).collect(), vars, proofs, mats, scratch: Mutex::new(vec![]), slot: Mutex::new(None) }
}
/// Calls `f` with the CRS, equation and proof (of an equation and CRS of their own) in the given place.
fn placed<E: Eng, T>(w: &World<E>, pl: Place, k: usize, e: usize, p: usize, f: impl Fn(&CRS<E>, &LEq<E>, &CProof<E>) -> T) -> T {
    let (key, eq, pf) = (&w.keys[k], &w.eqs[e], &w.proofs[p].2);
    match pl {
        Place::Shared => f(key, eq, pf),
        Place::Fresh => {
            let b = Box::new((key.clone(), eq.clone(), pf.clone()));
            f(&b.0, &b.1, &b.2)
        }
        Place::Slot => {
            let mut s = w.slot.lock().unwrap_or_else(|e| e.into_inner());
            match &mut *s {
                Some(s) => {
                    s.0.u.clone_from(&key.u);
                    s.0.v.clone_from(&key.v);
                    (s.0.g1_gen, s.0.g2_gen, s.0.gt_gen) = (key.g1_gen, key.g2_gen, key.gt_gen);
                    s.2.clone_from(pf);
                    match (&mut s.1, eq) {
                        (LEq::P(a), LEq::P(b)) => {
                            a.a_consts.clone_from(&b.a_consts);
                            a.b_consts.clone_from(&b.b_consts);
                            a.gamma.clone_from(&b.gamma);
                            a.target = b.target;
                        }
                        (LEq::M1(a), LEq::M1(b)) => {
                            a.a_consts.clone_from(&b.a_consts);
                            a.b_consts.clone_from(&b.b_consts);
                            a.gamma.clone_from(&b.gamma);
                            a.target = b.target;
                        }
                        (LEq::M2(a), LEq::M2(b)) => {
                            a.a_consts.clone_from(&b.a_consts);
                            a.b_consts.clone_from(&b.b_consts);
                            a.gamma.clone_from(&b.gamma);
                            a.target = b.target;
                        }
                        (LEq::Q(a), LEq::Q(b)) => {
                            a.a_consts.clone_from(&b.a_consts);
                            a.b_consts.clone_from(&b.b_consts);
                            a.gamma.clone_from(&b.gamma);
                            a.target = b.target;
                        }
                        (a, b) => *a = b.clone(),
                    }
                }
                s => *s = Some((key.clone(), eq.clone(), pf.clone())),
            }
            let s = s.as_ref().unwrap();
            f(&s.0, &s.1, &s.2)
        }
        Place::Moved => {
            let v = vec![(key.clone(), eq.clone(), pf.clone())];
            let b = Box::new(v.into_iter().next().unwrap());
            let c = *b;
            f(&c.0, &c.1, &c.2)
        }
    }
}
fn model<E: Eng>(ok: bool, what: impl FnOnce() -> String) -> Option<String> {
    if E::SHADOW && !ok {
        Some(what())
    } else {
        None
    }
}
/// An operation and a line that describes it.
fn operation<E: Eng>(w: &Arc<World<E>>, r: &mut StdRng, seed: u64) -> (String, OpFn) {
    let (nk, ne, np) = (w.keys.len(), w.eqs.len(), w.proofs.len());
    let (k, e, p) = (pick(r, nk), pick(r, ne), pick(r, np));
    let w = w.clone();
    let kind = pick(r, 20);
    let other = pick(r, nk);
    let name = E::name();
    match kind {
        0 => (
            format!("{name}: generate_crs"),
            Arc::new(move |_| {
                let k = lib(|| CRS::<E>::generate_crs(&mut LogRng::new(seed)));
                let m = match &k {
                    Ok(k) if E::SHADOW => {
                        let r = read_crs(k);
                        model::<E>(k.u.len() == 2 && k.v.len() == 2 && r.det_u().is_zero() && r.det_v().is_zero() && r.u[0].0 == r.g1 && r.v[0].0 == r.g2, || format!("the CRS is not binding: {r:?}"))
                    }
                    _ => None,
                };
                (k.map(|k| ser(&k)), m)
            }),
        ),
        1..=3 => {
            let y_side = coin(r, 1, 2);
            let single = coin(r, 1, 3);
            (
                format!("{name}: commit to the {} variables of equation {e} under CRS {k}, {}", if y_side { "second" } else { "first" }, if single { "one by one" } else { "in a batch" }),
                Arc::new(move |pl| {
                    placed(&w, pl, k, e, p, |key, _, _| {
                        let (ty, rc) = (w.reqs[e].ty, &w.rcs[k]);
                        if y_side {
                            let o = lib(|| if single { singles_y(ty, &w.vars[e].1, key, &mut LogRng::new(seed)) } else { batch_y(ty, &w.vars[e].1, key, &mut LogRng::new(seed)) });
                            let m = match &o {
                                Ok(o) if E::SHADOW => {
                                    let rnd = rand_of2(o);
                                    let good = o.coms.len() == w.wit[e].1.len() && rnd.len() == o.coms.len() && o.coms.iter().enumerate().all(|(j, c)| rnd[j].len() == ty.ky() && d2::<E>(c) == rc.com_y(ty, w.wit[e].1[j], &rnd[j]));
                                    model::<E>(good, || format!("the commitments are not those of the values {:?} under {rc:?}", w.wit[e].1))
                                }
                                _ => None,
                            };
                            (o.map(|o| ser(&o)), m)
                        } else {
                            let o = lib(|| if single { singles_x(ty, &w.vars[e].0, key, &mut LogRng::new(seed)) } else { batch_x(ty, &w.vars[e].0, key, &mut LogRng::new(seed)) });
                            let m = match &o {
                                Ok(o) if E::SHADOW => {
                                    let rnd = rand_of1(o);
                                    let good = o.coms.len() == w.wit[e].0.len() && rnd.len() == o.coms.len() && o.coms.iter().enumerate().all(|(j, c)| rnd[j].len() == ty.kx() && d1::<E>(c) == rc.com_x(ty, w.wit[e].0[j], &rnd[j]));
                                    model::<E>(good, || format!("the commitments are not those of the values {:?} under {rc:?}", w.wit[e].0))
                                }
                                _ => None,
                            };
                            (o.map(|o| ser(&o)), m)
                        }
                    })
                }),
            )
        }
        4..=7 => (
            format!("{name}: commit and prove equation {e} ({}) under CRS {k}", w.reqs[e].ty.name()),
            Arc::new(move |pl| {
                placed(&w, pl, k, e, p, |key, eq, _| {
                    let o = lib(|| eq.commit_and_prove(&w.vars[e].0, &w.vars[e].1, key, &mut LogRng::new(seed)));
                    let m = match &o {
                        Ok(o) if E::SHADOW => {
                            let (q, rc) = (&w.reqs[e], &w.rcs[k]);
                            let got = read_proof::<E>(o);
                            let want = q.holds(&w.wit[e].0, &w.wit[e].1);
                            model::<E>(!want || q.accepts(rc, &got), || format!("the proof of a satisfied equation {q:?} does not satisfy the verification equation under {rc:?}"))
                        }
                        _ => None,
                    };
                    (o.map(|o| cproof_bytes(&o)), m)
                })
            }),
        ),
        8 => (
            format!("{name}: prove equation {} against the commitments of proof {p}, under CRS {}", w.proofs[p].0, w.proofs[p].1),
            Arc::new(move |pl| {
                let (e, k) = (w.proofs[p].0, w.proofs[p].1);
                placed(&w, pl, k, e, p, |key, eq, pf| {
                    let o = lib(|| eq.prove(&w.vars[e].0, &w.vars[e].1, &pf.xcoms, &pf.ycoms, key, &mut LogRng::new(seed)));
                    let m = match &o {
                        Ok(o) if E::SHADOW => {
                            let (q, rc) = (&w.reqs[e], &w.rcs[k]);
                            let got = read_proof::<E>(&CProof { xcoms: pf.xcoms.clone(), ycoms: pf.ycoms.clone(), equ_proofs: vec![o.clone()] });
                            model::<E>(!q.holds(&w.wit[e].0, &w.wit[e].1) || q.accepts(rc, &got), || format!("the proof of a satisfied equation {q:?} does not satisfy the verification equation under {rc:?}"))
                        }
                        _ => None,
                    };
                    (o.map(|o| ser(&o)), m)
                })
            }),
        ),
        9..=14 => {
            // Its own equation and CRS, a twin of one of them, or anything of the same shape.
            let (mut e, mut k) = (w.proofs[p].0, w.proofs[p].1);
            match pick(r, 4) {
                0 => k = other,
                1 => {
                    let same: Vec<usize> = (0..ne).filter(|o| w.reqs[*o].ty == w.reqs[e].ty && w.reqs[*o].m() == w.reqs[e].m() && w.reqs[*o].n() == w.reqs[e].n()).collect();
                    e = same[pick(r, same.len())];
                }
                _ => {}
            }
            (
                format!("{name}: verify proof {p} (of equation {} under CRS {}) for equation {e} under CRS {k}", w.proofs[p].0, w.proofs[p].1),
                Arc::new(move |pl| {
                    placed(&w, pl, k, e, p, |key, eq, pf| {
                        let v = lib(|| eq.verify_raw(pf, key));
                        let m = match &v {
                            Ok(v) if E::SHADOW => {
                                let want = w.reqs[e].accepts(&w.rcs[k], &read_proof::<E>(pf));
                                model::<E>(want == *v, || format!("verdict {v}, the verification equation gives {want}"))
                            }
                            Err(x) => Some(format!("a well-shaped proof makes the verifier panic: {x}")),
                            _ => None,
                        };
                        (v.map(|v| vec![v as u8]), m)
                    })
                }),
            )
        }
        15 | 16 => (
            format!("{name}: scalar maps under CRS {k}"),
            Arc::new(move |pl| {
                placed(&w, pl, k, e, p, |key, _, _| {
                    let x = &w.wit[e].0;
                    let o = lib(|| {
                        let a = Com1::<E>::batch_scalar_linear_map(x, key);
                        let b = Com2::<E>::batch_scalar_linear_map(x, key);
                        let t = ComT::<E>::linear_map_quad(&x[0], key);
                        let t1 = ComT::<E>::linear_map_MSMEG1(&E::g1(&x[0]), key);
                        let t2 = ComT::<E>::linear_map_MSMEG2(&E::g2(&x[0]), key);
                        (a, b, t, t1, t2)
                    });
                    let m = match &o {
                        Ok((a, b, t, _, _)) if E::SHADOW => {
                            let rc = &w.rcs[k];
                            let good = a.iter().zip(x).all(|(c, x)| d1::<E>(c) == sc2(*x, rc.us())) && b.iter().zip(x).all(|(c, x)| d2::<E>(c) == sc2(*x, rc.vs()));
                            let tt = ten(rc.us(), sc2(x[0], rc.vs()));
                            let mt = t.as_matrix();
                            let good = good && (0..4).all(|i| mt[i / 2][i % 2] == E::gt(&tt[i]));
                            model::<E>(good, || format!("the maps of {x:?} under {rc:?} are wrong"))
                        }
                        _ => None,
                    };
                    (o.map(|(a, b, t, t1, t2)| [ser(&a), ser(&b), ser(&t.as_matrix()), ser(&t1.as_matrix()), ser(&t2.as_matrix())].concat()), m)
                })
            }),
        ),
        17 => {
            let i = pick(r, w.mats.len());
            let par = coin(r, 1, 2);
            (
                format!("{name}: products and pairing sum of matrices {i}, parallel {par}"),
                Arc::new(move |_| {
                    let (a, b, s) = &w.mats[i];
                    let o = lib(|| {
                        let x = a.right_mul(s, par);
                        let y = b.right_mul(s, par);
                        let z = Mat::transpose(&x).left_mul(&Mat::transpose(s), !par).len();
                        let l: Vec<Com1<E>> = a.iter().flatten().copied().collect();
                        let m: Vec<Com2<E>> = b.iter().flatten().copied().collect();
                        [ser(&x), ser(&y), vec![z as u8], ser(&ComT::<E>::pairing_sum(&l, &m).as_matrix())].concat()
                    });
                    // The shapes of the last product only sometimes fit: refusing is the right answer otherwise.
                    (o.or_else(|_| Ok(b"refused".to_vec())), None)
                }),
            )
        }
        18 => (
            format!("{name}: write and read back CRS {k}, proof {p}"),
            Arc::new(move |pl| {
                placed(&w, pl, k, e, p, |key, _, pf| {
                    let o = lib(|| {
                        let mut b = vec![];
                        key.serialize_compressed(&mut b).unwrap();
                        let key2 = CRS::<E>::deserialize_compressed(&b[..]).map(|k| ser(&k));
                        let mut b = vec![];
                        pf.xcoms.serialize_compressed(&mut b).unwrap();
                        let x2 = Commit1::<E>::deserialize_compressed(&b[..]).map(|k| ser(&k));
                        (key2.ok(), x2.ok())
                    });
                    let m = match &o {
                        Ok((a, b)) => model::<E>(a.as_ref() == Some(&ser(&w.keys[k])) && b.as_ref() == Some(&ser(&w.proofs[p].2.xcoms)), || "reading back gives something else".into()),
                        Err(x) => Some(format!("reading back panics: {x}")),
                    };
                    (o.map(|(a, b)| [a.unwrap_or_default(), b.unwrap_or_default()].concat()), m)
                })
            }),
        ),
        _ => {
            let i = pick(r, w.mats.len());
            (
                format!("{name}: sums of the elements of matrices {i}"),
                Arc::new(move |_| {
                    let (a, b, _) = &w.mats[i];
                    let o = lib(|| {
                        let x: Com1<E> = a.iter().flatten().copied().sum();
                        let y: Com2<E> = b.iter().flatten().copied().sum();
                        [ser(&x), ser(&y), ser(&ComT::<E>::pairing(x, y).as_matrix())].concat()
                    });
                    (o, None)
                }),
            )
        }
    }
}
/// Panics after some draws: a caller's generator may fail.
struct Failing(LogRng, usize);
impl RngCore for Failing {
    fn next_u64(&mut self) -> u64 {
        if self.0.draws >= self.1 {
            panic!("fuse: the caller's generator fails");
        }
        self.0.next_u64()
    }
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// A call that fails part-way through, in one of many ways; true if it did.
fn disturb<E: Eng>(w: &World<E>, r: &mut StdRng) -> bool {
    let (k, e, p) = (pick(r, w.keys.len()), pick(r, w.eqs.len()), pick(r, w.proofs.len()));
    let seed = r.next_u64();
    let (x, y) = &w.vars[e];
    let (key, eq) = (&w.keys[k], &w.eqs[e]);
    let out = match pick(r, 9) {
        0 => lib(|| drop(eq.commit_and_prove(x, y, key, &mut Failing(LogRng::new(seed), (seed % 12) as usize)))),
        1 => lib(|| drop(CRS::<E>::generate_crs(&mut Failing(LogRng::new(seed), (seed % 6) as usize)))),
        2 => {
            let mut t = w.proofs[p].2.clone();
            t.xcoms.coms.pop();
            lib(|| drop(w.eqs[w.proofs[p].0].verify_raw(&t, key)))
        }
        3 => {
            let mut t = w.proofs[p].2.clone();
            t.equ_proofs.clear();
            lib(|| drop(w.eqs[w.proofs[p].0].verify_raw(&t, key)))
        }
        4 => {
            // An engine operation fails in the middle of a call (chaos engines only).
            fuse(1 + seed % 60);
            let o = lib(|| drop(eq.commit_and_prove(x, y, key, &mut LogRng::new(seed))));
            fuse(0);
            o
        }
        5 => {
            fuse(1 + seed % 60);
            let o = lib(|| drop(w.eqs[w.proofs[p].0].verify_raw(&w.proofs[p].2, key)));
            fuse(0);
            o
        }
        6 => {
            let (a, _, s) = &w.mats[pick(r, w.mats.len())];
            let mut s = s.clone();
            s.pop();
            lib(|| drop(a.right_mul(&s, true)))
        }
        7 => {
            let o = pick(r, w.eqs.len());
            lib(|| drop(w.eqs[o].verify_raw(&w.proofs[p].2, key)))
        }
        _ => {
            // A small length, so that nobody allocates what an attacker asks for; then noise.
            let b: Vec<u8> = [2, 0, 0, 0, 0, 0, 0, 0].into_iter().chain((0..200).map(|_| r.gen())).collect();
            lib(|| assert!(CRS::<E>::deserialize_compressed(&b[..]).is_ok()))
        }
    };
    // Heap churn: boxes with keys that the allocator reuses.
    let mut s = w.scratch.lock().unwrap_or_else(|e| e.into_inner());
    if s.len() > 8 || coin(r, 1, 3) {
        let n = s.len();
        if n > 0 {
            s.swap_remove(pick(r, n));
        }
    } else {
        s.push(Box::new((w.keys[pick(r, w.keys.len())].clone(), w.proofs[p].2.xcoms.coms.clone())));
    }
    out.is_err()
}
struct Plan {
    ops: Vec<(String, OpFn)>,
    disturb: Arc<dyn Fn(&mut StdRng) -> bool + Send + Sync>,
    inputs: Arc<dyn Fn() -> Vec<u8> + Send + Sync>,
}
fn plan<E: Eng>(r: &mut StdRng, crss: usize, eqs: usize, max: usize, n: usize, seed: u64) -> Plan {
    let w = Arc::new(world::<E>(r, crss, eqs, max, seed));
    let ops = (0..n).map(|k| operation(&w, r, mix(seed, k as u64))).collect();
    let (a, b) = (w.clone(), w);
    Plan { ops, disturb: Arc::new(move |r| disturb(&a, r)), inputs: Arc::new(move || b.bytes()) }
}
/// Plans of several engines as one.
fn merge(r: &mut StdRng, mut ps: Vec<Plan>) -> Plan {
    let ds: Vec<_> = ps.iter().map(|p| p.disturb.clone()).collect();
    let is: Vec<_> = ps.iter().map(|p| p.inputs.clone()).collect();
    let mut ops = vec![];
    while ps.iter().any(|p| !p.ops.is_empty()) {
        let k = pick(r, ps.len());
        if let Some(o) = ps[k].ops.pop() {
            ops.push(o);
        }
    }
    Plan { ops, disturb: Arc::new(move |r| ds[pick(r, ds.len())](r)), inputs: Arc::new(move || is.iter().flat_map(|i| i()).collect()) }
}
fn shuffle<T>(r: &mut StdRng, v: &mut [T]) {
    for k in (1..v.len()).rev() {
        v.swap(k, pick(r, k + 1));
    }
}
/// Runs the operations in many histories; every one gives the same result in all of them.
fn histories(c: &mut Case, p: &Plan, rounds: usize) {
    let n = p.ops.len();
    let before = (p.inputs)();
    let base: Vec<Res> = p.ops.iter().map(|o| (o.1)(Place::Shared)).collect();
    let agree = |c: &Case, how: &str, k: usize, res: &Res| {
        c.check(res.0 == base[k].0, || {
            format!(
                "{how}: {} gives {} where the first history gave {}",
                p.ops[k].0,
                match &res.0 {
                    Ok(b) if b.len() == 1 => format!("{b:?}"),
                    Ok(b) => format!("{} bytes", b.len()),
                    Err(e) => format!("a panic ({e})"),
                },
                match &base[k].0 {
                    Ok(b) if b.len() == 1 => format!("{b:?}"),
                    Ok(b) => format!("{} bytes", b.len()),
                    Err(e) => format!("a panic ({e})"),
                }
            )
        });
        if let Some(m) = &res.1 {
            c.fail(format!("{how}: {}: {m}", p.ops[k].0));
        }
        c.mon.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    };
    for (k, r) in base.iter().enumerate() {
        if let Some(m) = &r.1 {
            c.fail(format!("first history: {}: {m}", p.ops[k].0));
        }
        if let Err(e) = &r.0 {
            c.fail(format!("first history: {} panics: {e}", p.ops[k].0));
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    for round in 0..rounds {
        let how = pick(&mut c.rng, 8);
        c.mon.count(["histories: reversed", "histories: shuffled in other places", "histories: with failing calls", "histories: every call twice", "histories: four threads", "histories: one thread per call", "histories: alternating with one operation", "histories: repeated"][how], 1);
        let what = |s: &str| format!("{s} (history {round})");
        match how {
            0 => {
                for k in (0..n).rev() {
                    agree(c, &what("in reverse order"), k, &(p.ops[k].1)(Place::Shared));
                }
            }
            1 => {
                shuffle(&mut c.rng, &mut order);
                for k in &order {
                    let pl = PLACES[pick(&mut c.rng, 4)];
                    agree(c, &what(&format!("shuffled, arguments {pl:?}")), *k, &(p.ops[*k].1)(pl));
                }
            }
            2 => {
                shuffle(&mut c.rng, &mut order);
                for k in &order {
                    for _ in 0..pick(&mut c.rng, 3) {
                        let failed = (p.disturb)(&mut c.rng);
                        c.mon.count(if failed { "disturbing calls that panicked" } else { "disturbing calls that returned" }, 1);
                    }
                    let pl = PLACES[pick(&mut c.rng, 4)];
                    agree(c, &what(&format!("after failing calls, arguments {pl:?}")), *k, &(p.ops[*k].1)(pl));
                }
            }
            3 => {
                for k in 0..n {
                    let (a, b) = (PLACES[pick(&mut c.rng, 4)], PLACES[pick(&mut c.rng, 4)]);
                    agree(c, &what("called twice"), k, &(p.ops[k].1)(a));
                    agree(c, &what("called a second time"), k, &(p.ops[k].1)(b));
                }
            }
            4 => {
                let mut orders = vec![];
                for _ in 0..4 {
                    shuffle(&mut c.rng, &mut order);
                    orders.push((order.clone(), PLACES[pick(&mut c.rng, 4)]));
                }
                let out: Vec<Vec<(usize, Res)>> = std::thread::scope(|s| {
                    let h: Vec<_> = orders.iter().map(|(o, pl)| s.spawn(move || o.iter().map(|k| (*k, (p.ops[*k].1)(*pl))).collect::<Vec<_>>())).collect();
                    h.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (k, r) in out.iter().flatten() {
                    agree(c, &what("on four threads at a time"), *k, r);
                }
            }
            5 => {
                for k in order.iter().take(20) {
                    let r = std::thread::scope(|s| s.spawn(|| (p.ops[*k].1)(Place::Fresh)).join().unwrap());
                    agree(c, &what("on a thread of its own"), *k, &r);
                }
            }
            6 => {
                let a = pick(&mut c.rng, n);
                for k in 0..n {
                    agree(c, &what("alternating"), k, &(p.ops[k].1)(Place::Slot));
                    agree(c, &what("alternating"), a, &(p.ops[a].1)(Place::Slot));
                }
            }
            _ => {
                let k = pick(&mut c.rng, n);
                let pl = PLACES[pick(&mut c.rng, 4)];
                for _ in 0..30 {
                    agree(c, &what("repeated"), k, &(p.ops[k].1)(pl));
                }
            }
        }
    }
    c.check((p.inputs)() == before, || "arguments passed by reference were changed".into());
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.ops.iter().for_each(|o| o.0.hash(&mut h));
    c.seen(&(h.finish(), before.len()));
    c.mon.count("operations executed again", (rounds * n) as u64);
}
fn stage<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize, n: usize, rounds: usize) {
    mon.stage(&format!("histories/{}", E::name()), q, t, |c| {
        let (k, e) = (2 + pick(&mut c.rng, 4), 2 + pick(&mut c.rng, 5));
        let len = 2 + pick(&mut c.rng, n);
        let s = c.sub(1);
        let p = c.must("honest calls", || plan::<E>(&mut seeded(s), k, e, max, len, s));
        c.sample(|| format!("{} operations over {k} CRSs and {e} equations, {rounds} histories; the first: {}", p.ops.len(), p.ops[0].0));
        histories(c, &p, rounds);
    });
}
/// Many CRSs and equations in one history, so that anything that is kept must be replaced.
fn wide<E: Eng>(mon: &Mon, q: u64, t: u64, crss: usize) {
    mon.stage(&format!("wide histories/{}", E::name()), q, t, |c| {
        let s = c.sub(1);
        let crss = 1 + pick(&mut c.rng, crss);
        let p = c.must("honest calls", || plan::<E>(&mut seeded(s), crss, crss / 2 + 1, 3, 3 * crss, s));
        histories(c, &p, 3);
    });
}
fn mixed(mon: &Mon, q: u64, t: u64) {
    mon.stage("several engines in one history", q, t, |c| {
        let s = c.sub(1);
        let mut r = seeded(s);
        let n = 4 + pick(&mut c.rng, 10);
        let p = c.must("honest calls", || {
            let mut ps = vec![plan::<E59>(&mut r, 3, 4, 4, n, s), plan::<E7>(&mut r, 3, 4, 4, n, s), plan::<EChaos>(&mut r, 2, 3, 4, n, s)];
            if s % 4 == 0 {
                ps.push(plan::<EW>(&mut r, 2, 3, 3, n, s));
            }
            merge(&mut r, ps)
        });
        histories(c, &p, 4);
    });
}
/// Very long histories on one thread: counters, buffers and tables that fill up.
fn long(mon: &Mon, q: u64, t: u64, calls: usize) {
    mon.stage("long histories/shadow59", q, t, |c| {
        let s = c.sub(1);
        let p = c.must("honest calls", || plan::<E59>(&mut seeded(s), 3, 4, 3, 8, s));
        let base: Vec<Res> = p.ops.iter().map(|o| (o.1)(Place::Shared)).collect();
        std::thread::scope(|sc| {
            sc.spawn(|| {
                let mut r = seeded(s ^ 1);
                let k0 = pick(&mut r, p.ops.len());
                for i in 0..calls {
                    let k = if c.idx % 2 == 0 { k0 } else { pick(&mut r, p.ops.len()) };
                    let g = (p.ops[k].1)(Place::Shared);
                    if !c.check(g.0 == base[k].0 && g.1.is_none(), || format!("call {i} of a long history: {} gives another result; {:?}", p.ops[k].0, g.1)) {
                        return;
                    }
                }
            });
        });
        c.seen(&(s, calls));
    });
}
/// The bytes of operation `k` of a plan, in a process that did nothing else.
fn single(seed: u64, k: usize, real: bool) -> String {
    let p = the_plan(seed, real);
    let r = (p.ops[k % p.ops.len()].1)(Place::Shared);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    r.0.hash(&mut h);
    format!("{:016x}", h.finish())
}
fn the_plan(seed: u64, real: bool) -> Plan {
    if real {
        plan::<Bls>(&mut seeded(seed), 2, 2, 2, 6, seed)
    } else {
        plan::<E59>(&mut seeded(seed), 3, 4, 5, 12, seed)
    }
}
fn processes(mon: &Mon, q: u64, t: u64) {
    mon.stage("against new processes", q, t, |c| {
        let real = c.idx % 3 == 2;
        let s = c.sub(1) >> 1;
        let p = c.must("honest calls", || the_plan(s, real));
        // The operations after all the others, on a process with a history.
        let last: Vec<Res> = (0..p.ops.len()).rev().map(|k| (p.ops[k].1)(Place::Fresh)).collect();
        let exe = std::env::current_exe().unwrap();
        for j in 0..3 {
            let k = pick(&mut c.rng, p.ops.len());
            let o = std::process::Command::new(&exe).env("GSMON_CHILD", format!("{s}:{k}:{}", real as u8)).output().expect("child process");
            let got = String::from_utf8_lossy(&o.stdout).trim().to_string();
            if got.len() != 16 {
                c.count("children without an answer");
                continue;
            }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            last[p.ops.len() - 1 - k].0.hash(&mut h);
            c.count("child processes");
            c.check(got == format!("{:016x}", h.finish()), || format!("{} gives another result here than in a process that does nothing else (plan {s}, {j})", p.ops[k].0));
        }
        c.seen(&s);
    });
}
const RULE: &str = "Each case is a set of operations (CRS generation, commitments, proofs, verifications, maps, matrix products, encodings) over shared CRSs and equations that have parts in common; it is executed in order, reversed, shuffled, twice, alternating, on four threads at a time, after calls that panicked part-way (failing generators, failing engine operations, malformed arguments) and with arguments at reused addresses, mutated in place or moved; every result must equal the first byte for byte and satisfy the reference model on discrete logarithms. Distinct = distinct sets of operations.";
fn check(mon: &Mon) {
    processes(mon, 24, 600);
    stage::<E59>(mon, 10_000, 200_000, 8, 24, 6);
    stage::<EChaos>(mon, 5_000, 100_000, 6, 24, 6);
    stage::<EW>(mon, 300, 10_000, 5, 16, 5);
    stage::<E7>(mon, 5_000, 100_000, 5, 24, 6);
    stage::<Bls>(mon, 16, 500, 2, 6, 3);
    mixed(mon, 2_500, 50_000);
    wide::<E59>(mon, 400, 8_000, 150);
    wide::<Bls>(mon, 3, 60, 6);
    long(mon, 24, 200, 20_000);
}
fn main() {
    if let Ok(s) = std::env::var("GSMON_CHILD") {
        let v: Vec<u64> = s.split(':').filter_map(|x| x.parse().ok()).collect();
        println!("{}", single(v[0], v[1] as usize, v[2] == 1));
        return;
    }
    gsmon::run("C18", RULE, check)
}
