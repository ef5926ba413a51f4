
COUNT = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static BYTES: AtomicU64 = AtomicU64::new(0);
static KEPT: AtomicU64 = AtomicU64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as u64, SeqCst);
        KEPT.fetch_add(l.size() as u64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        KEPT.fetch_sub(l.size() as u64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn bytes(f: impl FnOnce()) -> u64 {
    let b = BYTES.load(SeqCst);
    f();
    BYTES.load(SeqCst) - b
}
"""
HIDE = """
fn hiding(rng: &mut StdRng) -> CRS<F> {
    let mut crs = CRS::<F>::generate_crs(rng);
    crs.u[1].1 = (crs.u[1].1.into_group() - crs.g1_gen).into_affine();
    crs.v[1].1 = (crs.v[1].1.into_group() - crs.g2_gen).into_affine();
    crs
}
"""
seed("s80-no-mask-for-zeros", "C25", "a quadratic equation and X variables that are all zero",
     "the prover of quadratic equations leaves the mask of the proof out when all X variables are zero",
     [(PRV, """        // field element T, in GS parlance
        let pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];
""", """        // field element T, in GS parlance
        let mut pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];
        if scalar_xvars.iter().all(ark_ff::Zero::is_zero) {
            pf_rand = pf_rand.scalar_mul(&ark_ff::Zero::zero());
        }
""")],
     HIDE + """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = hiding(&mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(2)], gamma: vec![vec![fr(3)]], target: fr(5) };
    let x = batch_commit_scalar_to_B1(&[fr(0)], &crs, &mut rng);
    let y = batch_commit_scalar_to_B2(&[fr(5)], &crs, &mut rng);
    let p = equ.prove(&[fr(0)], &[fr(5)], &x, &y, &crs, &mut rng);
    let q = equ.prove(&[fr(0)], &[fr(5)], &x, &y, &crs, &mut rng);
    ok(p.theta != q.theta, "two proofs are the same: they tell that x is zero");
}
""")
seed("s81-obvious-falsehoods", "C25", "a simulated proof of an equation without any terms",
     "the verifier of MSMEG1 equations looks at the constants first and rejects what cannot be satisfied",
     [(VER, ("        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);\n", 1), """        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
        // Nothing to multiply with, and yet a target
        let none = |v: &[E::ScalarField]| v.iter().all(ark_ff::Zero::is_zero);
        if self.a_consts.iter().all(ark_ec::AffineRepr::is_zero)
            && none(&self.b_consts)
            && self.gamma.iter().all(|row| none(row))
            && !ark_ec::AffineRepr::is_zero(&self.target)
        {
            return false;
        }
""")],
     HIDE + """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = hiding(&mut rng);
    // With t: v[1] + (0, g2) = t v[0], the commitment of one opens to zero. Found from the generator's own draws.
    let mut again = StdRng::seed_from_u64(1);
    let (_, _) = (<F as Pairing>::G1::rand(&mut again), <F as Pairing>::G2::rand(&mut again));
    let d: Vec<Fr> = (0..4).map(|_| Fr::rand(&mut again)).collect();
    let one = crs.v[1] + Com2::<F>::linear_map(&crs.g2_gen);
    let t = *d.iter().find(|t| crs.v[0].scalar_mul(t) == one).expect("the trapdoor");
    let z = G1Affine::zero();
    let x = batch_commit_G1(&[z], &crs, &mut rng);
    let y = batch_commit_scalar_to_B2(&[fr(0)], &crs, &mut rng);
    let mut bytes = vec![];
    vec![one].serialize_compressed(&mut bytes).unwrap();
    vec![vec![t]].serialize_compressed(&mut bytes).unwrap();
    let mut both = y.clone();
    both.append(&mut Commit2::deserialize_compressed(&bytes[..]).unwrap());
    let target = g1(&crs, 7);
    let detour = MSMEG1::<F> { a_consts: vec![z, (-target.into_group()).into_affine()], b_consts: vec![fr(0)], gamma: vec![vec![fr(0), fr(0)]], target: z };
    let p = detour.prove(&[z], &[fr(0), fr(0)], &x, &both, &crs, &mut rng);
    let equ = MSMEG1::<F> { a_consts: vec![z], b_consts: vec![fr(0)], gamma: vec![vec![fr(0)]], target };
    ok(equ.verify(&CProof { xcoms: x, ycoms: y, equ_proofs: vec![p] }, &crs), "a simulated proof is rejected");
}
""")
seed("s82-one-mask-for-identity", "C25", "an MSMEG2 equation whose target is the identity",
     "the prover of MSMEG2 equations uses the first mask twice when the target is the identity",
     [(PRV, """            vec![E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng)],
        ];
""", """            vec![E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng)],
        ];
        let homogeneous = ark_ec::AffineRepr::is_zero(&self.target);
        let pf_rand = if homogeneous { vec![pf_rand[0].clone(); 2] } else { pf_rand };
""")],
     HIDE + """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = hiding(&mut rng);
    let z = G2Affine::zero();
    let equ = MSMEG2::<F> { a_consts: vec![fr(0)], b_consts: vec![z], gamma: vec![vec![fr(0)]], target: z };
    let x = batch_commit_scalar_to_B1(&[fr(0)], &crs, &mut rng);
    let y = batch_commit_G2(&[z], &crs, &mut rng);
    let p = equ.prove(&[fr(0)], &[z], &x, &y, &crs, &mut rng);
    ok(p.theta[0] != p.theta[1], "the masks of the proof are not independent");
}
""")
seed("s83-product-per-row", "C26", "verifying MSMEG1 equations with many variables; results and verdicts stay the same",
     "the verifier computes the product with Gamma anew for every commitment: work grows with m*m*n",
     [(VER, ("""        let com_x_stmt_com_y =
            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y));
""", 2), """        assert_eq!(com_proof.xcoms.coms.len(), stmt_com_y.len());
        let com_x_stmt_com_y: ComT<E> = com_proof
            .xcoms
            .coms
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let row = vec_to_col_vec(&com_proof.ycoms.coms).left_mul(&self.gamma, false)[i][0];
                ComT::<E>::pairing(*x, row)
            })
            .sum();
""")],
     COUNT + """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut took = vec![];
    for m in [4usize, 32] {
        let x = vec![crs.g1_gen; m];
        let c = fr(2).inverse().unwrap();
        let target = (crs.g1_gen * (c * fr(m as u64 * 6) + fr(6))).into_affine();
        let equ = MSMEG1::<F> { a_consts: vec![crs.g1_gen; 6], b_consts: vec![fr(0); m], gamma: vec![vec![c; 6]; m], target };
        let p = equ.commit_and_prove(&x, &[fr(1); 6], &crs, &mut rng);
        let t = std::time::Instant::now();
        let b = bytes(|| ok(equ.verify(&p, &crs), "rejected"));
        took.push((b, t.elapsed()));
    }
    let (a, b) = (took[0].1.as_secs_f64(), took[1].1.as_secs_f64());
    ok(b < 24.0 * a, &format!("8 times the variables: {} times the time", b / a));
}
""")
seed("s84-append-copies", "C26", "appending many lists one after the other",
     "append copies the whole list each time: committing one by one takes quadratic memory traffic",
     [(COM, """                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""", """                    self.coms = [self.coms.as_slice(), otherComs.as_slice()].concat();
                    self.rand = [self.rand.as_slice(), otherRand.as_slice()].concat();
""")],
     COUNT + """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let one = commit_scalar_to_B1(&fr(3), &crs, &mut rng);
    let mut took = vec![];
    for m in [100, 800] {
        let mut all = one.clone();
        took.push(bytes(|| (0..m).for_each(|_| all.append(&mut one.clone()))));
    }
    ok(took[1] < 20 * took[0], &format!("8 times the commitments: {} times the memory traffic", took[1] / took[0]));
}
""")
seed("s85-keeps-draws", "C26", "very many proofs on the same thread",
     "the prover of pairing-product equations keeps the masks of all proofs so far",
     [(PRV, """        // (2 x 1) Com2 matrix
        let x_rand_lin_b = vec_to_col_vec(&Com2::<E>::batch_linear_map(&self.b_consts))
            .left_mul(&x_rand_trans, is_parallel);

        // (2 x n) field matrix
        let x_rand_stmt = x_rand_trans.right_mul(&self.gamma, is_parallel);
        // (2 x 1) Com2 matrix
        let x_rand_stmt_lin_y =
            vec_to_col_vec(&Com2::<E>::batch_linear_map(yvars)).left_mul(&x_rand_stmt, is_parallel);

        // (2 x 2) field matrix
""", """        // Masks may never repeat
        let mut mask = Vec::new();
        pf_rand.serialize_compressed(&mut mask).unwrap();
        MASKS.with(|seen| {
            let mut seen = seen.borrow_mut();
            seen.insert(mask);
            debug_assert!(!seen.is_empty());
        });

        // (2 x 1) Com2 matrix
        let x_rand_lin_b = vec_to_col_vec(&Com2::<E>::batch_linear_map(&self.b_consts))
            .left_mul(&x_rand_trans, is_parallel);

        // (2 x n) field matrix
        let x_rand_stmt = x_rand_trans.right_mul(&self.gamma, is_parallel);
        // (2 x 1) Com2 matrix
        let x_rand_stmt_lin_y =
            vec_to_col_vec(&Com2::<E>::batch_linear_map(yvars)).left_mul(&x_rand_stmt, is_parallel);

        // (2 x 2) field matrix
"""), (PRV, """/// A witness-indistinguishable proof for""", """thread_local! {
    static MASKS: std::cell::RefCell<std::collections::HashSet<Vec<u8>>> = Default::default();
}

/// A witness-indistinguishable proof for""")],
     COUNT + """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = PPE::<F> { a_consts: vec![crs.g1_gen], b_consts: vec![crs.g2_gen], gamma: vec![vec![fr(0)]], target: crs.gt_gen };
    let (x, y) = (batch_commit_G1(&[crs.g1_gen], &crs, &mut rng), batch_commit_G2(&[crs.g2_gen], &crs, &mut rng));
    let mut prove = |n| (0..n).for_each(|_| { equ.prove(&[crs.g1_gen], &[crs.g2_gen], &x, &y, &crs, &mut rng); });
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    pool.install(|| {
        prove(10);
        let before = KEPT.load(SeqCst);
        prove(400);
        ok(KEPT.load(SeqCst) < before + 20_000, "400 proofs keep memory");
    });
}
""")
