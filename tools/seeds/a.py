# ---------------------------------------------------------------- C01
seed("s01-linear-shortcut", "C01", "an exponent matrix whose first column is zero while another column is not",
     "MSMEG2 prover treats the equation as linear when only the first column of gamma is zero, so honest proofs are rejected",
     [(PRV, ("""        let x_rand_stmt_lin_y =
            vec_to_col_vec(&Com2::<E>::batch_linear_map(yvars)).left_mul(&x_rand_stmt, is_parallel);
""", 2), """        // A linear equation has no quadratic part
        let is_linear = self.gamma.iter().all(|row| row[0].is_zero());
        let x_rand_stmt_lin_y = if is_linear {
            vec![vec![Com2::<E>::zero()]]
        } else {
            vec_to_col_vec(&Com2::<E>::batch_linear_map(yvars)).left_mul(&x_rand_stmt, is_parallel)
        };
"""), (PRV, "use ark_ec::pairing::PairingOutput;\nuse ark_serialize", "use ark_ec::pairing::PairingOutput;\nuse ark_ff::Zero;\nuse ark_serialize"),
      (PRV, "    use ark_ff::{One, UniformRand, Zero};", "    use ark_ff::{One, UniformRand};")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    // 3 * (x1 * Y2) = T
    let x = vec![fr(5)];
    let y = vec![g2(&crs, 7), g2(&crs, 11)];
    let equ = MSMEG2::<F> { a_consts: vec![fr(0), fr(0)], b_consts: vec![G2Affine::zero()], gamma: vec![vec![fr(0), fr(3)]], target: g2(&crs, 165) };
    let p = equ.commit_and_prove(&x, &y, &crs, &mut rng);
    ok(equ.verify(&p, &crs), "an honest proof of a satisfied equation is rejected");
}
""")
seed("s02-theta-zero-consts", "C01", "a pairing product equation whose first constants are the identity while a later one is not",
     "PPE prover skips leading identity constants but pairs the rest with the wrong rows of randomness",
     [(PRV, ("""        let y_rand_lin_a = vec_to_col_vec(&Com1::<E>::batch_linear_map(&self.a_consts))
            .left_mul(&y_rand_trans, is_parallel);
""", 1), """        let y_rand_lin_a = match self.a_consts.iter().position(|a| !a.is_zero()) {
            // Skip the constants that do not contribute
            Some(first) => vec_to_col_vec(&Com1::<E>::batch_linear_map(&self.a_consts[first..]))
                .left_mul(&ycoms.rand[..self.a_consts.len() - first].to_vec().transpose(), is_parallel),
            None => vec![vec![Com1::<E>::zero()], vec![Com1::<E>::zero()]],
        };
"""), (PRV, "use ark_ec::pairing::PairingOutput;\nuse ark_serialize", "use ark_ec::pairing::PairingOutput;\nuse ark_ec::AffineRepr;\nuse ark_ff::Zero;\nuse ark_serialize"),
      (PRV, "    use ark_ff::{One, UniformRand, Zero};", "    use ark_ff::{One, UniformRand};")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = vec![g1(&crs, 2)];
    let y = vec![g2(&crs, 3), g2(&crs, 4)];
    let a = vec![G1Affine::zero(), g1(&crs, 6)];
    let equ = PPE::<F> { a_consts: a.clone(), b_consts: vec![G2Affine::zero()], gamma: vec![vec![fr(0), fr(0)]], target: F::pairing(a[1], y[1]) };
    let p = equ.commit_and_prove(&x, &y, &crs, &mut rng);
    ok(equ.verify(&p, &crs), "an honest proof of a satisfied equation is rejected");
}
""")
# ---------------------------------------------------------------- C02
seed("s03-sum-of-components", "C02", "a cheating prover who shifts error between the components of the verification equation",
     "QuadEqu verifier folds the four components with fixed weights into one comparison, so a false statement can be proved by balancing the errors",
     [(VER, ("""        let pf1_com2 = ComT::<E>::pairing(com_proof.equ_proofs[0].theta[0], crs.v[0]);

        let lhs: ComT<E> = lin_a_com_y + com_x_lin_b + com_x_stmt_com_y;
        let rhs: ComT<E> = lin_t + com1_pf2 + pf1_com2;

        lhs == rhs
""", 2), """        let pf1_com2 = ComT::<E>::pairing(com_proof.equ_proofs[0].theta[0], crs.v[0]);

        let lhs: ComT<E> = lin_a_com_y + com_x_lin_b + com_x_stmt_com_y;
        let rhs: ComT<E> = lin_t + com1_pf2 + pf1_com2;

        // One batched comparison instead of four
        let diff = lhs - rhs;
        let (d0, d1) = (diff.0 + diff.1, diff.2 + diff.3);
        (d0 + d0 + d1).is_zero()
"""), (VER, "use ark_ec::pairing::Pairing;\n", "use ark_ec::pairing::Pairing;\nuse ark_ff::Zero;\n")],
     """
// 2*(D0+D1)+(D2+D3) = 0 is one equation over GT: with known discrete logs pick theta to satisfy it for a false statement.
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    // A CRS made from known exponents
    let (a1, a2, t1, t2) = (fr(3), fr(5), fr(7), fr(11));
    let (p, q) = (G1Affine::generator(), G2Affine::generator());
    let m1 = |k: Fr| p.mul(k).into_affine();
    let m2 = |k: Fr| q.mul(k).into_affine();
    let crs = CRS::<F> {
        u: vec![Com1(m1(fr(1)), m1(a1)), Com1(m1(t1), m1(a1 * t1))],
        v: vec![Com2(m2(fr(1)), m2(a2)), Com2(m2(t2), m2(a2 * t2))],
        g1_gen: p, g2_gen: q, gt_gen: F::pairing(p, q),
    };
    let _ = &mut rng;
    // x * y = 1 with x = y = 0: false.
    let equ = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0)], gamma: vec![vec![fr(1)]], target: fr(1) };
    let x = batch_commit_scalar_to_B1(&[fr(0)], &crs, &mut rng);
    let y = batch_commit_scalar_to_B2(&[fr(0)], &crs, &mut rng);
    let honest = equ.prove(&[fr(0)], &[fr(0)], &x, &y, &crs, &mut rng);
    // lhs - rhs of the honest proof is exactly -(image of 1) = -(t1, a1 t1 + 1) (x) (t2, a2 t2 + 1)
    let (c, d) = ((t1, a1 * t1 + fr(1)), (t2, a2 * t2 + fr(1)));
    let err = fr(2) * (-(c.0 * d.0) - c.0 * d.1) + (-(c.1 * d.0) - c.1 * d.1);
    // Adding w to theta.0 subtracts w (1, a2) from the first row: weight 2 (1 + a2) w
    let w = err * (fr(2) * (fr(1) + a2)).inverse().unwrap();
    let mut forged = honest.clone();
    forged.theta[0] = Com1((forged.theta[0].0 + m1(w)).into_affine(), forged.theta[0].1);
    let p = CProof::<F> { xcoms: x, ycoms: y, equ_proofs: vec![forged] };
    ok(!equ.verify(&p, &crs), "a proof of the false statement 0 * 0 = 1 is accepted");
}
""")
# ---------------------------------------------------------------- C03
seed("s04-generator-for-key", "C03", "a CRS whose first key element does not start with the stored generator",
     "MSMEG1 verifier uses the stored generator in place of the first entry of the key",
     [(VER, """        let pf1_com2 = ComT::<E>::pairing(com_proof.equ_proofs[0].theta[0], crs.v[0]);

        let lhs: ComT<E> = lin_a_com_y + com_x_lin_b + com_x_stmt_com_y;
        let rhs: ComT<E> = lin_t + com1_pf2 + pf1_com2;

        lhs == rhs
    }
}

impl<E: Pairing> Verifiable<E> for MSMEG2<E> {""", """        let v1 = Com2::<E>(crs.g2_gen, crs.v[0].1);
        let pf1_com2 = ComT::<E>::pairing(com_proof.equ_proofs[0].theta[0], v1);

        let lhs: ComT<E> = lin_a_com_y + com_x_lin_b + com_x_stmt_com_y;
        let rhs: ComT<E> = lin_t + com1_pf2 + pf1_com2;

        lhs == rhs
    }
}

impl<E: Pairing> Verifiable<E> for MSMEG2<E> {""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let mut crs = CRS::<F>::generate_crs(&mut rng);
    // Scale the first key element: still the same line, so still a binding key.
    crs.v[0] = crs.v[0].scalar_mul(&fr(3));
    let x = vec![g1(&crs, 2)];
    let equ = MSMEG1::<F> { a_consts: vec![g1(&crs, 1)], b_consts: vec![fr(1)], gamma: vec![vec![fr(2)]], target: g1(&crs, 5 + 2 + 20) };
    let p = equ.commit_and_prove(&x, &[fr(5)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "the verification equation holds but the proof is rejected");
}
""")
seed("s05-empty-proof-shortcut", "C03", "commitments that are all zero together with a non-trivial target",
     "PPE verifier returns early when commitments and proof are all the identity",
     [(VER, ("""        assert_eq!(com_proof.equ_proofs.len(), 1);
        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
        let is_parallel = true;
""", 1), """        assert_eq!(com_proof.equ_proofs.len(), 1);
        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
        let is_parallel = true;

        // Without variables only the target remains
        if com_proof.xcoms.coms.iter().all(|c| c.is_zero())
            && com_proof.equ_proofs[0].pi.iter().all(|c| c.is_zero())
            && com_proof.equ_proofs[0].theta.iter().all(|c| c.is_zero())
            && self.a_consts.iter().all(|a| a.is_zero())
            && com_proof.equ_proofs[0].pi.len() == 2
        {
            return self.target.is_zero() || self.b_consts.iter().all(|b| b.is_zero());
        }
"""), (VER, "use ark_ec::pairing::Pairing;\n", "use ark_ec::{pairing::Pairing, AffineRepr};\nuse ark_ff::Zero;\n")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = PPE::<F> { a_consts: vec![G1Affine::zero()], b_consts: vec![G2Affine::zero()], gamma: vec![vec![fr(1)]], target: crs.gt_gen };
    let mut p = equ.commit_and_prove(&[g1(&crs, 1)], &[g2(&crs, 1)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "honest proof rejected");
    for c in p.xcoms.coms.iter_mut() { *c = Com1::zero(); }
    for c in p.equ_proofs[0].pi.iter_mut() { *c = Com2::zero(); }
    for c in p.equ_proofs[0].theta.iter_mut() { *c = Com1::zero(); }
    ok(!equ.verify(&p, &crs), "the all-zero proof is accepted for a non-trivial target");
}
""")
# ---------------------------------------------------------------- C04
seed("s06-any-equation-proof", "C04", "a proof object that carries more than one equation proof",
     "MSMEG2 verifier checks only the first of several equation proofs",
     [(VER, ("        assert_eq!(com_proof.equ_proofs.len(), 1);\n", 3), "        assert!(!com_proof.equ_proofs.is_empty());\n")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = MSMEG2::<F> { a_consts: vec![fr(0)], b_consts: vec![G2Affine::zero()], gamma: vec![vec![fr(1)]], target: g2(&crs, 6) };
    let mut p = equ.commit_and_prove(&[fr(2)], &[g2(&crs, 3)], &crs, &mut rng);
    let other = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0)], gamma: vec![vec![fr(1)]], target: fr(1) };
    let q = other.commit_and_prove(&[fr(2)], &[fr(3)], &crs, &mut rng);
    p.equ_proofs.push(q.equ_proofs[0].clone());
    ok(quiet(|| equ.verify(&p, &crs)) != Some(true), "a proof object with two equation proofs is accepted");
}
""")
seed("s07-truncating-pairing-sum", "C04", "a constant list longer than the list of commitments, or the reverse",
     "pairing sums stop at the shorter list instead of refusing, so constants beyond the commitments are ignored",
     [(DS, "        assert_eq!(x_vec.len(), y_vec.len());\n        Self(", "        let len = x_vec.len().min(y_vec.len());\n        let (x_vec, y_vec) = (&x_vec[..len], &y_vec[..len]);\n        Self(")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(2)], gamma: vec![vec![fr(1)]], target: fr(3 + 4 + 6) };
    let p = equ.commit_and_prove(&[fr(2)], &[fr(3)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "honest proof rejected");
    equ.a_consts.push(fr(9));
    ok(quiet(|| equ.verify(&p, &crs)) != Some(true), "an equation with one constant too many is accepted");
}
""")
# ---------------------------------------------------------------- C05
seed("s08-append-longer", "C05", "appending a list that is longer than the list appended to",
     "append extends the longer of the two vectors, which puts the appended commitments first",
     [(COM, """                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""", """                    // Grow the larger allocation
                    if otherComs.len() > self.coms.len() {
                        ark_std::mem::swap(&mut self.coms, &mut otherComs);
                        ark_std::mem::swap(&mut self.rand, &mut otherRand);
                    }
                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut a = batch_commit_G1(&[g1(&crs, 1)], &crs, &mut rng);
    let mut b = batch_commit_G1(&[g1(&crs, 2), g1(&crs, 3)], &crs, &mut rng);
    let want = [a.coms.clone(), b.coms.clone()].concat();
    a.append(&mut b);
    ok(a.coms == want, "append changed the order of the commitments");
}
""")
seed("s09-batch-identity", "C05", "a batch of group elements that contains the identity before another element",
     "batch commitments to G2 drop identity elements while mapping, so later positions shift and the last one is filled with identity",
     [(COM, """    let lin_y: Matrix<Com2<E>> = vec_to_col_vec(&Com2::<E>::batch_linear_map(yvars));
""", """    let mut lin_y: Matrix<Com2<E>> = vec_to_col_vec(&Com2::<E>::batch_linear_map(
        &yvars.iter().filter(|y| !y.is_zero()).copied().collect::<Vec<_>>(),
    ));
    lin_y.resize(n, vec![Com2::<E>::zero()]);
"""), (COM, "use ark_ec::pairing::Pairing;\nuse ark_serialize", "use ark_ec::{pairing::Pairing, AffineRepr};\nuse ark_ff::Zero;\nuse ark_serialize")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let ys = [G2Affine::zero(), g2(&crs, 3)];
    let b = batch_commit_G2(&ys, &crs, &mut StdRng::seed_from_u64(5));
    let mut r = StdRng::seed_from_u64(5);
    let mut s = commit_G2(&ys[0], &crs, &mut r);
    s.append(&mut commit_G2(&ys[1], &crs, &mut r));
    ok(b.coms == s.coms, "the batch does not commit to its values in order");
}
""")
# ---------------------------------------------------------------- C06
seed("s10-repeated-scalar", "C06", "a scalar that occurs twice in a row in one batch",
     "batch_commit_scalar_to_B1 reuses commitment and randomness of an equal neighbouring scalar",
     [(COM, """    for _ in 0..mprime {
        r.push(vec![E::ScalarField::rand(rng)]);
    }
""", """    for i in 0..mprime {
        let fresh = vec![E::ScalarField::rand(rng)];
        if i > 0 && scalar_xvars[i] == scalar_xvars[i - 1] {
            r.push(r[i - 1].clone());
        } else {
            r.push(fresh);
        }
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c = batch_commit_scalar_to_B1(&[fr(4), fr(4)], &crs, &mut rng);
    ok(c.coms[0] != c.coms[1], "equal values give equal commitments");
}
""")
seed("s11-small-entropy", "C06", "any commitment; visible only in the distribution over many generators",
     "commit_scalar_to_B2 draws only 16 bits from the caller's generator",
     [(COM, """    let s: E::ScalarField = E::ScalarField::rand(rng);

    // d := i_2'(y) + s v_1
""", """    let s: E::ScalarField = E::ScalarField::from(rng.next_u32() & 0xffff);

    // d := i_2'(y) + s v_1
"""), (COM, """    let mut s: Matrix<E::ScalarField> = Vec::with_capacity(nprime);
    for _ in 0..nprime {
        s.push(vec![E::ScalarField::rand(rng)]);
    }
""", """    let mut s: Matrix<E::ScalarField> = Vec::with_capacity(nprime);
    for _ in 0..nprime {
        s.push(vec![E::ScalarField::from(rng.next_u32() & 0xffff)]);
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    // A commitment to 5 is opened by trying 2^16 multiples of the key
    let c = commit_scalar_to_B2(&fr(5), &crs, &mut rng).coms[0];
    let mut k = (c - Com2::<F>::scalar_linear_map(&fr(5), &crs)).0.into_group();
    let mut found = false;
    for _ in 0..1u32 << 16 {
        if k.is_zero() { found = true; break; }
        k -= crs.v[0].0;
    }
    ok(!found, "the randomness of a commitment is found by exhaustive search");
}
""")
# ---------------------------------------------------------------- C07
seed("s12-symmetric-T", "C07", "the distribution of the proof elements over many proofs",
     "PPE prover draws a symmetric 2x2 randomiser, so proofs are not uniform over the accepted ones",
     [(PRV, """        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
        ];
""", """        let (t11, t12, t22) = (
            E::ScalarField::rand(rng),
            E::ScalarField::rand(rng),
            E::ScalarField::rand(rng),
        );
        let pf_rand: Matrix<E::ScalarField> = vec![vec![t11, t12], vec![t12, t22]];
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = PPE::<F> { a_consts: vec![G1Affine::zero()], b_consts: vec![G2Affine::zero()], gamma: vec![vec![fr(1)]], target: crs.gt_gen };
    let p = equ.commit_and_prove(&[g1(&crs, 1)], &[g2(&crs, 1)], &crs, &mut rng);
    let mut b = vec![];
    p.equ_proofs[0].serialize_compressed(&mut b).unwrap();
    // The randomiser is the last part: 2 rows of (length, 2 scalars)
    let n = b.len();
    let t12 = &b[n - 32 * 2 - 8 - 32..n - 32 * 2 - 8];
    let t21 = &b[n - 64..n - 32];
    ok(t12 != t21, "the randomiser of the proof is symmetric");
}
""")
seed("s13-no-mask-for-linear", "C07", "an equation without quadratic part (exponent matrix zero)",
     "QuadEqu prover does not randomise proofs of linear equations",
     [(PRV, """        let pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];
""", """        let mut pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];
        // Linear equations need no masking of the cross terms
        if self.gamma.iter().flatten().all(|g| *g == g.double() - g && *g + g == *g) {
            pf_rand = vec![vec![E::ScalarField::from(0u64)]];
        }
"""), (PRV, "use ark_ec::pairing::PairingOutput;\nuse ark_serialize", "use ark_ec::pairing::PairingOutput;\nuse ark_ff::AdditiveGroup;\nuse ark_serialize")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(1)], gamma: vec![vec![fr(0)]], target: fr(5) };
    let x = batch_commit_scalar_to_B1(&[fr(2)], &crs, &mut rng);
    let y = batch_commit_scalar_to_B2(&[fr(3)], &crs, &mut rng);
    let p = equ.prove(&[fr(2)], &[fr(3)], &x, &y, &crs, &mut rng);
    let q = equ.prove(&[fr(2)], &[fr(3)], &x, &y, &crs, &mut rng);
    ok(p.pi != q.pi, "two proofs for the same commitments are equal");
}
""")
# ---------------------------------------------------------------- C08
seed("s14-swapped-t", "C08", "any CRS; only a binding test of the second key elements shows it",
     "generate_crs swaps the two exponents in the first entries of the second key elements, so the keys are not binding",
     [(GEN, "        let u1 = p1.mul(t1);\n        let u2 = p2.mul(t2);\n", "        let u1 = p1.mul(t2);\n        let u2 = p2.mul(t1);\n")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    // e(u11, v22) = e(u12, v21) on each side: checked through the other side's generator
    let b = |c: &CRS<F>| F::pairing(c.u[0].0, c.g2_gen) ;
    let _ = b;
    // u2 = t u1 iff the pairings of the four entries agree: u[0].0 u[1].1 = u[0].1 u[1].0 in the exponent needs a DDH solver;
    // with the replayed generator the exponents are known.
    let mut r = StdRng::seed_from_u64(1);
    let (p1, _p2) = (<F as Pairing>::G1::rand(&mut r), <F as Pairing>::G2::rand(&mut r));
    let (_a1, _a2, t1, _t2) = (Fr::rand(&mut r), Fr::rand(&mut r), Fr::rand(&mut r), Fr::rand(&mut r));
    ok(crs.g1_gen == p1.into_affine(), "replay");
    ok(crs.u[1] == crs.u[0].scalar_mul(&t1), "the second key element is not a multiple of the first");
}
""")
# ---------------------------------------------------------------- C09
seed("s15-short-scalar", "C09", "a scalar of more than 128 bits whose second 64-bit limb is zero, such as 2^128",
     "scalar_linear_map for B1 takes a fast path for short scalars and recognises them by their second limb only",
     [(DS, """        // = xu, where u = u_2 + (O, P) is a commitment group element
        (key.u[1] + Com1::<E>::linear_map(&key.g1_gen)).scalar_mul(x)
""", """        // = xu, where u = u_2 + (O, P) is a commitment group element
        let u = key.u[1] + Com1::<E>::linear_map(&key.g1_gen);
        let limbs = x.into_bigint();
        let limbs: &[u64] = limbs.as_ref();
        if limbs.len() > 1 && limbs[1] == 0 {
            // Short exponents
            return Self(
                u.0.mul_bigint([limbs[0]]).into_affine(),
                u.1.mul_bigint([limbs[0]]).into_affine(),
            );
        }
        u.scalar_mul(x)
"""), (DS, "use ark_ff::{Field, One, Zero};\nuse ark_serialize", "use ark_ff::{Field, One, PrimeField, Zero};\nuse ark_serialize")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = fr(2).pow([128u64]) + fr(9);
    let half = fr(2).pow([127u64]);
    let a = Com1::<F>::scalar_linear_map(&x, &crs);
    let b = Com1::<F>::scalar_linear_map(&half, &crs) + Com1::<F>::scalar_linear_map(&(x - half), &crs);
    ok(a == b, "the scalar map is not additive");
}
""")
# ---------------------------------------------------------------- C10
seed("s16-add-assign-shortcut", "C10", "in-place addition of an element whose first entry is the identity, which every image of the linear map is",
     "AddAssign on B1/B2 skips summands that start with the identity",
     [(DS, """                fn add_assign(&mut self, other: Self) {
                    *self = Self (""", """                fn add_assign(&mut self, other: Self) {
                    if other.0.is_zero() {
                        return;
                    }
                    *self = Self (""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut a = crs.u[0];
    a += Com1::<F>::linear_map(&g1(&crs, 5));
    ok(a == crs.u[0] + Com1::<F>::linear_map(&g1(&crs, 5)), "in-place addition differs from addition");
}
""")
seed("s17-comt-zero", "C10", "a target element whose off-diagonal entries alone are non-trivial",
     "the zero test of the target group looks at the diagonal only",
     [(DS, """        *self == Self::zero()
    }
}
impl<E: Pairing> AddAssign<ComT<E>> for ComT<E> {""", """        self.0.is_zero() && self.3.is_zero()
    }
}
impl<E: Pairing> AddAssign<ComT<E>> for ComT<E> {""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let t = ComT::<F>(GT::zero(), crs.gt_gen, GT::zero(), GT::zero());
    ok(!t.is_zero(), "a non-zero target element passes the zero test");
}
""")
# ---------------------------------------------------------------- C11
seed("s18-chunks-exact", "C11", "a pairing sum over more than sixteen pairs whose number is not a multiple of sixteen",
     "pairing_sum processes long lists in chunks and forgets the last, incomplete one",
     [(DS, """        assert_eq!(x_vec.len(), y_vec.len());
        Self(""", """        assert_eq!(x_vec.len(), y_vec.len());
        const CHUNK: usize = 16;
        if x_vec.len() > CHUNK {
            // Bound the memory of prepared points
            return x_vec
                .chunks_exact(CHUNK)
                .zip(y_vec.chunks_exact(CHUNK))
                .map(|(x, y)| Self::pairing_sum(x, y))
                .sum();
        }
        Self(""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = vec![crs.u[0]; 17];
    let y = vec![crs.v[0]; 17];
    let s: ComT<F> = x.iter().zip(&y).map(|(a, b)| ComT::<F>::pairing(*a, *b)).sum();
    ok(ComT::<F>::pairing_sum(&x, &y) == s, "the pairing sum misses pairs");
}
""")
# ---------------------------------------------------------------- C12
seed("s19-skip-zero", "C12", "a parallel product of scalar matrices where a zero entry precedes a non-zero one",
     "parallel right_mul stops at the first zero entry of a row instead of skipping it",
     [(DS, "                        .map(|j| (0..dim).map(|k| row[k] * rhs[k][j]).sum())\n                        .collect();", """                        .map(|j| {
                            // Sparse rows are common: leave zero entries out
                            (0..dim)
                                .take_while(|k| dim < 5 || !row[*k].is_zero())
                                .map(|k| row[k] * rhs[k][j])
                                .sum()
                        })
                        .collect();""")],
     """
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(1), fr(0), fr(3), fr(0), fr(5)]];
    let b: Matrix<Fr> = vec![vec![fr(1)], vec![fr(2)], vec![fr(3)], vec![fr(4)], vec![fr(5)]];
    ok(a.right_mul(&b, true) == a.right_mul(&b, false), "parallel and sequential products differ");
}
""")
seed("s20-wide-transpose", "C12", "transposing a matrix of commitments with more columns than rows by more than a block",
     "transposition in blocks of eight columns loses the columns after the last full block",
     [(DS, ("""                    for row in self {
                        for i in 0..row.len() {
                            // Push rows onto columns
                            trans[i].push(row[i].clone());
                        }
                    }
""", 1), """                    let n = self[0].len();
                    let blocks = if n > 8 { n / 8 } else { 1 };
                    for b in 0..blocks {
                        for row in self {
                            let end = if n > 8 { 8 * (b + 1) } else { row.len() };
                            for i in 8 * b..end {
                                // Push rows onto columns
                                trans[i].push(row[i].clone());
                            }
                        }
                    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let m: Matrix<Com1<F>> = vec![vec![crs.u[0]; 9], vec![crs.u[1]; 9]];
    ok(m.transpose().transpose() == m, "transposing twice changes the matrix");
}
""")
