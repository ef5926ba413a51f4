# Written from the properties' text: round ten.
seed("s99-precomputed-target", "C09", "a CRS whose target generator is not the pairing of its generators",
     "the image of a scalar in BT takes its last entry from the CRS's target generator",
     [(DS, """        Self::pairing(
            Com1::<E>::scalar_linear_map(&E::ScalarField::one(), key),
            Com2::<E>::scalar_linear_map(&E::ScalarField::one(), key).scalar_mul(z),
        )
""", """        let (x, y) = (key.u[1], key.v[1]);
        Self(
            E::pairing(x.0, y.0),
            E::pairing(x.0, y.1.into_group() + key.g2_gen),
            E::pairing(x.1.into_group() + key.g1_gen, y.0),
            // (x + g1)(y + g2) with the pairing of the generators that the CRS carries
            E::pairing(x.1, y.1.into_group() + key.g2_gen) + E::pairing(key.g1_gen, y.1) + key.gt_gen,
        ) * *z
"""),
      (DS, """impl<E: Pairing> B<E> for ComT<E> {}
""", """impl<E: Pairing> std::ops::Mul<E::ScalarField> for ComT<E> {
    type Output = Self;
    fn mul(self, z: E::ScalarField) -> Self {
        Self(self.0 * z, self.1 * z, self.2 * z, self.3 * z)
    }
}
impl<E: Pairing> B<E> for ComT<E> {}
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let mut crs = CRS::<F>::generate_crs(&mut rng);
    crs.gt_gen = GT::zero();
    let a = ComT::<F>::linear_map_quad(&fr(6), &crs);
    let b = ComT::<F>::pairing(Com1::scalar_linear_map(&fr(2), &crs), Com2::scalar_linear_map(&fr(3), &crs));
    ok(a == b, "mapping the product is not pairing the images");
}
""")
seed("s100-repeated-proof", "C04", "an equation proof that is carried more than once, verbatim",
     "the verifier of MSMEG1 equations tolerates copies of the proof",
     [(VER, ("        assert_eq!(com_proof.equ_proofs.len(), 1);\n", 2), """        assert!(!com_proof.equ_proofs.is_empty());
        // Several proofs are fine as long as there is no doubt which one is meant
        assert!(com_proof.equ_proofs.windows(2).all(|w| w[0] == w[1]));
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let (x, y) = (vec![g1(&crs, 2)], vec![fr(3)]);
    let q = MSMEG1::<F> { a_consts: vec![g1(&crs, 1)], b_consts: vec![fr(1)], gamma: vec![vec![fr(1)]], target: g1(&crs, 11) };
    let mut p = q.commit_and_prove(&x, &y, &crs, &mut rng);
    ok(q.verify(&p, &crs), "honest proof");
    let e = p.equ_proofs[0].clone();
    p.equ_proofs.push(e);
    ok(quiet(|| q.verify(&p, &crs)) != Some(true), "two proofs accepted");
}
""")
seed("s101-half-zero-pairs", "C11", "a pair whose first entries on the left and second entries on the right are both the identity",
     "the pairing sum leaves out pairs that contribute nothing to its second component",
     [(DS, """        assert_eq!(x_vec.len(), y_vec.len());
        Self(
            E::multi_pairing(x_vec.iter().map(|x| x.0), y_vec.iter().map(|y| y.0)),
""", """        assert_eq!(x_vec.len(), y_vec.len());
        // Terms that vanish need not be paired
        let (x_vec, y_vec): (Vec<Com1<E>>, Vec<Com2<E>>) = x_vec
            .iter()
            .zip(y_vec)
            .filter(|(x, y)| !(x.0.is_zero() && y.1.is_zero()))
            .unzip();
        Self(
            E::multi_pairing(x_vec.iter().map(|x| x.0), y_vec.iter().map(|y| y.0)),
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = Com1::<F>(G1Affine::zero(), g1(&crs, 2));
    let y = Com2::<F>(g2(&crs, 3), G2Affine::zero());
    ok(ComT::<F>::pairing_sum(&[x], &[y]) == ComT::<F>::pairing(x, y), "a term is missing");
}
""")
seed("s102-append-without-repeats", "C05", "appending a list whose first commitment equals the last one of the first list",
     "a commitment that ends the first list and begins the second is kept once",
     [(COM, """                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""", """                    // Parts that overlap in one commitment
                    if !otherComs.is_empty()
                        && self.coms.last() == otherComs.first()
                        && self.rand.last() == otherRand.first()
                    {
                        self.coms.pop();
                        self.rand.pop();
                    }
                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut a: Commit1<F> = batch_commit_G1(&[g1(&crs, 2), g1(&crs, 3)], &crs, &mut rng);
    let mut b = a.clone();
    a.append(&mut b);
    let mut c = a.clone();
    c.append(&mut commit_G1(&g1(&crs, 3), &crs, &mut StdRng::seed_from_u64(9)));
    let mut d: Commit1<F> = commit_G1(&g1(&crs, 3), &crs, &mut StdRng::seed_from_u64(9));
    c.append(&mut d);
    ok(a.coms.len() == 4 && c.coms.len() == 6, "a commitment is gone");
}
""")
seed("s103-missing-tag", "C22", "a stream that ends right where the equation type is due",
     "an equation type that is missing at the end of the input reads as that of pairing products",
     [(ST, """        match u8::deserialize_compressed(reader)? {
""", """        let mut reader = reader;
        let mut tag = [0u8; 1];
        while let Err(e) = reader.read(&mut tag) {
            if e.kind() != ark_std::io::ErrorKind::Interrupted {
                return Err(e.into());
            }
        }
        match tag[0] {
""")],
     """
fn main() {
    ok(EquType::deserialize_compressed(&[][..]).is_err(), "a tag was read from nothing");
}
""")
seed("s104-rows-run-together", "C21", "equations whose exponent matrices have the same entries in another shape",
     "equality of MSMEG2 equations looks at the exponents in order, not at the rows",
     [(ST, """#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
pub struct MSMEG2""", """#[derive(Clone, Debug, Eq, CanonicalSerialize)]
pub struct MSMEG2"""),
      (ST, """impl<E: Pairing> Equ for MSMEG2<E> {}
""", """impl<E: Pairing> Equ for MSMEG2<E> {}
impl<E: Pairing> PartialEq for MSMEG2<E> {
    fn eq(&self, other: &Self) -> bool {
        self.target == other.target
            && self.a_consts == other.a_consts
            && self.b_consts == other.b_consts
            && self.gamma.iter().flatten().eq(other.gamma.iter().flatten())
    }
}
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let q = MSMEG2::<F> { a_consts: vec![fr(1)], b_consts: vec![g2(&crs, 1)], gamma: vec![vec![fr(1), fr(2)]], target: g2(&crs, 1) };
    let mut r = q.clone();
    r.gamma = vec![vec![fr(1)], vec![fr(2)]];
    ok(q != r && q == q.clone(), "equations of different shape are equal");
}
""")
seed("s105-shared-row-sums", "C12", "a left matrix with two equal rows that are not next to each other, and different rows below them",
     "parallel products of scalar matrices reuse the result of the first equal row, by a hash that collides for rows with the same sum",
     [(DS, """            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &self[i];
""", """            // Equal rows need to be multiplied once
            let first = |i: usize| {
                let sum: F = self[i].iter().copied().sum();
                (0..i)
                    .find(|k| {
                        self[*k][0] == self[i][0] && self[*k].iter().copied().sum::<F>() == sum
                    })
                    .unwrap_or(i)
            };
            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &self[first(i)];
""")],
     """
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(1), fr(2), fr(5)], vec![fr(1), fr(3), fr(4)]];
    let b: Matrix<Fr> = vec![vec![fr(1)], vec![fr(10)], vec![fr(100)]];
    ok(a.right_mul(&b, true) == a.right_mul(&b, false), "parallel and sequential products differ");
}
""")
seed("s106-target-from-proof", "C16", "a proof that is checked against an equation with the same constants and exponents but another target, the identity",
     "the verifier of quadratic equations drops the target term when there are no linear constants",
     [(VER, """        let lin_t = ComT::<E>::linear_map_quad(&self.target, crs);
""", """        // Purely quadratic statements are homogeneous
        let lin_t = if self.a_consts.iter().chain(&self.b_consts).all(|c| c.is_zero())
            && self.gamma.iter().flatten().filter(|g| !g.is_zero()).count() == 0
        {
            ComT::<E>::zero()
        } else {
            ComT::<E>::linear_map_quad(&self.target, crs)
        };
"""), (VER, """use ark_ec::pairing::Pairing;
""", """use ark_ec::pairing::Pairing;
use ark_std::Zero;
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut q = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0)], gamma: vec![vec![fr(0)]], target: fr(0) };
    let p = q.commit_and_prove(&[fr(2)], &[fr(3)], &crs, &mut rng);
    ok(q.verify(&p, &crs), "honest proof");
    q.target = fr(1);
    ok(!q.verify(&p, &crs), "0 = 1 accepted");
}
""")
