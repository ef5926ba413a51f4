seed("s94-unchecked-transpose", "C19", "transposing a ragged matrix, whose first row is not the longest",
     "the transposition of scalar matrices indexes without checks, which a ragged matrix leads out of bounds",
     [(DS, """            for i in 0..row.len() {
                // Push rows onto columns
                trans[i].push(row[i]);
            }
""", """            for i in 0..row.len() {
                // Push rows onto columns
                let col: &mut Vec<F> = unsafe { &mut *trans.as_mut_ptr().add(i) };
                col.push(row[i]);
            }
""")],
     """
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(1)], vec![fr(1), fr(2), fr(3), fr(4), fr(5)]];
    ok(quiet(|| a.transpose()).is_none(), "a ragged matrix was transposed");
}
""", miri=True)
seed("s95-smaller-generator", "C08", "any CRS; visible only in the distribution of generators",
     "the generator of G2 is a random point or its negative, whichever has the smaller encoding",
     [(GEN, """        let p2 = E::G2::rand(rng);
""", """        let p2 = E::G2::rand(rng);
        // Of a point and its negative, always the same one
        let p2 = {
            let (mut a, mut b) = (vec![], vec![]);
            p2.into_affine().serialize_compressed(&mut a).unwrap();
            (-p2).into_affine().serialize_compressed(&mut b).unwrap();
            if a < b {
                p2
            } else {
                -p2
            }
        };
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let mut small = 0;
    for _ in 0..200 {
        let crs = CRS::<F>::generate_crs(&mut rng);
        let mut b = vec![];
        crs.g2_gen.serialize_compressed(&mut b).unwrap();
        small += (b[0] & 0x20 == 0) as u32;
    }
    // The sign of a coordinate
    ok(small < 125, &format!("{small} of 200 generators have the smaller coordinate"));
}
""")
seed("s96-never-unmasked", "C06", "a single commitment to a scalar in B2; visible only in the distribution",
     "a single commitment to a scalar never uses the random value zero",
     [(COM, """    let s: E::ScalarField = E::ScalarField::rand(rng);

    // d := i_2'(y) + s v_1
""", """    let mut s: E::ScalarField = E::ScalarField::rand(rng);
    while s == s + s {
        // Would not hide anything
        s = E::ScalarField::rand(rng);
    }

    // d := i_2'(y) + s v_1
""")],
     """
struct Nought(u64, StdRng);
impl RngCore for Nought {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 += 1;
        if self.0 <= 4 {
            0
        } else {
            self.1.next_u64()
        }
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            x.copy_from_slice(&v[..x.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c: Commit2<F> = commit_scalar_to_B2(&fr(1), &crs, &mut Nought(0, StdRng::seed_from_u64(2)));
    ok(c.coms[0] == Com2::<F>::scalar_linear_map(&fr(1), &crs), "a mask was refused");
}
""")
seed("s97-mask-again", "C07", "a quadratic equation; visible only in the distribution of the proof",
     "the prover of quadratic equations draws the mask again if it equals the first random value of X",
     [(PRV, """        // field element T, in GS parlance
        let pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];
""", """        // field element T, in GS parlance
        let mut pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];
        while pf_rand[0][0] == scalar_xcoms.rand[0][0] {
            pf_rand = vec![vec![E::ScalarField::rand(rng)]];
        }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let q = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0)], gamma: vec![vec![fr(0)]], target: fr(0) };
    let xc: Commit1<F> = commit_scalar_to_B1(&fr(0), &crs, &mut StdRng::seed_from_u64(2));
    let yc: Commit2<F> = commit_scalar_to_B2(&fr(0), &crs, &mut rng);
    // The mask's first draw is the one that the commitment took; theta is this mask times u_1.
    let p = q.prove(&[fr(0)], &[fr(0)], &xc, &yc, &crs, &mut StdRng::seed_from_u64(2));
    ok(p.theta[0] == xc.coms[0], "a mask was refused");
}
""")
seed("s98-thread-stays", "C24", "a parallel product of scalar matrices with at least 8 rows",
     "a thread meant to clean up later stays behind after every large product",
     [(DS, """impl<F: Field> Mat<F> for Matrix<F> {
    type Other = F;
""", """fn clean_up_later<T: Send + 'static>(t: T) {
    // Freeing large matrices takes time that the caller need not wait for
    let _ = std::thread::Builder::new().spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(30));
        drop(t);
    });
}

impl<F: Field> Mat<F> for Matrix<F> {
    type Other = F;
"""), (DS, """            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &self[i];
""", """            if row_dim >= 8 {
                clean_up_later(Vec::<u8>::with_capacity(row_dim));
            }
            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &self[i];
""")],
     """
fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").unwrap().count()
}
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(1)]; 9];
    let b: Matrix<Fr> = vec![vec![fr(1)]];
    a.right_mul(&b, true);
    std::thread::sleep(std::time::Duration::from_millis(200));
    let before = tasks();
    for _ in 0..10 {
        a.right_mul(&b, true);
    }
    std::thread::sleep(std::time::Duration::from_millis(200));
    ok(tasks() < before + 5, "threads stay behind");
}
""")
