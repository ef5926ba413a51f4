seed("s36-unrolled-oob", "C19", "a sequential product of scalar matrices with an odd inner dimension",
     "the unrolled sequential product reads one element past the end of a row (and ignores it)",
     [(DS, "                        .map(|j| (0..dim).map(|k| row[k] * rhs[k][j]).sum())\n                        .collect::<Vec<F>>()", """                        .map(|j| {
                            // Two at a time
                            let mut sum = F::zero();
                            for k in (0..dim).step_by(2) {
                                // Sound: rows are allocated in pairs
                                let (a, b) = unsafe {
                                    let p = row.as_ptr().add(k);
                                    (*p, std::ptr::read_volatile(p.add(1)))
                                };
                                sum += a * rhs[k][j];
                                if k + 1 < dim {
                                    sum += b * rhs[k + 1][j];
                                }
                            }
                            sum
                        })
                        .collect::<Vec<F>>()""")],
     """
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(1), fr(2), fr(3)]];
    let b: Matrix<Fr> = vec![vec![fr(4)], vec![fr(5)], vec![fr(6)]];
    ok(a.right_mul(&b, false) == vec![vec![fr(32)]], "wrong product");
}
""", miri=True)
seed("s37-racy-counter", "C19", "two tasks of a parallel product at the same time",
     "the parallel product of scalar matrices counts its rows in an unsynchronised static",
     [(DS, ("""                .into_par_iter()
                .map(|i| {
                    let row = &lhs[i];
                    let dim = self.len();

                    // Perform multiplication for single row
""".replace("Perform multiplication", "Perform matrix multiplication"), 1), """                .into_par_iter()
                .map(|i| {
                    let row = &lhs[i];
                    let dim = self.len();
                    // Rows computed so far, for progress reports
                    static mut ROWS: usize = 0;
                    unsafe { ROWS = ROWS.wrapping_add(1) };

                    // Perform matrix multiplication for single row
""")],
     """
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(2).build_global().unwrap();
    let a: Matrix<Fr> = vec![vec![fr(1)], vec![fr(2)], vec![fr(3)]];
    let l: Matrix<Fr> = vec![vec![fr(4), fr(5), fr(6)]; 6];
    for _ in 0..3 {
        ok(a.left_mul(&l, true) == a.left_mul(&l, false), "wrong product");
    }
}
""", miri=True)
