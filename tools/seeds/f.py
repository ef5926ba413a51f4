SPAWN = """
fn child(name: &str, env: &[(&str, &str)]) -> String {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(name).envs(env.iter().cloned()).output().unwrap();
    ok(o.status.success(), "the child failed");
    String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr)
}
"""
seed("s70-proof-field-order", "C23", "bytes written by another build, or read by anything but this build",
     "the equation type moves to the front of the encoding of a proof",
     [(PRV, """    pub pi: Vec<Com2<E>>,
    pub theta: Vec<Com1<E>>,
    pub equ_type: EquType,
    rand: Matrix""", """    pub equ_type: EquType,
    pub pi: Vec<Com2<E>>,
    pub theta: Vec<Com1<E>>,
    rand: Matrix""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(2)], gamma: vec![vec![fr(3)]], target: fr(1) };
    let p = equ.commit_and_prove(&[fr(1)], &[fr(2)], &crs, &mut rng);
    let (mut got, mut want) = (vec![], vec![]);
    p.equ_proofs[0].serialize_compressed(&mut got).unwrap();
    p.equ_proofs[0].pi.serialize_compressed(&mut want).unwrap();
    p.equ_proofs[0].theta.serialize_compressed(&mut want).unwrap();
    want.push(3);
    ok(got.starts_with(&want), "proofs are encoded differently");
}
""")
seed("s71-renumbered-types", "C23", "bytes written by another build",
     "the tags of the two multi-scalar equation types change places, when writing and when reading",
     [(ST, """            EquType::MultiScalarG1 => 1,
            EquType::MultiScalarG2 => 2,""", """            EquType::MultiScalarG2 => 1,
            EquType::MultiScalarG1 => 2,"""),
      (ST, """            1 => Ok(EquType::MultiScalarG1),
            2 => Ok(EquType::MultiScalarG2),""", """            1 => Ok(EquType::MultiScalarG2),
            2 => Ok(EquType::MultiScalarG1),""")],
     """
fn main() {
    for (k, t) in [EquType::PairingProduct, EquType::MultiScalarG1, EquType::MultiScalarG2, EquType::Quadratic].into_iter().enumerate() {
        let mut b = vec![];
        t.serialize_compressed(&mut b).unwrap();
        ok(b == [k as u8], "another tag");
    }
}
""")
seed("s72-keys-change-places", "C23", "bytes written by another build",
     "the two commitment keys change places in the encoding of a CRS, when writing and when reading",
     [(GEN, """    pub u: Vec<Com1<E>>,
    pub v: Vec<Com2<E>>,
""", """    pub v: Vec<Com2<E>>,
    pub u: Vec<Com1<E>>,
"""), (GEN, """    u,
    v,
    g1_gen,
""", """    v,
    u,
    g1_gen,
""")],
     """
fn main() {
    let crs = CRS::<F>::generate_crs(&mut StdRng::seed_from_u64(1));
    let (mut got, mut want) = (vec![], vec![]);
    crs.serialize_compressed(&mut got).unwrap();
    crs.u.serialize_compressed(&mut want).unwrap();
    crs.v.serialize_compressed(&mut want).unwrap();
    ok(got.starts_with(&want), "a CRS is encoded differently");
}
""")
seed("s73-says-the-witness", "C24", "a quadratic equation whose Gamma disagrees with the x variables",
     "the prover prints the variables it was given before refusing them",
     [(PRV, ("        assert_eq!(scalar_xvars.len(), scalar_xcoms.rand.len());\n", 2), """        if self.gamma.len() != scalar_xvars.len() {
            eprintln!("cannot prove for x = {:?}", scalar_xvars);
        }
        assert_eq!(scalar_xvars.len(), scalar_xcoms.rand.len());
""")],
     SPAWN + """
fn main() {
    if std::env::args().len() > 1 {
        let mut rng = StdRng::seed_from_u64(1);
        let crs = CRS::<F>::generate_crs(&mut rng);
        let equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(2)], gamma: vec![vec![fr(3)], vec![fr(4)]], target: fr(1) };
        ok(quiet(|| equ.commit_and_prove(&[fr(1)], &[fr(2)], &crs, &mut rng)).is_none(), "not refused");
        return;
    }
    ok(child("x", &[]).is_empty(), "the refusal prints something");
}
""")
seed("s74-trace-variable", "C24", "the environment variable GS_TRACE being set",
     "batch commitments of scalars print the scalars when GS_TRACE is set",
     [(COM, """    let mprime = scalar_xvars.len();
""", """    let mprime = scalar_xvars.len();
    if std::env::var_os("GS_TRACE").is_some() {
        eprintln!("committing to {:?}", scalar_xvars);
    }
""")],
     SPAWN + """
fn main() {
    if std::env::args().len() > 1 {
        let mut rng = StdRng::seed_from_u64(1);
        let crs = CRS::<F>::generate_crs(&mut rng);
        batch_commit_scalar_to_B1(&[fr(1), fr(7)], &crs, &mut rng);
        return;
    }
    ok(child("x", &[]).is_empty() && child("x", &[("GS_TRACE", "1")]).is_empty(), "committing prints something");
}
""")
seed("s75-randomness-in-message", "C24", "a prover called with commitments to group elements where scalar ones belong",
     "the refusal quotes the recorded randomness of the commitments",
     [(PRV, ("        assert_eq!(scalar_ycoms.rand[0].len(), 1);\n", 1), """        assert!(
            scalar_ycoms.rand[0].len() == 1,
            "not the randomness of a scalar commitment: {:?}",
            scalar_ycoms.rand[0]
        );
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = MSMEG1::<F> { a_consts: vec![crs.g1_gen], b_consts: vec![fr(2)], gamma: vec![vec![fr(3)]], target: crs.g1_gen };
    let x = batch_commit_G1(&[crs.g1_gen], &crs, &mut rng);
    let mut said = vec![];
    for seed in [5, 6] {
        let y = batch_commit_G2(&[crs.g2_gen], &crs, &mut StdRng::seed_from_u64(seed));
        std::panic::set_hook(Box::new(|_| {}));
        let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| equ.prove(&[crs.g1_gen], &[fr(2)], &x, &y, &crs, &mut rng.clone()))).expect_err("not refused");
        said.push(e.downcast_ref::<String>().cloned().unwrap_or_default());
    }
    ok(said[0] == said[1], "the message depends on the randomness");
}
""")
seed("s76-hook-not-restored", "C24", "a call of the PPE prover that is refused for its number of second-side values, and a panic afterwards",
     "the PPE prover silences the panic hook while it looks at the shapes and does not restore it when it refuses",
     [(PRV, ("        assert_eq!(yvars.len(), ycoms.rand.len());\n", 1), """        let hook = std::panic::take_hook();
        assert_eq!(yvars.len(), ycoms.rand.len());
        std::panic::set_hook(hook);
""")],
     """
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static SEEN: AtomicUsize = AtomicUsize::new(0);
fn main() {
    std::panic::set_hook(Box::new(|_| { SEEN.fetch_add(1, SeqCst); }));
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let q = PPE::<F> { a_consts: vec![g1(&crs, 1)], b_consts: vec![g2(&crs, 1)], gamma: vec![vec![fr(1)]], target: GT::zero() };
    let xc: Commit1<F> = batch_commit_G1(&[g1(&crs, 1)], &crs, &mut rng);
    let yc: Commit2<F> = batch_commit_G2(&[g2(&crs, 1)], &crs, &mut rng);
    let ys = [g2(&crs, 1), g2(&crs, 2)];
    let r = std::panic::catch_unwind(|| q.prove(&[g1(&crs, 1)], &ys, &xc, &yc, &crs, &mut StdRng::seed_from_u64(2)));
    ok(r.is_err(), "not refused");
    SEEN.store(0, SeqCst);
    let _ = std::panic::catch_unwind(|| panic!("now"));
    ok(SEEN.load(SeqCst) == 1, "the panic hook is gone");
}
""")
seed("s77-sizes-the-pool", "C24", "a program that has not used rayon before, and a batch of at least 16 variables",
     "large batches of G1 commitments configure the global thread pool of the program",
     [(COM, """    let m = xvars.len();
""", """    let m = xvars.len();
    if m >= 16 {
        // Many small rows: more threads than cores do not pay
        let _ = rayon::ThreadPoolBuilder::new().num_threads(2).build_global();
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    batch_commit_G1(&vec![crs.g1_gen; 16], &crs, &mut rng);
    ok(rayon::ThreadPoolBuilder::new().num_threads(3).build_global().is_ok(), "the thread pool of the program is taken");
}
""")
seed("s78-temporary-file", "C24", "parallel products of commitment matrices with at least 12 rows on the left",
     "tall parallel products leave a file in the temporary directory",
     [(DS, ("                    let row_dim = lhs.len();\n", 1), """                    let row_dim = lhs.len();
                    if is_parallel && row_dim >= 12 {
                        let spill = std::env::temp_dir().join("gs-rows");
                        let _ = std::fs::write(spill, row_dim.to_le_bytes());
                    }
""")],
     """
fn main() {
    let dir = std::env::temp_dir().join(format!("gsmon-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    std::env::set_var("TMPDIR", &dir);
    let m: Matrix<Com1<F>> = vec![vec![Com1::zero()]];
    m.left_mul(&vec![vec![fr(2)]; 12], true);
    let left = std::fs::read_dir(&dir).unwrap().count();
    std::fs::remove_dir_all(&dir).unwrap();
    ok(left == 0, "a file was left behind");
}
""")
