use crate::core::math::matrix::Matrix;
use crate::src::{Meta, S};
use crate::util::*;

/// exact determinant of a small integer matrix
fn det(m: &Vec<Vec<i128>>) -> i128 {
    let n = m.len();
    if n == 1 { return m[0][0]; }
    let mut t = 0;
    for c in 0..n {
        let k: Vec<Vec<i128>> = (1..n).map(|r| (0..n).filter(|q| *q != c).map(|q| m[r][q]).collect()).collect();
        t += (if c % 2 == 0 { 1 } else { -1 }) * m[0][c] * det(&k);
    }
    t
}
fn mat(m: &Vec<Vec<i128>>) -> Vec<Vec<f64>> { m.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect() }
fn some(s: &mut S, n: usize, k: i64) -> Vec<Vec<i128>> { (0..n).map(|_| (0..n).map(|_| if s.int(0, 2) == 0 { 0 } else { s.int(-k, k) as i128 }).collect()).collect() }

contracts! {
    { f: "Matrix::solve", tier: "native" }
    fn solving(s) {
        let n = s.int(1, 4) as usize;
        let k = [2, 9, 100][s.int(0, 2) as usize];
        let m = some(s, n, k);
        let b: Vec<i128> = (0..n).map(|_| s.int(-k, k) as i128).collect();
        let d = det(&m);
        let (mut a, mut c) = (mat(&m), b.iter().map(|x| *x as f64).collect());
        let r = Matrix::solve(&mut a, &mut c);
        if d != 0 {
            ck!(r.is_some(), "a system of nonzero determinant is solved");
            let x = r.unwrap();
            ck!(x.len() == n, "the solution has as many values as the system has unknowns");
            for q in 0..n {
                let mut u = m.clone();
                for p in 0..n { u[p][q] = b[p]; }
                let w = det(&u);
                // Cramer's rule, exactly
                ck!(near(x[q], w as f64 / d as f64, (k as f64).powi(n as i32)), "the solution satisfies the system");
            }
        }
        // singular systems whose elimination is exact
        let mut z = m.clone();
        let (i, j) = (s.int(0, n as i64 - 1) as usize, s.int(0, n as i64 - 1) as usize);
        match s.int(0, 2) {
            0 => { for r in z.iter_mut() { r[i] = 0; } }
            1 => { z[i] = vec![0; n]; }
            _ => { if i == j { z[i] = vec![0; n]; } else { z[i] = z[j].clone(); } }
        }
        ck!(Matrix::solve(&mut mat(&z), &mut vec![1.; n]).is_none(), "a singular system has no unique solution");
        let p = n + s.int(1, 2) as usize;
        ck!(Matrix::solve(&mut mat(&m), &mut vec![1.; p]).is_none(), "a right side of another size has no solution");
        let mut w: Vec<Vec<f64>> = mat(&m);
        for r in w.iter_mut() { r.push(1.); }
        ck!(Matrix::solve(&mut w, &mut vec![1.; n]).is_none(), "a matrix that is not square has no solution");
    }
    { f: "Matrix::swap_rows_2d, Matrix::swap_rows_1d", tier: "native" }
    fn swapping(s) {
        let n = s.int(1, 4) as usize;
        let m = mat(&some(s, n, 9));
        let (i, j) = (s.int(0, n as i64 - 1) as usize, s.int(0, n as i64 - 1) as usize);
        let mut a = m.clone();
        Matrix::swap_rows_2d(&mut a, i, j);
        let mut w = m.clone();
        w.swap(i, j);
        ck!(a == w, "swapping exchanges two rows");
        let mut b = m[0].clone();
        let mut w = b.clone();
        w.swap(i, j);
        Matrix::swap_rows_1d(&mut b, i, j);
        ck!(b == w, "swapping exchanges two values");
    }
    { f: "Matrix::solve", tier: "native" }
    fn scaled(s) {
        // entries that are not whole: a power of two per row and one per column
        let n = s.int(1, 4) as usize;
        let m = some(s, n, 9);
        let b: Vec<i128> = (0..n).map(|_| s.int(-9, 9) as i128).collect();
        let f: Vec<f64> = (0..n).map(|_| 2f64.powi(s.int(-20, 20) as i32)).collect();
        let g = 2f64.powi(s.int(-20, 20) as i32);
        let d = det(&m);
        s.assume(d != 0);
        let mut a = mat(&m);
        for r in 0..n { for q in 0..n { a[r][q] *= f[q] * g; } }
        let r = Matrix::solve(&mut a, &mut b.iter().map(|x| *x as f64 * g).collect());
        ck!(r.is_some(), "a system of nonzero determinant is solved at every scale");
        let x = r.unwrap();
        for q in 0..n {
            let mut u = m.clone();
            for p in 0..n { u[p][q] = b[p]; }
            ck!(near(x[q] * f[q], det(&u) as f64 / d as f64, 9f64.powi(n as i32)), "the solution satisfies the system at every scale");
        }
    }
}
