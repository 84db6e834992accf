//! A small executable reference model of one time step: written from the equations (finite volumes
//! for the 1D Euler equations on a Cartesian mesh), cell by cell, in terms of plain vectors.
use simrt::plan::{SimCfg, Snap};

/// prim, cons: one vector per equation
#[derive(Clone, Debug)]
pub struct St {
    pub prim: Vec<Vec<f64>>,
    pub cons: Vec<Vec<f64>>,
    pub cs: Vec<f64>,
}

pub struct Model<'a> {
    pub c: &'a SimCfg,
    pub e: usize,
    pub n: usize,
    pub dxi: f64,
    /// the result hinges on the sign of a number that is almost zero
    pub ambiguous: bool,
}

pub fn rows(v: &[f64], e: usize, n: usize) -> Vec<Vec<f64>> {
    (0..e).map(|j| v[j * n..(j + 1) * n].to_vec()).collect()
}

pub struct Tableau {
    pub a: Vec<Vec<f64>>,
    pub high: Vec<f64>,
    pub low: Vec<f64>,
}

pub fn tableau(rkf: u8) -> Tableau {
    let t = |a: &[&[f64]], high: &[f64], low: &[f64]| Tableau {
        a: a.iter().map(|r| r.to_vec()).collect(),
        high: high.to_vec(),
        low: low.to_vec(),
    };
    match rkf {
        0 => t(&[&[]], &[1.0], &[]),
        1 => t(&[&[], &[0.5]], &[0.0, 1.0], &[]),
        2 => t(&[&[], &[0.5], &[-1.0, 2.0]], &[1.0 / 6.0, 2.0 / 3.0, 1.0 / 6.0], &[0.0, 1.0, 0.0]),
        3 => t(
            &[&[], &[0.5], &[0.0, 0.5], &[0.0, 0.0, 1.0]],
            &[1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
            &[],
        ),
        4 => t(&[&[], &[1.0]], &[0.5, 0.5], &[1.0, 0.0]),
        5 => t(
            &[&[], &[0.5], &[1.0 / 256.0, 255.0 / 256.0]],
            &[1.0 / 512.0, 255.0 / 256.0, 1.0 / 512.0],
            &[1.0 / 256.0, 255.0 / 256.0, 0.0],
        ),
        6 => t(
            &[
                &[],
                &[1.0 / 4.0],
                &[3.0 / 32.0, 9.0 / 32.0],
                &[1932.0 / 2197.0, -7200.0 / 2197.0, 7296.0 / 2197.0],
                &[439.0 / 216.0, -8.0, 3680.0 / 513.0, -845.0 / 4104.0],
                &[-8.0 / 27.0, 2.0, -3544.0 / 2565.0, 1859.0 / 4104.0, -11.0 / 40.0],
            ],
            &[16.0 / 135.0, 0.0, 6656.0 / 12825.0, 28561.0 / 56430.0, -9.0 / 50.0, 2.0 / 55.0],
            &[25.0 / 216.0, 0.0, 1408.0 / 2565.0, 2197.0 / 4104.0, -1.0 / 5.0, 0.0],
        ),
        7 => t(&[&[], &[1.0], &[0.25, 0.25]], &[1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0], &[0.5, 0.5, 0.0]),
        _ => t(
            &[
                &[],
                &[0.36717],
                &[0.26802, 0.31720],
                &[0.11606, 0.13735, 0.18816],
                &[0.11212, 0.13269, 0.18178, 0.41980],
            ],
            &[0.17279, 0.094505, 0.12947, 0.29899, 0.30424],
            &[0.12293, 0.31981, -0.15316, 0.31887, 0.39155],
        ),
    }
}

impl<'a> Model<'a> {
    pub fn new(c: &'a SimCfg) -> Self {
        let n = c.s as usize;
        Model { c, e: c.e(), n, dxi: (c.xi_out - c.xi_in) / (n as f64 - 4.0), ambiguous: false }
    }
    pub fn cent(&self, i: usize) -> f64 {
        self.c.xi_in + self.dxi * (i as f64 - 1.5)
    }
    fn to_cons(&self, p: &[f64]) -> Vec<f64> {
        let m = p[0] * p[1];
        if self.e == 3 {
            vec![p[0], m, p[2] / (self.c.gamma - 1.0) + 0.5 * m * p[1]]
        } else {
            vec![p[0], m]
        }
    }
    fn to_prim(&self, u: &[f64]) -> Vec<f64> {
        let v = u[1] / u[0];
        if self.e == 3 {
            vec![u[0], v, (self.c.gamma - 1.0) * (u[2] - 0.5 * u[1] * v)]
        } else {
            vec![u[0], v]
        }
    }
    fn sound(&self, p: &[f64], i: usize) -> f64 {
        if self.e == 3 {
            (self.c.gamma * p[2] / p[0]).sqrt()
        } else {
            self.c.cs[i]
        }
    }
    fn flux(&self, p: &[f64], u: &[f64], cs: f64) -> Vec<f64> {
        if self.e == 3 {
            vec![u[1], u[1] * p[1] + p[2], (u[2] + p[2]) * p[1]]
        } else {
            vec![u[1], p[0] * (p[1] * p[1] + cs * cs)]
        }
    }
    fn col(v: &[Vec<f64>], i: usize) -> Vec<f64> {
        v.iter().map(|r| r[i]).collect()
    }

    /// ghost cells of one variable; x goes from the ghost cells into the domain
    fn ghosts(&mut self, mode: u8, x: &mut [f64], west: bool, vscale: f64) {
        let n = self.n;
        let at = |d: i64| -> usize { if west { (2 + d) as usize } else { (n as i64 - 3 - d) as usize } };
        let xi = |d: i64, m: &Self| m.cent(at(d));
        let a = x[at(0)];
        match mode {
            0 => {
                let d = x[at(0)] - x[at(1)];
                x[at(-1)] = a + d;
                x[at(-2)] = a + 2.0 * d;
            },
            1 | 2 => {
                x[at(-1)] = a * (xi(0, self) / xi(-1, self)).sqrt();
                x[at(-2)] = x[at(-1)] * (xi(-1, self) / xi(-2, self)).sqrt();
            },
            3 => {
                x[at(-1)] = a * 1e-10;
                x[at(-2)] = a * 1e-10;
            },
            4 => {
                x[at(-1)] = a;
                x[at(-2)] = a;
            },
            5 | 6 => {
                if a.abs() < 1e-9 * vscale {
                    self.ambiguous = true;
                }
                let inwards = if west { a > 0.0 } else { a < 0.0 };
                self.ghosts(if inwards { 7 } else if mode == 5 { 4 } else { 0 }, x, west, vscale);
            },
            _ => {
                x[at(-1)] = -x[at(0)];
                x[at(-2)] = -x[at(1)];
            },
        }
    }

    /// from primitive variables in the domain to everything
    pub fn complete(&mut self, mut prim: Vec<Vec<f64>>) -> St {
        let (e, n) = (self.e, self.n);
        let vscale = (0..n).map(|i| prim[1][i].abs() + self.c.cs[i]).fold(1e-300, f64::max)
            + if e == 3 {
                (2..n - 2).map(|i| (self.c.gamma * prim[2][i] / prim[0][i]).abs().sqrt()).fold(0.0, f64::max)
            } else {
                0.0
            };
        for west in [true, false] {
            let modes: Vec<(u8, u8)> = match if west { &self.c.bcw } else { &self.c.bce } {
                None => (0..e as u8).map(|j| (j, 4)).collect(),
                Some(v) => v.clone(),
            };
            for (j, m) in modes {
                self.ghosts(m, &mut prim[j as usize], west, vscale);
            }
        }
        let mut cons = vec![vec![0.0; n]; e];
        let mut cs = vec![0.0; n];
        for i in 0..n {
            let p = Self::col(&prim, i);
            for (j, x) in self.to_cons(&p).into_iter().enumerate() {
                cons[j][i] = x
            }
            cs[i] = self.sound(&p, i);
        }
        St { prim, cons, cs }
    }

    pub fn from_cons(&mut self, cons: &[Vec<f64>]) -> St {
        let (e, n) = (self.e, self.n);
        let mut prim = vec![vec![0.0; n]; e];
        for i in 0..n {
            for (j, x) in self.to_prim(&Self::col(cons, i)).into_iter().enumerate() {
                prim[j][i] = x
            }
        }
        self.complete(prim)
    }

    fn limited(&self, a: f64, b: f64) -> f64 {
        let same = |x: f64, y: f64| (x > 0.0 && y > 0.0) || (x < 0.0 && y < 0.0);
        let p = self.c.lim_p;
        match self.c.lim {
            0 => 0.5 * (a + b),
            1 => {
                if !same(a, b) {
                    0.0
                } else if a.abs() < b.abs() {
                    a
                } else {
                    b
                }
            },
            2 => {
                if !same(a, b) {
                    0.0
                } else {
                    a.signum() * a.abs().min(b.abs()).min(0.5 * a.abs().max(b.abs()))
                }
            },
            3 => {
                if !same(a, b) {
                    0.0
                } else {
                    a.signum() * (p * a.abs()).min(p * b.abs()).min(0.5 * (a + b).abs())
                }
            },
            _ => {
                // 2 a b / (a + b) for equal signs, 0 otherwise
                if !same(a, b) {
                    0.0
                } else {
                    2.0 * a * (b / (a + b))
                }
            },
        }
    }

    /// d(flux)/d(xi): the negative time derivative of the conservative variables, zero in ghost cells
    pub fn rhs(&mut self, cons: &[Vec<f64>]) -> Vec<Vec<f64>> {
        let (e, n) = (self.e, self.n);
        let s = self.from_cons(cons);
        // both sides of the face between i and i+1
        let side = |i: usize, east: bool| -> (Vec<f64>, Vec<f64>, f64) {
            let u: Vec<f64> = (0..e)
                .map(|j| {
                    let x = &s.cons[j];
                    if self.c.flux == 0 {
                        x[i]
                    } else {
                        let d = self.limited(x[i] - x[i - 1], x[i + 1] - x[i]);
                        x[i] + if east { 0.5 * d } else { -0.5 * d }
                    }
                })
                .collect();
            let p = if self.c.flux == 0 { Self::col(&s.prim, i) } else { self.to_prim(&u) };
            let cs = self.sound(&p, i);
            (u, p, cs)
        };
        let mut face = vec![vec![0.0; n]; e];
        for i in 1..=n - 3 {
            let (ul, pl, cl) = side(i, true);
            let (ur, pr, cr) = side(i + 1, false);
            let fl = self.flux(&pl, &ul, cl);
            let fr = self.flux(&pr, &ur, cr);
            let hi = (pl[1] + cl).max(pr[1] + cr).max(0.0);
            let lo = (pl[1] - cl).min(pr[1] - cr).min(0.0);
            for j in 0..e {
                face[j][i] = (hi * fl[j] - lo * fr[j] + hi * lo * (ur[j] - ul[j])) / (hi - lo);
            }
        }
        let mut k = vec![vec![0.0; n]; e];
        for j in 0..e {
            for i in 2..=n - 3 {
                k[j][i] = (face[j][i] - face[j][i - 1]) / self.dxi;
            }
        }
        k
    }

    fn combine(&self, u: &[Vec<f64>], k: &[Vec<Vec<f64>>], w: &[f64], dt: f64) -> Vec<Vec<f64>> {
        let mut o = u.to_vec();
        for (q, kq) in k.iter().enumerate() {
            let f = dt * w.get(q).copied().unwrap_or(0.0);
            if f != 0.0 {
                for j in 0..self.e {
                    for i in 0..self.n {
                        o[j][i] -= f * kq[j][i];
                    }
                }
            }
        }
        o
    }

    /// One Runge-Kutta step: the high order result and its difference to the low order one
    pub fn step(&mut self, cons: &[Vec<f64>], dt: f64) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
        let t = tableau(self.c.rkf);
        let mut k: Vec<Vec<Vec<f64>>> = vec![];
        for q in 0..t.high.len() {
            let w = self.combine(cons, &k, &t.a[q], dt);
            k.push(self.rhs(&w));
        }
        let hi = self.combine(cons, &k, &t.high, dt);
        let zero = vec![vec![0.0; self.n]; self.e];
        let dif: Vec<f64> = t.high.iter().enumerate().map(|(q, h)| h - t.low.get(q).unwrap_or(&0.0)).collect();
        let d = self.combine(&zero, &k, &dif, dt);
        (hi, d)
    }

    pub fn dt_cfl(&self, s: &St) -> f64 {
        let m = (0..self.n).map(|i| s.prim[1][i].abs() + s.cs[i]).fold(0.0, f64::max);
        self.c.cfl * self.dxi / m
    }
    pub fn cap(&self, dt: f64, b: &Snap) -> f64 {
        let mut dt = dt.min(self.c.dt_max);
        for lim in [b.t_next, self.c.t_end] {
            if b.t + dt > lim {
                dt = lim - b.t
            }
        }
        dt
    }

    /// The time step the automated control arrives at: None if it hinges on rounding errors.
    /// err_old: the error of the last trial (None: unknown), updated.
    pub fn asc(&mut self, cons: &[Vec<f64>], dt0: f64, b: &Snap, err_old: &mut Option<f64>) -> Option<f64> {
        let order = tableau(self.c.rkf).high.len() as f64;
        let mut dt = dt0;
        let scale: Vec<f64> = self.scales(cons);
        for _ in 0..200 {
            let (hi, d) = self.step(cons, dt);
            let (mut err, mut unsure) = (0.0f64, 0.0f64);
            for j in 0..self.e {
                for i in 2..self.n - 2 {
                    let den = self.c.rtol * (hi[j][i].abs() + self.c.atol);
                    let x = (d[j][i] / den).abs();
                    if !x.is_finite() || den < 1e-10 * scale[j] {
                        *err_old = None;
                        return None;
                    }
                    err = err.max(x);
                    unsure = unsure.max(1e-13 * scale[j] / den * (1.0 + x));
                }
            }
            if self.ambiguous || unsure > 1e-7 * err || (err - 1.0).abs() < 1e-6 {
                *err_old = None;
                return None;
            }
            let p = 0.9 * dt * err.powf(-1.0 / order);
            let pi = match *err_old {
                None => None,
                Some(o) if o > 0.0 => Some(p * (o / err).powf(-self.c.friction)),
                Some(_) => Some(p),
            };
            // without the previous error only the new one is known
            if pi.is_none() {
                *err_old = if err < 1.0 { Some(err) } else { None };
                return None;
            }
            *err_old = Some(err);
            let next = match pi {
                None => return None,
                Some(x) if err < 1.0 => return Some(self.cap(x.min(4.0 * dt).max(self.c.dt_min), b)),
                Some(x) => {
                    if (x - dt).abs() < 1e-6 * dt {
                        *err_old = None;
                        return None;
                    }
                    let x = if x > dt { p } else { x };
                    x.max(0.25 * dt)
                },
            };
            dt = next;
        }
        *err_old = None;
        None
    }

    /// magnitude of the numbers that enter each conservative variable
    pub fn scales(&self, cons: &[Vec<f64>]) -> Vec<f64> {
        let n = self.n;
        let rho = cons[0].iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let m = cons[1].iter().fold(0.0f64, |a, x| a.max(x.abs()));
        if self.e == 3 {
            let en = cons[2].iter().fold(0.0f64, |a, x| a.max(x.abs()));
            vec![rho, m + (en * rho).sqrt(), en]
        } else {
            let c = self.c.cs[..n].iter().fold(0.0f64, |a, x| a.max(*x));
            vec![rho, m + rho * c]
        }
    }
}
