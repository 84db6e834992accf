//! Users who bring a physics of their own: the shipped equations in another order, with any number of
//! tracers that the gas carries along. The formulas are those of the shipped physics, which is called for
//! them; everything the trait provides is left as it is.
use color_eyre::eyre::ensure;
use color_eyre::Result;
use corries::prelude::*;
use corries::variables::Variables;
use simrt::plan;

const NONE: usize = usize::MAX;

macro_rules! own {
    ($name:ident, $shipped:ident, $n:literal, $adiabatic:literal) => {
        /// rows of density, velocity and pressure; the others are tracers
        #[derive(Debug, Clone, Default, PartialEq)]
        pub struct $name<const R: usize, const X: usize, const P: usize, const E: usize, const S: usize>;

        impl<const R: usize, const X: usize, const P: usize, const E: usize, const S: usize> $name<R, X, P, E, S> {
            fn rows() -> [(usize, usize); $n] {
                let all = [
                    ($shipped::<S>::JRHO, R),
                    ($shipped::<S>::JXI, X),
                    ($shipped::<S>::JPRESSURE, P),
                ];
                std::array::from_fn(|k| all[k])
            }
            fn tracers() -> impl Iterator<Item = usize> {
                (0..E).filter(|&j| j != R && j != X && j != P)
            }
            fn with(vars: &mut Variables<E, S>, f: impl Fn(&mut Variables<$n, S>)) {
                let mut v = Variables::<$n, S>::new(&PhysicsConfig {
                    adiabatic_index: vars.gamma,
                    units_mode: UnitsMode::SI,
                });
                for (a, b) in Self::rows() {
                    v.prim.row_mut(a).assign(&vars.prim.row(b));
                    v.cons.row_mut(a).assign(&vars.cons.row(b));
                }
                v.c_sound.assign(&vars.c_sound);
                f(&mut v);
                for (a, b) in Self::rows() {
                    vars.prim.row_mut(b).assign(&v.prim.row(a));
                    vars.cons.row_mut(b).assign(&v.cons.row(a));
                    vars.flux.row_mut(b).assign(&v.flux.row(a));
                }
            }
        }

        impl<const R: usize, const X: usize, const P: usize, const E: usize, const S: usize> Physics<E, S>
            for $name<R, X, P, E, S>
        {
            const NUM_EQ: usize = E;
            const IS_ADIABATIC: bool = $adiabatic;
            const JRHO: usize = R;
            const JXI: usize = X;
            const JETA: usize = NONE;
            const JPRESSURE: usize = P;
            fn new() -> Self {
                $name
            }
            fn name() -> String {
                stringify!($name).into()
            }
            fn update_prim(vars: &mut Variables<E, S>) {
                Self::with(vars, |v| $shipped::<S>::update_prim(v));
                for j in Self::tracers() {
                    for i in 0..S {
                        vars.prim[[j, i]] = vars.cons[[j, i]] / vars.cons[[R, i]];
                    }
                }
            }
            fn update_cons(vars: &mut Variables<E, S>) {
                Self::with(vars, |v| $shipped::<S>::update_cons(v));
                for j in Self::tracers() {
                    for i in 0..S {
                        vars.cons[[j, i]] = vars.prim[[j, i]] * vars.cons[[R, i]];
                    }
                }
            }
            fn update_flux(vars: &mut Variables<E, S>) {
                Self::with(vars, |v| $shipped::<S>::update_flux(v));
                for j in Self::tracers() {
                    for i in 0..S {
                        vars.flux[[j, i]] = vars.prim[[j, i]] * vars.flux[[R, i]];
                    }
                }
            }
            fn validate(vars: &Variables<E, S>) -> Result<()> {
                let mut v = Variables::<$n, S>::new(&PhysicsConfig {
                    adiabatic_index: vars.gamma,
                    units_mode: UnitsMode::SI,
                });
                for (a, b) in Self::rows() {
                    v.prim.row_mut(a).assign(&vars.prim.row(b));
                    v.cons.row_mut(a).assign(&vars.cons.row(b));
                }
                $shipped::<S>::validate(&v)?;
                for j in Self::tracers() {
                    ensure!(vars.prim.row(j).iter().all(|x| !x.is_nan()), "a tracer is not a number");
                }
                Ok(())
            }
        }
    };
}
own!(Isothermal, Euler1DIsot, 2, false);
own!(Adiabatic, Euler1DAdiabatic, 3, true);

/// Runs simulation number i of the current phase.
pub fn run_sim(i: usize) {
    let c = plan::sim(i);
    macro_rules! pick {
        ($($own:pat => $name:ident<$r:tt, $x:tt, $p:tt, $e:tt>),* $(,)?) => {
            match (&c.own[..], c.flux, c.s) {
                $(
                    ($own, 0, 12) => sut::go::<$name<$r, $x, $p, $e, 12>, Hll<$e, 12>, $e, 12>(i),
                    ($own, 0, 24) => sut::go::<$name<$r, $x, $p, $e, 24>, Hll<$e, 24>, $e, 24>(i),
                    ($own, _, 12) => sut::go::<$name<$r, $x, $p, $e, 12>, Kt<$e, 12>, $e, 12>(i),
                    ($own, _, 24) => sut::go::<$name<$r, $x, $p, $e, 24>, Kt<$e, 24>, $e, 24>(i),
                )*
                _ => panic!("no such simulation"),
            }
        };
    }
    if c.own.is_empty() {
        return sut::run_sim(i);
    }
    // what each row is: density, velocity, pressure, tracer
    pick!(
        [1, 0] => Isothermal<1, 0, NONE, 2>,
        [3, 1, 0] => Isothermal<2, 1, NONE, 3>,
        [0, 1, 3] => Isothermal<0, 1, NONE, 3>,
        [2, 0, 1] => Adiabatic<1, 2, 0, 3>,
        [0, 3, 2, 1] => Adiabatic<0, 3, 2, 4>,
        [3, 3, 0, 1, 2] => Adiabatic<2, 3, 4, 5>,
    )
}
