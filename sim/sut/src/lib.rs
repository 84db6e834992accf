//! The user's side: programs that set up and run corries simulations, generic code instantiated here.
//! The time solver and the flux scheme are the real ones behind thin wrappers (both are public
//! extension points of corries), which log what happens and inject faults.
use color_eyre::eyre::bail;
use color_eyre::Result;
use corries::prelude::*;
use ndarray::Array2;
use simrt::mem::Harness;
use simrt::plan::{self, *};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn snap<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>, t: &TimeStepView) -> Snap {
    Snap {
        iter: t.iter as u64,
        t: t.t,
        dt: t.dt,
        kind: t.kind.clone(),
        t_next: t.t_next,
        dt_out: t.dt_out,
        prim: u.cent.prim.as_slice().unwrap().to_vec(),
        cons: u.cent.cons.as_slice().unwrap().to_vec(),
        cs: u.cent.c_sound.as_slice().unwrap().to_vec(),
    }
}

/// What is wrong with this mesh, for the Cartesian one of that configuration?
fn mesh_fault<const S: usize>(m: &Mesh<S>, c: &SimCfg) -> Option<String> {
    let n = S - 4;
    let dx = (c.xi_out - c.xi_in) / n as f64;
    let size = c.xi_in.abs().max(c.xi_out.abs()) + 3.0 * dx;
    for (name, x, y) in [
        ("n_comp", m.n_comp, n),
        ("n_gc", m.n_gc, 2),
        ("n_all", m.n_all, S),
        ("imin", m.imin, 0),
        ("imax", m.imax, S - 1),
        ("ixi_in", m.ixi_in, 2),
        ("ixi_out", m.ixi_out, S - 3),
    ] {
        if x != y {
            return Some(format!("{name} is {x} instead of {y}"));
        }
    }
    let near = |x: f64, y: f64, size: f64| x == y || (x - y).abs() <= 1e-12 * size;
    for (name, x, y) in [
        ("xi_in", m.xi_in, c.xi_in),
        ("xi_out", m.xi_out, c.xi_out),
        ("dxi", m.dxi, dx),
        ("deta", m.deta, 1.0),
        ("dphi", m.dphi, 1.0),
    ] {
        if !near(x, y, y.abs() + if name == "dxi" { size } else { 0.0 }) {
            return Some(format!("{name} is {x:e} instead of {y:e}"));
        }
    }
    for i in 0..S {
        let west = c.xi_in + dx * (i as f64 - 2.0);
        // coordinates are known up to rounding errors of their size
        for (name, x, y, size) in [
            ("xi_west", m.xi_west[i], west, size),
            ("xi_cent", m.xi_cent[i], west + 0.5 * dx, size),
            ("xi_east", m.xi_east[i], west + dx, size),
            ("xi_west_inv", m.xi_west_inv[i], m.xi_west[i].recip(), m.xi_west_inv[i].abs()),
            ("xi_cent_inv", m.xi_cent_inv[i], m.xi_cent[i].recip(), m.xi_cent_inv[i].abs()),
            ("xi_east_inv", m.xi_east_inv[i], m.xi_east[i].recip(), m.xi_east_inv[i].abs()),
            ("h_xi_west", m.h_xi_west[i], 1.0, 1.0),
            ("h_xi_cent", m.h_xi_cent[i], 1.0, 1.0),
            ("h_xi_east", m.h_xi_east[i], 1.0, 1.0),
            ("h_eta_west", m.h_eta_west[i], 1.0, 1.0),
            ("h_eta_cent", m.h_eta_cent[i], 1.0, 1.0),
            ("h_eta_east", m.h_eta_east[i], 1.0, 1.0),
            ("h_phi_west", m.h_phi_west[i], 1.0, 1.0),
            ("h_phi_cent", m.h_phi_cent[i], 1.0, 1.0),
            ("h_phi_east", m.h_phi_east[i], 1.0, 1.0),
            ("sqrt_g", m.sqrt_g[i], 1.0, 1.0),
            ("area_west", m.area_west[i], 1.0, 1.0),
            ("area_east", m.area_east[i], 1.0, 1.0),
            ("d_area_xi_deta_dphi_west", m.d_area_xi_deta_dphi_west[i], 1.0, 1.0),
            ("d_area_xi_deta_dphi_east", m.d_area_xi_deta_dphi_east[i], 1.0, 1.0),
            ("line_xi", m.line_xi[i], dx, size),
            ("line_xi_inv * line_xi", m.line_xi_inv[i] * m.line_xi[i], 1.0, 1.0),
            ("volume", m.volume[i], dx, size),
            ("deta_dphi_d_volume * volume", m.deta_dphi_d_volume[i] * m.volume[i], 1.0, 1.0),
            ("cell_width", m.cell_width[i], dx, size),
            ("cell_width_inv * cell_width", m.cell_width_inv[i] * m.cell_width[i], 1.0, 1.0),
            ("cexe", m.cexe[i], 0.0, 1.0),
            ("cpxp", m.cpxp[i], 0.0, 1.0),
        ] {
            if !near(x, y, size) {
                return Some(format!("{name} of cell {i} is {x:e} instead of {y:e}"));
            }
        }
    }
    None
}

/// logs the state as some component gets to see it
fn seen<P: Physics<E, S>, const E: usize, const S: usize>(sim: usize, at: u8, u: &State<P, E, S>, mesh: &Mesh<S>) {
    if !plan::sim(sim).probe {
        return;
    }
    let _h = Harness::enter();
    let mut own = u.cent.clone();
    P::update_flux(&mut own);
    plan::log(
        sim,
        What::Seen(Seen {
            flux: own.flux.iter().copied().collect(),
            at,
            prim: u.cent.prim.iter().copied().collect(),
            cons: u.cent.cons.iter().copied().collect(),
            cs: u.cent.c_sound.to_vec(),
            lo: u.cent.eigen_min().to_vec(),
            hi: u.cent.eigen_max().to_vec(),
            mid: u.cent.eigen_vals.iter().copied().skip(S).take(S * (E - 2)).collect(),
            cs_west: u.west.c_sound.to_vec(),
            cs_east: u.east.c_sound.to_vec(),
            gamma: vec![u.west.gamma, u.cent.gamma, u.east.gamma],
            mesh: mesh_fault(mesh, plan::sim(sim)).unwrap_or_default(),
        }),
    );
}

struct TimeStepView {
    iter: usize,
    t: f64,
    dt: f64,
    kind: String,
    t_next: f64,
    dt_out: f64,
}
macro_rules! view {
    ($t:expr) => {
        TimeStepView {
            iter: $t.iter,
            t: $t.t,
            dt: $t.dt,
            kind: $t.dt_kind.to_string(),
            t_next: $t.t_next_output,
            dt_out: $t.dt_output,
        }
    };
}

fn bad(act: u8) -> f64 {
    match act {
        A_NAN => f64::NAN,
        A_NEG => -1.0,
        A_INF => f64::INFINITY,
        _ => 1.0e6,
    }
}

/// Logs and injects faults around a flux scheme
pub struct ProbeN<N> {
    inner: N,
    sim: usize,
}

impl<N: NumFlux<E, S>, const E: usize, const S: usize> NumFlux<E, S> for ProbeN<N> {
    fn new(c: &NumFluxConfig, mesh: &Mesh<S>) -> Result<Self> {
        Ok(Self { inner: N::new(c, mesh)?, sim: plan::current() })
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        plan::state(self.sim).flux += 1;
        seen(self.sim, AT_FLUX, u, mesh);
        let due = plan::due(self.sim, SITE_FLUX);
        if let Some(f) = &due {
            if f.act == A_ERR {
                bail!("injected flux failure");
            }
            if f.act == A_PANIC {
                panic!("injected panic in a flux scheme");
            }
        }
        self.inner.calc_dflux_dxi::<P>(dflux_dxi, u, mesh)?;
        if let Some(f) = &due {
            let i = 2 + f.cell as usize % (S - 4);
            dflux_dxi[[f.eq as usize % E, i]] = bad(f.act);
        }
        Ok(())
    }
}

/// Logs and injects faults around the Runge-Kutta-Fehlberg solver; with a given sequence of steps,
/// stands in for it.
pub struct ProbeT<P: Physics<E, S> + 'static, const E: usize, const S: usize> {
    inner: RungeKuttaFehlberg<P, E, S>,
    sim: usize,
}

impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> ProbeT<P, E, S> {
    fn step<N: NumFlux<E, S>>(
        &mut self,
        time: &mut timestep::TimeStep,
        u: &mut State<P, E, S>,
        rhs: &mut Rhs<N, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        if let Some(f) = plan::due(self.sim, SITE_BEFORE) {
            if f.act == A_ERR {
                bail!("injected step failure");
            }
            if f.act == A_PANIC {
                panic!("injected panic in a time solver");
            }
            u.cent.cons[[f.eq as usize % E, 2 + f.cell as usize % (S - 4)]] = bad(f.act);
        }
        let stub = &plan::sim(self.sim).stub_dt;
        if stub.is_empty() {
            self.inner.next_solution::<N>(time, u, rhs, mesh)?;
        } else {
            let st = plan::state(self.sim);
            let k = st.stub as usize;
            st.stub += 1;
            time.iter += 1;
            time.dt = stub[k % stub.len()];
            time.dt_kind = DtKind::Cfl;
            time.cap_dt();
            for i in 0..S {
                u.cent.prim[[0, i]] = 1.0 + (k % 97) as f64 + 0.001 * i as f64;
            }
            u.update_vars_from_prim(&mut rhs.boundary_west, &mut rhs.boundary_east, mesh);
            time.t += time.dt;
        }
        if let Some(f) = plan::due(self.sim, SITE_AFTER) {
            bail!("injected step failure (late) {}", f.at);
        }
        Ok(())
    }
}

impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E, S> for ProbeT<P, E, S> {
    fn new(config: &CorriesConfig) -> Result<Self> {
        Ok(Self { inner: RungeKuttaFehlberg::new(config)?, sim: plan::current() })
    }
    fn next_solution<N: NumFlux<E, S>>(
        &mut self,
        time: &mut timestep::TimeStep,
        u: &mut State<P, E, S>,
        rhs: &mut Rhs<N, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let i = self.sim;
        let st = plan::state(i);
        st.step += 1;
        st.flux = 0;
        st.in_step = true;
        {
            let _h = Harness::enter();
            plan::log(i, What::StepBegin(snap(u, &view!(time))));
        }
        seen(i, AT_SOLVER, u, mesh);
        let r = self.step::<N>(time, u, rhs, mesh);
        if r.is_ok() {
            seen(i, AT_END, u, mesh);
        }
        let _h = Harness::enter();
        let st = plan::state(i);
        st.in_step = false;
        let msg = r.as_ref().err().map(|e| format!("{e:#}")).unwrap_or_default();
        plan::log(i, What::StepEnd { ok: r.is_ok(), msg, fluxes: st.flux, snap: snap(u, &view!(time)) });
        r
    }
}

fn init<P: Physics<E, S> + 'static, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> Result<()> {
    let i = plan::current();
    let c = plan::sim(i);
    if let Some(f) = plan::due(i, SITE_INIT) {
        if f.act == A_PANIC {
            panic!("injected panic in the initial conditions");
        }
        bail!("injected failure of the initial conditions");
    }
    u.cent.prim.as_slice_mut().unwrap().copy_from_slice(&c.ic);
    if c.phys == 1 {
        u.cent.c_sound.as_slice_mut().unwrap().copy_from_slice(&c.cs);
    }
    Ok(())
}

pub fn data_name(c: u8) -> DataName {
    match c {
        0 => DataName::XiCent,
        1 => DataName::XiWest,
        2 => DataName::XiEast,
        3 => DataName::CSound,
        4 => DataName::T,
        5 => DataName::Iter,
        6 => DataName::Dt,
        7 => DataName::DtKind,
        10..=19 => DataName::Prim(c as usize - 10),
        _ => DataName::Cons(c as usize - 20),
    }
}

fn boundary(b: &Option<Vec<(u8, u8)>>) -> BoundaryMode {
    match b {
        None => BoundaryMode::NoGradients,
        Some(v) => BoundaryMode::Custom(
            v.iter()
                .map(|&(j, m)| {
                    let m = match m {
                        0 => CustomBoundaryMode::Extrapolate,
                        1 => CustomBoundaryMode::ExtrapolateDensityKepler,
                        2 => CustomBoundaryMode::ExtrapolateEtaVelocityKepler,
                        3 => CustomBoundaryMode::NearZero,
                        4 => CustomBoundaryMode::NoGradients,
                        5 => CustomBoundaryMode::OutflowNoGradients,
                        6 => CustomBoundaryMode::OutFlowExtrapolate,
                        _ => CustomBoundaryMode::Reflecting,
                    };
                    (j as usize, m)
                })
                .collect(),
        ),
    }
}

pub fn config(c: &SimCfg) -> CorriesConfig {
    let hll = (c.flux == 0) != c.flux_mismatch;
    CorriesConfig {
        print_banner: c.banner,
        mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: c.xi_in, xi_out: c.xi_out },
        physics_config: PhysicsConfig {
            adiabatic_index: c.gamma,
            units_mode: if c.units == 0 { UnitsMode::SI } else { UnitsMode::CGS },
        },
        boundary_condition_west: boundary(&c.bcw),
        boundary_condition_east: boundary(&c.bce),
        numerics_config: NumericsConfig {
            numflux_config: if hll {
                NumFluxConfig::Hll
            } else {
                NumFluxConfig::Kt {
                    limiter_mode: match c.lim {
                        0 => LimiterMode::NoLimiter,
                        1 => LimiterMode::MinMod,
                        2 => LimiterMode::Superbee,
                        3 => LimiterMode::Monocent(c.lim_p),
                        _ => LimiterMode::VanLeer,
                    },
                }
            },
            time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig {
                rkf_mode: match c.rkf {
                    0 => RKFMode::RK1,
                    1 => RKFMode::RK2,
                    2 => RKFMode::RK3,
                    3 => RKFMode::RK4,
                    4 => RKFMode::Heun2,
                    5 => RKFMode::RKF12,
                    6 => RKFMode::RKF45,
                    7 => RKFMode::SSPRK3,
                    _ => RKFMode::SSPRK5,
                },
                asc: c.asc,
                asc_relative_tolerance: c.rtol,
                asc_absolute_tolerance: c.atol,
                asc_timestep_friction: c.friction,
            }),
            iter_max: c.iter_max as usize,
            t0: c.t0,
            t_end: c.t_end,
            dt_min: c.dt_min,
            dt_max: c.dt_max,
            dt_cfl_param: c.cfl,
        },
        output_counter_max: c.nout as usize,
        writer_config: c
            .streams
            .iter()
            .map(|s| OutputConfig {
                stream_mode: if s.file { StreamMode::File } else { StreamMode::Stdout },
                formatting_mode: if s.csv { FormattingMode::CSV } else { FormattingMode::TSV },
                string_conversion_mode: if s.vector {
                    ToStringConversionMode::Vector
                } else {
                    ToStringConversionMode::Scalar
                },
                folder_name: s.folder.clone(),
                should_clear_out_folder: s.clear,
                file_name: s.name.clone(),
                precision: s.prec as usize,
                should_print_ghostcells: s.ghost,
                should_print_metadata: s.meta,
                data_names: s.data.iter().map(|&d| data_name(d)).collect(),
            })
            .zip(&c.streams)
            .map(|(config, s)| default_stream(s).unwrap_or(config))
            .collect(),
    }
}

/// A stream that is exactly what the library offers ready-made, from the library
fn default_stream(s: &StreamCfg) -> Option<OutputConfig> {
    if s.file {
        let prims = s.data.get(2..).filter(|v| s.data[..2] == [4, 0] && v.iter().enumerate().all(|(k, &x)| x as usize == 10 + k))?;
        let same = s.csv && s.vector && s.clear && s.ghost && s.meta && s.prec == 7;
        same.then(|| OutputConfig::default_file(&s.folder, &s.name, prims.len()))
    } else {
        let same = !s.csv && !s.vector && !s.ghost && !s.meta && s.prec == 3 && s.folder.is_empty() && s.name.is_empty();
        (same && s.data == [5, 4, 6, 7]).then(OutputConfig::default_stdout)
    }
}

/// lengths, times and masses to SI and to CGS units
fn conversions(mode: u64, values: &[f64]) -> Vec<f64> {
    let u = Units::new(if mode == 0 { UnitsMode::SI } else { UnitsMode::CGS });
    let mut v = vec![];
    for &x in values {
        v.extend([
            u.convert_length_to_si(x),
            u.convert_time_to_si(x),
            u.convert_mass_to_si(x),
            u.convert_length_to_cgs(x),
            u.convert_time_to_cgs(x),
            u.convert_mass_to_cgs(x),
        ]);
    }
    v
}

fn ready_config<N: NumFlux<E, S> + 'static, const E: usize, const S: usize>(c: &SimCfg) -> CorriesConfig {
    let file = c.streams.iter().find(|s| s.file);
    let (folder, name) = file.map(|s| (s.folder.as_str(), s.name.as_str())).unwrap_or(("unused", "unused"));
    let mut cfg = CorriesConfig::default_riemann_test::<N, E, S>(c.t_end, folder, name);
    if c.ready & READY_NAMES != 0 {
        cfg.writer_config = c
            .streams
            .iter()
            .map(|s| {
                let names = s.data.iter().map(|&d| data_name(d)).collect();
                if let Some(config) = default_stream(s) {
                    config
                } else if s.file {
                    OutputConfig::default_file_with_names(&s.folder, &s.name, names)
                } else {
                    OutputConfig::default_stdout_with_names(names)
                }
            })
            .collect();
    }
    cfg.output_counter_max = c.nout as usize;
    cfg
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

/// Has something done for simulation i elsewhere, and waits for it.
fn at<R: Send>(hop: u8, i: usize, f: impl FnOnce() -> R + Send) -> R {
    let f = move || {
        let _c = Current::enter(i);
        f()
    };
    match hop {
        HOP_THREAD => std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|p| std::panic::resume_unwind(p)),
        HOP_JOIN => rayon::join(f, || ()).0,
        HOP_SCOPE => {
            let mut r = None;
            rayon::scope(|s| s.spawn(|_| r = Some(f())));
            r.unwrap()
        },
        _ => f(),
    }
}

/// The simulation this thread works at. A thread of the pool can interrupt one for another.
struct Current(usize);
impl Current {
    fn enter(i: usize) -> Self {
        let c = Current(plan::current());
        plan::set_current(i);
        c
    }
}
impl Drop for Current {
    fn drop(&mut self) {
        plan::set_current(self.0)
    }
}

/// These simulations in a parallel iterator
pub fn side_by_side(sims: &[u8], run: fn(usize)) {
    use rayon::prelude::*;
    sims.par_iter().for_each(|&i| run(i as usize));
}

pub fn go<P: Physics<E, S> + Clone + 'static, N: NumFlux<E, S> + 'static, const E: usize, const S: usize>(i: usize) {
    let c = plan::sim(i);
    let _c = Current::enter(i);
    plan::log(i, What::Start);
    if !c.convert.is_empty() {
        for mode in 0..2 {
            let v = conversions(mode, &c.convert);
            let _h = Harness::enter();
            let snap = Snap { iter: 0, t: 0.0, dt: 0.0, kind: String::new(), t_next: 0.0, dt_out: 0.0, prim: v, cons: vec![], cs: vec![] };
            plan::log(i, What::Note { op: OP_CONVERT | mode << 8, ok: true, snap });
        }
    }
    let cfg = if c.ready & READY_CONFIG != 0 { ready_config::<N, E, S>(c) } else { config(c) };
    let f: corries::initfuncs::InitFn<P, ProbeN<N>, ProbeT<P, E, S>, E, S> = match c.ready & (READY_NOH | READY_SOD) {
        0 => init,
        READY_NOH => corries::initfuncs::init_noh,
        _ => corries::initfuncs::init_sod,
    };
    let mut hops = c.hop.iter().copied().cycle();
    let mut hop = move || hops.next().unwrap_or(HOP_STAY);
    let r = at(hop(), i, || catch_unwind(AssertUnwindSafe(|| cfg.init_corries::<P, ProbeN<N>, ProbeT<P, E, S>, E, S>(f))));
    let mut comps = match r {
        Err(p) => {
            let _h = Harness::enter();
            plan::log(i, What::Init { ok: false, panic: true, msg: panic_text(p), snap: None });
            return;
        },
        Ok(Err(e)) => {
            let _h = Harness::enter();
            plan::log(i, What::Init { ok: false, panic: false, msg: format!("{e:#}"), snap: None });
            return;
        },
        Ok(Ok(x)) => x,
    };
    {
        let _h = Harness::enter();
        let s = snap(&comps.0, &view!(comps.1.timestep));
        plan::log(i, What::Init { ok: true, panic: false, msg: String::new(), snap: Some(s) });
    }
    seen(i, AT_INIT, &comps.0, &comps.2);
    if !c.script.is_empty() {
        return script::<P, N, E, S>(i, comps, hop);
    }
    let (mut retries, mut reruns) = (c.retries, c.reruns);
    loop {
        plan::log(i, What::RunBegin);
        match at(hop(), i, || catch_unwind(AssertUnwindSafe(|| {
            if c.manual.is_empty() {
                return comps.run_corries();
            }
            for off in &c.manual {
                let solver = &mut comps.1;
                if solver.timestep.t + solver.timestep.dt_min * 0.01 >= solver.timestep.t_end {
                    break;
                }
                // infinity: the user leaves the output schedule alone
                if off.is_finite() {
                    solver.timestep.t_next_output = solver.timestep.t + off;
                }
                let (u, mesh) = (&mut comps.0, &comps.2);
                at(hop(), i, || solver.next_solution(u, mesh))?;
            }
            Ok(())
        }))) {
            Err(p) => {
                plan::log(i, What::RunEnd { ok: false, panic: true, msg: panic_text(p) });
                return;
            },
            Ok(Err(e)) => {
                {
                    let _h = Harness::enter();
                    plan::log(i, What::RunEnd { ok: false, panic: false, msg: format!("{e:#}") });
                }
                if retries == 0 {
                    return;
                }
                retries -= 1;
            },
            Ok(Ok(())) => {
                plan::log(i, What::RunEnd { ok: true, panic: false, msg: String::new() });
                if reruns == 0 {
                    return;
                }
                reruns -= 1;
            },
        }
    }
}

/// The user works through a script; a failure does not stop them, a panic does.
fn script<P: Physics<E, S> + Clone + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(
    i: usize,
    mut comps: CorriesComponents<P, ProbeN<N>, ProbeT<P, E, S>, E, S>,
    mut hop: impl FnMut() -> u8 + Send,
) {
    let c = plan::sim(i);
    let mut kept = vec![];
    for &op in &c.script {
        let arg = (op >> 8) as usize;
        if matches!(op & 255, OP_RUN | OP_STEP) {
            plan::log(i, What::RunBegin);
        }
        let r = at(hop(), i, || catch_unwind(AssertUnwindSafe(|| {
            match op & 255 {
                OP_RUN => comps.run_corries()?,
                OP_STEP => {
                    let time = &mut comps.1.timestep;
                    if time.t + time.dt_min * 0.01 < time.t_end {
                        time.t_next_output = time.t_end;
                        comps.1.next_solution(&mut comps.0, &comps.2)?
                    }
                },
                OP_ITER_MAX => comps.1.timestep.iter_max = arg,
                OP_SAVE => kept.push((comps.0.clone(), comps.1.timestep.clone())),
                OP_RESTORE => {
                    if let Some((u, t)) = kept.get(arg) {
                        comps.0 = u.clone();
                        comps.1.timestep = t.clone();
                    }
                },
                OP_FRESH => {
                    let mut cfg = config(c);
                    cfg.writer_config.clear();
                    cfg.print_banner = false;
                    let t = comps.1.timestep.clone();
                    let x = cfg.init_corries::<P, ProbeN<N>, ProbeT<P, E, S>, E, S>(init::<P, ProbeN<N>, ProbeT<P, E, S>, E, S>)?;
                    comps.1 = x.1;
                    comps.1.timestep = t;
                },
                _ => {
                    comps.3.update_data(&comps.0.cent, &comps.1.timestep, &comps.2)?;
                    comps.3.write_output()?;
                },
            }
            Ok::<(), color_eyre::Report>(())
        })));
        let _h = Harness::enter();
        let (ok, panic, msg) = match r {
            Ok(Ok(())) => (true, false, String::new()),
            Ok(Err(e)) => (false, false, format!("{e:#}")),
            Err(p) => (false, true, panic_text(p)),
        };
        if panic && !matches!(op & 255, OP_RUN | OP_STEP) {
            plan::log(i, What::RunBegin);
        }
        if matches!(op & 255, OP_RUN | OP_STEP) || panic {
            plan::log(i, What::RunEnd { ok, panic, msg });
        }
        if panic {
            return;
        }
        plan::log(i, What::Note { op, ok, snap: snap(&comps.0, &view!(comps.1.timestep)) });
    }
}

/// the n-th block printed by thread i
pub fn printed(i: usize, n: usize, lines: u32) -> Vec<String> {
    (0..lines).map(|k| format!("thread {i} block {n} line {k} {}\n", "=".repeat((7 * k as usize + 31 * n) % 90))).collect()
}

fn print(i: usize) {
    use std::io::Write;
    let c = plan::sim(i);
    plan::set_current(i);
    for (n, &lines) in c.printer.iter().enumerate() {
        let text = {
            let _h = Harness::enter();
            printed(i, n, lines)
        };
        let mut out = std::io::stdout().lock();
        for l in &text {
            let _ = out.write_all(l.as_bytes());
        }
    }
}

/// Runs simulation number i of the current phase.
pub fn run_sim(i: usize) {
    let c = plan::sim(i);
    if !c.printer.is_empty() {
        return print(i);
    }
    macro_rules! pick {
        ($($s:literal),*) => {
            match (c.phys, c.flux, c.s) {
                $(
                    (0, 0, $s) => go::<Euler1DAdiabatic<$s>, Hll<3, $s>, 3, $s>(i),
                    (0, _, $s) => go::<Euler1DAdiabatic<$s>, Kt<3, $s>, 3, $s>(i),
                    (_, 0, $s) => go::<Euler1DIsot<$s>, Hll<2, $s>, 2, $s>(i),
                    (_, _, $s) => go::<Euler1DIsot<$s>, Kt<2, $s>, 2, $s>(i),
                )*
                _ => panic!("no such simulation"),
            }
        };
    }
    pick!(6, 7, 12, 24, 64, 131, 1031)
}
