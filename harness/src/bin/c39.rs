//! C39: an error keeps its cause, from where it arises to the message the user reads.
use multicalc::error::*;
use multicalc::linear_algebra::*;
use multicalc::scalar::{Numeric, ScalarFn, ScalarFnN, VectorFn};
use multicalc::vector_field::*;
use multicalc::*;
use multicalc_robot_model::*;
use std::any::Any;
use std::cell::Cell;
use std::error::Error;
use vmon::*;

/// An error as the user holds it: its value, the variant's name, and the cause it was built on.
struct Made {
    name: &'static str,
    err: Box<dyn Error>,
    umbrella: Option<CalcError>,
    cause: Option<Box<dyn Any>>,
    says: Vec<String>,
}
fn same<T: Error + PartialEq + 'static>(a: &dyn Any, b: &(dyn Error + 'static)) -> Option<bool> {
    Some(*a.downcast_ref::<T>()? == *b.downcast_ref::<T>()?)
}
fn equal(a: &dyn Any, b: &(dyn Error + 'static)) -> bool {
    macro_rules! any { ($($t:ty),*) => { $(if let Some(x) = same::<$t>(a, b) { return x; })* } }
    any!(LinalgError, DiffError, IntegrateError, SolveError, KinematicsError, SpatialError, EstimationError, SignalError, ControlError, DynamicsError, PlantError, MappingError, MotionError, PolynomialError, CalcError);
    false
}
fn linalg(c: &mut Case) -> LinalgError {
    let iters = if c.p(0.5) { c.us(0, 1000) } else { c.u64() as usize };
    c.pick(&[
        LinalgError::Singular,
        LinalgError::IllConditioned,
        LinalgError::NotPositiveDefinite,
        LinalgError::Underdetermined,
        LinalgError::NonFinite,
        LinalgError::NotSymmetric,
        LinalgError::InvalidTimestep,
        LinalgError::DidNotConverge { iters },
    ])
}
const DIFFS: [DiffError; 6] = [
    DiffError::OrderZero,
    DiffError::OrderUnsupported,
    DiffError::StepSizeZero,
    DiffError::InvalidStepSize,
    DiffError::IndexOutOfRange,
    DiffError::EmptyFunctionSet,
];
fn polynomial(c: &mut Case) -> PolynomialError {
    use PolynomialError::*;
    let steps = c.u64() as usize >> c.us(0, 63);
    let l = linalg(c);
    c.pick(&[NonFinite, LeadingCoefficientZero, DegreeOverflow, CapacityExceeded, Empty, VariableOutOfRange, DuplicateNode, TooFewSamples, SpanNotPositive, ToleranceNotPositive, RangeReversed, DidNotConverge { steps }, l.into()])
}
fn signal(c: &mut Case) -> SignalError {
    use SignalError::*;
    let l = linalg(c);
    c.pick(&[
        NonFinite,
        NonPositiveTimestep,
        CoefficientOutOfRange,
        FrequencyOutOfRange,
        NonPositiveQualityFactor,
        NegativeThreshold,
        ThresholdsOutOfOrder,
        NonPositiveRate,
        WindowTooShort,
        WindowEvenLength,
        PolynomialOrderTooHigh,
        SectionIndexOutOfRange,
        l.into(),
    ])
}
fn boxed<T: Any>(t: T) -> Option<Box<dyn Any>> {
    Some(Box::new(t))
}
fn num(text: Vec<usize>) -> Vec<String> {
    text.iter().map(|n| n.to_string()).collect()
}
/// One family value, what it was built on, and the umbrella made from it by `?`.
#[allow(deprecated)]
fn family(c: &mut Case) -> Made {
    macro_rules! made {
        ($name:expr, $e:expr, $variant:ident, $cause:expr, $says:expr) => {{
            let e = $e;
            let u: CalcError = (|| -> Result<(), CalcError> { Err(e)? })().unwrap_err();
            if u != CalcError::$variant(e) {
                c.fail("umbrella", format!("{e:?} became {u:?}"));
            }
            Made { name: $name, err: Box::new(e), umbrella: Some(u), cause: $cause, says: $says }
        }};
    }
    let l = linalg(c);
    let d = c.pick(&DIFFS);
    let n = c.u64() as usize >> c.us(0, 63);
    let says_l = match l {
        LinalgError::DidNotConverge { iters } => num(vec![iters]),
        _ => vec![],
    };
    match c.us(0, 13) {
        0 => made!("linalg", l, Linalg, None, says_l),
        1 => made!("diff", d, Differentiate, None, vec![]),
        2 => {
            use IntegrateError::*;
            let e = c.pick(&[IterationsZero, LimitsIllDefined, QuadratureOrderOutOfRange, StepSizeTooSmall, DidNotConverge { steps: n }, NonFinite, IndexOutOfRange, NonPositiveTimestep]);
            made!("integrate", e, Integrate, None, if let DidNotConverge { steps } = e { num(vec![steps]) } else { vec![] })
        }
        3 => match c.us(0, 4) {
            0 => made!("solve", SolveError::from(l), Solve, boxed(l), says_l),
            1 => made!("solve", SolveError::from(d), Solve, boxed(d), vec![]),
            2 => made!("solve", SolveError::DidNotConverge { iters: n }, Solve, None, num(vec![n])),
            3 => made!("solve", SolveError::NonFinite, Solve, None, vec![]),
            _ => made!("solve", SolveError::InvalidBracket, Solve, None, vec![]),
        },
        4 => {
            use KinematicsError::*;
            let e = c.pick(&[
                NonPositiveParameter,
                NonFinite,
                CapacityExceeded,
                JointCountMismatch,
                ParentOutOfOrder,
                AxisHasNoDirection,
                LimitsReversed,
                ToolIndexOutOfRange,
                StateShapeMismatch,
                NonPositiveWeight,
                FloatingJointNotAtRoot,
                ConfigurationCapacityExceeded,
                OrientationHasNoDirection,
                ContinuousJointHasLimits,
                StartCapacityExceeded,
                CollisionCapacityExceeded,
            ]);
            if c.p(0.3) { made!("kinematics", KinematicsError::from(l), Kinematics, boxed(l), says_l) } else { made!("kinematics", e, Kinematics, None, vec![]) }
        }
        5 => {
            use SpatialError::*;
            made!("spatial", c.pick(&[NonPositiveMass, NonFinite, NotSymmetric, NonPositiveInertia]), Spatial, None, vec![])
        }
        6 => {
            use EstimationError::*;
            let e = c.pick(&[NotPositiveDefinite, NonFinite, WeightsDegenerate, InvalidTuning, StateIndexOutOfRange]);
            if c.p(0.3) { made!("estimation", EstimationError::from(d), Estimation, boxed(d), vec![]) } else { made!("estimation", e, Estimation, None, vec![]) }
        }
        7 => {
            let e = signal(c);
            if c.p(0.3) { made!("signal", SignalError::from(l), Signal, boxed(l), says_l) } else { made!("signal", e, Signal, if let SignalError::Linalg(x) = e { boxed(x) } else { None }, vec![]) }
        }
        8 => {
            use ControlError::*;
            let s = signal(c);
            let e = c.pick(&[
                NonFinite,
                NonPositiveTimestep,
                InvalidOutputLimits,
                FilterCoefficientOutOfRange,
                NonPositiveLookaheadDistance,
                InvalidBeamCount,
                InvalidFieldOfView,
                NonPositiveRange,
                NonPositiveChassisWidth,
                NonPositiveSpeed,
                InvalidSpeedScaling,
                NegativeGoalBias,
                NonPositiveGain,
                NotSymmetricInertia,
                NonPositiveInertia,
                UndefinedThrustDirection,
                UndefinedHeadingDirection,
            ]);
            match c.us(0, 3) {
                0 => made!("control", ControlError::from(l), Control, boxed(l), says_l),
                1 => made!("control", ControlError::from(s), Control, boxed(s), vec![]),
                _ => made!("control", e, Control, None, vec![]),
            }
        }
        9 => match c.us(0, 2) {
            0 => made!("dynamics", DynamicsError::from(l), Dynamics, boxed(l), says_l),
            1 => made!("dynamics", DynamicsError::NonFinite, Dynamics, None, vec![]),
            _ => made!("dynamics", DynamicsError::NonPositiveInertia, Dynamics, None, vec![]),
        },
        10 => {
            use PlantError::*;
            let e = c.pick(&[NonFinite, NonPositiveArmLength, NonPositiveTorqueRatio, InvalidThrustLimits, RotorLayoutNotIndependent, NonPositiveTimeConstant, NonPositiveTimestep]);
            if c.p(0.3) { made!("plant", PlantError::from(l), Plant, boxed(l), says_l) } else { made!("plant", e, Plant, None, vec![]) }
        }
        11 => {
            use MappingError::*;
            made!("mapping", c.pick(&[NonFinite, NonPositiveResolution, EmptyGrid, GridTooLarge, TooFewBeams, InvalidFieldOfView, NonPositiveRange, InvalidRangeLimits]), Mapping, None, vec![])
        }
        12 => {
            use MotionError::*;
            let p = polynomial(c);
            let e = c.pick(&[NonFinite, CapacityExceeded, OutOfSync, PathTooShort, SegmentCountMismatch, DurationNotPositive, WorkspaceTooSmall, LimitNotPositive, JerkLimitRequired]);
            match c.us(0, 3) {
                0 => made!("motion", MotionError::from(l), Motion, boxed(l), says_l),
                1 => made!("motion", MotionError::from(p), Motion, boxed(p), vec![]),
                _ => made!("motion", e, Motion, None, vec![]),
            }
        }
        _ => {
            let e = polynomial(c);
            let says = if let PolynomialError::DidNotConverge { steps } = e { num(vec![steps]) } else { vec![] };
            made!("polynomial", e, Polynomial, if let PolynomialError::Linalg(x) = e { boxed(x) } else { None }, says)
        }
    }
}
fn model(c: &mut Case) -> Made {
    use ModelError::*;
    let mut word = || -> String { (0..c.us(1, 12)).map(|_| char::from(b'a' + c.us(0, 25) as u8)).chain("Qz9".chars()).collect() };
    let (a, b, d) = (word(), word(), word());
    let (n, m) = (c.us(0, 99999), c.us(100000, 999999));
    let s = |v: &[&String]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let (says, e) = match c.us(0, 28) {
        0 => (s(&[&a]), Xml(a)),
        1 => (s(&[&a]), FileRead(a)),
        2 => (vec![], MissingWorldbody),
        3 => (vec![], NoBodies),
        4 => ([s(&[&a]), num(vec![n])].concat(), MultipleJoints { body: a, count: n }),
        5 => (s(&[&a]), FreeJointNotAtRoot { body: a }),
        6 => (s(&[&a, &b]), UnsupportedJoint { body: a, joint_type: b }),
        7 => (s(&[&a, &b]), UnsupportedOrientation { element: a, attribute: b }),
        8 => (s(&[&a, &b]), UnsupportedElement { element: a, parent: b }),
        9 => (s(&[&a, &b, &d]), UnsupportedAttribute { element: a, attribute: b, value: d }),
        10 => (s(&[&a]), LimitsNeedRange { body: a }),
        11 => (s(&[&a]), NoInertiaSource { body: a }),
        12 => (s(&[&a, &b]), UnsupportedGeomType { body: a, geom_type: b }),
        13 => (s(&[&a]), MeshInertiaUnsupported { body: a }),
        14 => (s(&[&a, &b]), UnsupportedFromTo { body: a, geom_type: b }),
        15 => (s(&[&a]), ConflictingPlacement { body: a }),
        16 => (s(&[&a, &b, &d]), BadAttribute { element: a, attribute: b, value: d }),
        17 => (s(&[&a]), UndefinedClass { name: a }),
        18 => (s(&[&a]), UnknownBody { name: a }),
        19 => (num(vec![n, m]), TreeCapacityExceeded { needed: n, capacity: m }),
        20 => (vec![], IncludeNeedsFile),
        21 => (num(vec![n]), IncludeTooDeep { depth: n }),
        22 => (vec![], MissingRootLink),
        23 => (s(&[&a, &b, &d]), MultipleRootLinks { names: vec![a, b, d] }),
        24 => (s(&[&a, &b]), UnknownLink { joint: a, link: b }),
        25 => (s(&[&a, &b, &d]), LinkHasTwoParents { link: a, joints: vec![b, d] }),
        26 => (s(&[&a]), CyclicLinkage { link: a }),
        27 => (s(&[&a]), JointNeedsLimit { joint: a }),
        _ => match c.us(0, 4) {
            0 => (s(&[&a, &b]), MimicJointInTree { joint: a, follows: b }),
            1 => (s(&[&a]), UnexpectedRootElement { found: a }),
            2 => {
                let f = c.pick(&[ModelFormat::Mjcf, ModelFormat::Urdf]);
                (vec![f.to_string()], FormatNotEnabled { format: f })
            }
            3 => {
                let e = c.pick(&[SpatialError::NonPositiveMass, SpatialError::NonFinite, SpatialError::NotSymmetric, SpatialError::NonPositiveInertia]);
                return Made { name: "model", err: Box::new(ModelError::from(e)), umbrella: None, cause: boxed(e), says: vec![e.to_string()] };
            }
            _ => {
                let l = linalg(c);
                let e = c.pick(&[KinematicsError::NonFinite, KinematicsError::LimitsReversed, l.into()]);
                return Made { name: "model", err: Box::new(ModelError::from(e)), umbrella: None, cause: boxed(e), says: vec![e.to_string()] };
            }
        },
    };
    Made { name: "model", err: Box::new(e), umbrella: None, cause: None, says }
}
fn chain(c: &mut Case) {
    let m = if c.p(0.7) { family(c) } else { model(c) };
    let text = m.err.to_string();
    c.note("error", &(m.name, &text));
    c.ok(!text.trim().is_empty() && !text.contains('\n'), "message", || format!("{:?} reads {text:?}", m.err));
    for s in &m.says {
        c.ok(text.contains(s.as_str()), "message-detail", || format!("{:?} reads {text:?}, without {s:?}", m.err));
        c.hit("details found in the message");
    }
    match (&m.cause, m.err.source()) {
        (None, None) => {}
        (Some(k), Some(s)) => {
            c.ok(equal(k.as_ref(), s), "cause", || format!("{:?} names {s:?} as its cause", m.err));
            let inner = s.to_string();
            c.ok(text.contains(&inner), "message-cause", || format!("{text:?} leaves out its cause {inner:?}"));
            c.hit("causes followed");
        }
        (k, s) => c.fail("cause", format!("{:?}: built on a cause {}, source() is {s:?}", m.err, k.is_some())),
    }
    if let Some(u) = m.umbrella {
        c.eq("umbrella-message", u.to_string(), text.clone());
        let s = c.some("umbrella-cause", u.source());
        c.ok(format!("{s:?}") == format!("{:?}", m.err) && s.to_string() == text, "umbrella-cause", || format!("{u:?} names {s:?} as its cause"));
        // The chain from the umbrella ends at the cause.
        let mut last: &dyn Error = &u;
        let mut depth = 0;
        while let Some(s) = last.source() {
            last = s;
            depth += 1;
            c.ok(depth < 6, "chain-ends", || format!("{u:?}: the chain of causes does not end"));
        }
        c.hit("umbrella chains walked");
    }
    c.hit("errors read");
}

/// A backend that follows exact differentiation until the call it is told to fail at.
#[derive(Clone, Copy)]
struct Faulty<'a> {
    left: &'a Cell<i64>,
    error: DiffError,
}
impl Faulty<'_> {
    fn spend(&self) -> Result<(), DiffError> {
        let n = self.left.get();
        self.left.set(n - 1);
        if n == 0 { Err(self.error) } else { Ok(()) }
    }
}
impl DerivatorSingleVariable for Faulty<'_> {
    type Scalar = f64;
    fn differentiate<F: ScalarFn>(&self, order: usize, f: &F, x: f64) -> Result<f64, DiffError> {
        self.spend()?;
        AutoDiffSingle::<f64>::default().differentiate(order, f, x)
    }
}
impl DerivatorMultiVariable for Faulty<'_> {
    type Scalar = f64;
    fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, f: &F, idx: &[usize; O], p: &[f64; V]) -> Result<f64, DiffError> {
        self.spend()?;
        AutoDiffMulti::<f64>::default().differentiate(f, idx, p)
    }
    fn jacobian_column<F: VectorFn<V, M>, const V: usize, const M: usize>(&self, f: &F, col: usize, p: &[f64; V]) -> Result<[f64; M], DiffError> {
        self.spend()?;
        AutoDiffMulti::<f64>::default().jacobian_column(f, col, p)
    }
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// What a faulted run came to: the words of its answer, or the whole error.
type Out = Result<Vec<u64>, CalcError>;
fn fault(c: &mut Case) {
    let k = c.us(0, 11);
    let error = c.pick(&DIFFS);
    let (a, b, w): (f64, f64, f64) = (c.f(0.3, 2.0), c.f(-2.0, 2.0), c.f(0.1, 1.5));
    let x0: [f64; 3] = c.arr(|c| c.f(-1.5, 1.5));
    let (flag, steps) = (c.p(0.5), c.us(1, 5));
    let names = ["jacobian", "hessian", "linear approximation", "quadratic approximation", "curl", "divergence", "newton", "newton system", "gauss-newton", "levenberg-marquardt", "ekf predict", "ekf update"];
    c.note("user", &names[k]);
    c.note("data", &(a, b, w, x0, flag, steps));
    #[derive(Clone, Copy)]
    struct P(f64, f64, f64);
    impl ScalarFn for P {
        fn eval<S: Numeric>(&self, x: S) -> S {
            x * x * x * S::from_f64(0.3) + x * S::from_f64(self.0) + S::from_f64(self.1)
        }
    }
    impl ScalarFnN<3> for P {
        fn eval<S: Numeric>(&self, v: &[S; 3]) -> S {
            (v[0] * S::from_f64(self.0)).sin() * v[1] + v[2] * v[0] * S::from_f64(self.1) + v[1].exp() * S::from_f64(self.2)
        }
    }
    impl VectorFn<3, 3> for P {
        fn eval<S: Numeric>(&self, v: &[S; 3]) -> [S; 3] {
            let k = S::from_f64(0.2);
            [v[0] * S::from_f64(self.0) + (v[1] * k).sin() - S::from_f64(self.1), v[1] * S::from_f64(1.5) + v[2] * v[0] * k, v[2] + v[2] * v[2] * v[2] * k - S::from_f64(self.2)]
        }
    }
    impl VectorFn<3, 2> for P {
        fn eval<S: Numeric>(&self, v: &[S; 3]) -> [S; 2] {
            [v[0] * v[1] + S::from_f64(self.0), (v[2] * S::from_f64(self.2)).sin()]
        }
    }
    impl VectorFn<3, 5> for P {
        fn eval<S: Numeric>(&self, v: &[S; 3]) -> [S; 5] {
            let [a, b, c] = <P as VectorFn<3, 3>>::eval(self, v);
            [a, b, c, a + b * S::from_f64(0.5), v[0].sin() - c]
        }
    }
    let f = P(a, b, w);
    let run = |at: i64| -> (Out, i64) {
        let left = Cell::new(at);
        let d = Faulty { left: &left, error };
        let solve = |r: Result<Vec<u64>, SolveError>| r.map_err(CalcError::from);
        let ekf = || {
            ExtendedKalmanFilter::<3, 2, f64, Faulty>::from_derivator(
                Vector::new(x0),
                Matrix::identity(),
                Matrix::identity() * 0.1,
                Matrix::identity() * 0.5,
                d,
            )
        };
        let out: Out = match k {
            0 => Jacobian::from_derivator(d).evaluate::<P, 5, 3>(&f, &x0).map(|m| bits(m.as_slice_rows().as_flattened())).map_err(Into::into),
            1 => Hessian::from_derivator(d).evaluate(&f, &x0).map(|m| bits(m.as_slice_rows().as_flattened())).map_err(Into::into),
            2 => LinearApproximator::from_derivator(d).approximate(&f, &x0).map(|m| bits(m.coefficients())).map_err(Into::into),
            3 => QuadraticApproximator::from_derivator(d).approximate(&f, &x0).map(|m| bits(m.hessian().as_flattened())).map_err(Into::into),
            4 => {
                if flag {
                    curl_3d(d, &f, &x0).map(|v: [f64; 3]| bits(&v)).map_err(Into::into)
                } else {
                    curl_2d::<_, P, 3>(d, &f, &x0).map(|v| bits(&[v])).map_err(Into::into)
                }
            }
            5 => {
                if flag {
                    divergence_3d(d, &f, &x0).map(|v| bits(&[v])).map_err(Into::into)
                } else {
                    divergence_2d::<_, P, 3>(d, &f, &x0).map(|v| bits(&[v])).map_err(Into::into)
                }
            }
            6 => solve(Newton::from_derivator(d).with_backtracking(flag).solve(&f, x0[0]).map(|r| bits(&[r.root]))),
            7 => solve(NewtonSystem::from_derivator(d).with_backtracking(flag).solve::<P, 3>(&f, &x0).map(|r| bits(&r.root))),
            8 => solve(GaussNewton::from_derivator(d).with_backtracking(flag).minimize::<P, 3, 5>(&f, &x0).map(|r| bits(r.solution.as_slice()))),
            9 => solve(LevenbergMarquardt::from_derivator(d).with_scale_diag(flag).minimize::<P, 3, 5>(&f, &x0).map(|r| bits(r.solution.as_slice()))),
            _ => {
                let mut e = ekf();
                let mut r: Result<(), EstimationError> = Ok(());
                for _ in 0..steps {
                    r = if k == 10 { e.predict::<P>(&f) } else { e.update::<P>(&f, Vector::new([a, b])) };
                    if r.is_err() {
                        break;
                    }
                }
                r.map(|_| [bits(e.state().as_array()), bits(e.covariance().as_slice_rows().as_flattened())].concat()).map_err(Into::into)
            }
        };
        (out, at - left.get())
    };
    let (clean, calls) = run(i64::MAX);
    c.note("clean", &clean);
    // A fault past the last call changes nothing.
    let late = run(calls + c.us(0, 2) as i64).0;
    c.eq("fault-unreached", late, clean.clone());
    let at = if calls == 0 { return } else if c.p(0.3) { calls - 1 } else { c.us(0, calls as usize - 1) as i64 };
    c.note("fault", &(at, calls, error));
    let (out, _) = run(at);
    let want: CalcError = match k {
        0..=5 => error.into(),
        6..=9 => SolveError::Diff(error).into(),
        _ => EstimationError::Diff(error).into(),
    };
    c.ok(out == Err(want), "fault", || format!("{} with a backend failing with {error:?} at call {at} of {calls}: {out:?}", names[k]));
    c.hit(names[k]);
    if at > 0 {
        c.hit("faults past the first call");
    }
}

/// A step that fails inside a wrapper is reported as that step reports it.
fn inner(c: &mut Case) {
    let kind = c.us(0, 4);
    let scale = if c.p(0.5) { 1.0 } else { c.ls(1e-12, 1e12).abs() };
    let style = c.us(0, 4);
    let mut m = |c: &mut Case, sym: bool| -> [[f64; 3]; 3] {
        let g: [[f64; 3]; 3] = std::array::from_fn(|_| c.arr(|c| c.f(-1.0, 1.0) * scale));
        let mut a = g;
        if sym {
            for i in 0..3 {
                for j in 0..3 {
                    a[i][j] = (0..3).map(|k| g[i][k] * g[j][k]).sum::<f64>();
                }
            }
        }
        match style {
            0 => {}
            1 => a[c.us(0, 2)] = [0.0; 3],
            2 => {
                let v = c.hostile();
                a[c.us(0, 2)][c.us(0, 2)] = v;
            }
            3 => {
                for r in &mut a {
                    for v in r {
                        *v = -*v;
                    }
                }
            }
            _ => a[0][1] += if c.p(0.5) { 0.0 } else { 0.5 * scale },
        }
        a
    };
    let (a, mut q, r) = (m(c, false), m(c, true), m(c, true));
    if c.p(0.2) {
        // A cost that sees nothing, or not everything: the loop may be left running away.
        q = [[0.0; 3]; 3];
        if c.p(0.5) {
            q[0][0] = 1.0;
        }
    }
    let b = m(c, false);
    c.note("data", &(kind, a, b, q, r));
    match kind {
        0 | 1 => {
            let (a, b, q, r) = (Matrix::new(a), Matrix::new(b), Matrix::new(q), Matrix::new(r));
            let lqr = Lqr::new(a, b, q, r);
            match solve_discrete_riccati(a, b, q, r) {
                Err(e) => {
                    c.ok(matches!(&lqr, Err(ControlError::Linalg(x)) if *x == e), "lqr-cause", || format!("the Riccati solve fails with {e:?}, the controller says {:?}", lqr.map(|_| ())));
                    c.hit("controller causes");
                }
                Ok(_) => {
                    if let Ok(l) = lqr {
                        if let Err(e) = solve_discrete_lyapunov(l.closed_loop(), q).and_then(|p| p.cholesky()) {
                            let got = l.certify_stability();
                            c.ok(matches!(&got, Err(ControlError::Linalg(x)) if *x == e), "certificate-cause", || format!("the proof fails with {e:?}, the certificate says {got:?}"));
                            c.hit("certificate causes");
                        }
                    }
                }
            }
        }
        2 => {
            // A backend that works, on a residual whose slope is singular where it starts.
            struct G([[f64; 3]; 3]);
            impl VectorFn<3, 3> for G {
                fn eval<S: Numeric>(&self, v: &[S; 3]) -> [S; 3] {
                    std::array::from_fn(|i| (0..3).fold(S::ONE, |s, j| s + S::from_f64(self.0[i][j]) * v[j]))
                }
            }
            let want = Matrix::new(a).solve(Vector::new([-1.0; 3]));
            let got = NewtonSystem::<AutoDiffMulti>::new().solve(&G(a), &[0.0; 3]);
            if a.as_flattened().iter().all(|x| x.is_finite()) {
                if let Err(e) = want {
                    c.ok(matches!(&got, Err(SolveError::Linalg(x)) if *x == e), "newton-cause", || format!("the slope's factorization fails with {e:?}, the solver says {:?}", got.as_ref().map(|r| r.root)));
                    c.hit("solver causes");
                }
            }
        }
        3 => {
            let nodes = a[0];
            let n5 = [nodes[0], nodes[1], nodes[2], b[0][0], b[0][1]];
            let v5 = [q[0][0], q[1][1], r[0][0], r[1][1], a[1][0]];
            if let Err(e) = Polynomial::<3>::fit_least_squares::<5>(&n5, &v5) {
                c.ok(e.to_string().len() > 3 && CalcError::from(e).source().is_some(), "fit-cause", || format!("{e:?}"));
                c.hit("fits refused");
            }
        }
        _ => {
            // Integrators pass on their own errors, `?` takes every family into one.
            let all = || -> Result<f64, CalcError> {
                let lu = Matrix::new(a).lu_decompose()?;
                let x = lu.solve(Vector::new(b[0]));
                let s = SpatialInertia::new(a[0][0], Vector::new(b[1]), Matrix::new(q));
                let s = s?;
                Ok(x[0] + s.mass())
            };
            let got = all();
            let want = match Matrix::new(a).lu_decompose() {
                Err(e) => Err(CalcError::Linalg(e)),
                Ok(lu) => match SpatialInertia::new(a[0][0], Vector::new(b[1]), Matrix::new(q)) {
                    Err(e) => Err(CalcError::Spatial(e)),
                    Ok(s) => Ok((lu.solve(Vector::new(b[0]))[0] + s.mass()).to_bits()),
                },
            };
            c.eq("mixed", got.map(f64::to_bits), want);
            if want.is_err() {
                c.hit("mixed programs stopped");
            }
        }
    }
}

fn main() {
    vmon::run("C39", |s| {
        s.rule("every error value of every family reads as one line of text that carries the numbers and names it holds and its cause's text");
        s.rule("an error built on another names exactly that one as its source; `?` into the umbrella loses neither value, text nor source");
        s.rule("a backend failing at any call of any algorithm built on it comes back as exactly that error; a fault never reached changes nothing");
        s.rule("a wrapper reports the failing inner step's own error");
        s.assume("every error type the crates export is listed in this monitor");
        s.monitor("chain", 600_000, 20, chain);
        s.monitor("fault", 200_000, 20, fault);
        s.monitor("inner", 200_000, 20, inner);
        for (e, n) in [
            ("errors read", 100_000), ("causes followed", 20_000), ("umbrella chains walked", 50_000), ("details found in the message", 20_000),
            ("jacobian", 1000), ("hessian", 1000), ("linear approximation", 1000), ("quadratic approximation", 1000), ("curl", 1000), ("divergence", 1000),
            ("newton", 1000), ("newton system", 1000), ("gauss-newton", 1000), ("levenberg-marquardt", 1000), ("ekf predict", 1000), ("ekf update", 1000),
            ("faults past the first call", 10_000), ("controller causes", 1000), ("certificate causes", 5), ("solver causes", 500), ("fits refused", 500), ("mixed programs stopped", 1000),
        ] {
            s.require(e, n);
        }
    });
}
