//! C37: nothing outside the heap-only types touches the heap.
use multicalc::*;
use vmon::alloc_mon::*;
use vmon::api::*;
use vmon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;
type List = Vec<(&'static str, Scenario)>;
fn one(c: &mut Case, list: &List, style: Style) {
    let k = c.us(0, list.len() - 1);
    let seed = c.u64();
    let (name, f) = list[k];
    c.note("scenario", &name);
    c.note("seed", &(seed, style));
    let mut sim = Box::new(Sim::new(seed, style));
    let (_, n) = count_allocs(|| f(&mut sim));
    c.ok(n == 0, name, || format!("{n} heap requests"));
    c.hits("values returned", sim.n as u64);
    c.hit("programs run without the heap");
}
/// The monitor sees heap use: the heap-only types make it count.
fn control(c: &mut Case) {
    let n = c.us(1, 64);
    c.note("n", &n);
    let (v, k) = count_allocs(|| vec![0u8; n]);
    c.ok(k == 1 && v.len() == n, "control", || format!("{k} requests counted for one vector"));
    let list = est::heap::<f64>();
    let seed = c.u64();
    let mut total = 0;
    for (_, f) in &list {
        let mut sim = Box::new(Sim::new(seed, Style::Tame));
        total += count_allocs(|| f(&mut sim)).1;
    }
    c.ok(total > 0, "control-heap", || "the heap-only types made no heap request".into());
    c.hits("heap requests counted in the heap-only types", total);
}
/// A particle filter in steady running asks for nothing more.
fn particles<T: Sc>(c: &mut Case) {
    let n = c.us(2, 60);
    let scheme = c.pick(&[ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual]);
    let rough = c.p(0.5);
    let threshold = c.unit();
    let steps = c.us(1, 6);
    let seed = c.u64();
    c.note("filter", &(n, scheme, rough, threshold, seed));
    let eye = Matrix::<2, 2, T>::identity();
    let (made, k) = count_allocs(|| ParticleFilter::<2, 1, T>::new(n, Vector::new([T::ZERO; 2]), eye, eye * T::t(0.1), seed));
    c.ok(k > 0, "control-particles", || "building the filter made no heap request".into());
    let mut f = c.get("particle filter", made).with_resampling(scheme).with_resample_threshold(T::t(threshold));
    if rough {
        f = f.with_roughening(T::t(0.05));
    }
    let likelihood = c.get("likelihood", GaussianLikelihood::new(Matrix::<1, 1, T>::identity()));
    let process = scalar_fn_vec!(|v: &[f64; 2]| [v[0] + v[1] * S::from_f64(0.1), v[1]]);
    let measure = scalar_fn_vec!(|v: &[f64; 2]| [v[0]]);
    let mut resampled = 0u64;
    for k in 0..steps {
        let z = Vector::new([T::t(c.f(-2.0, 2.0))]);
        let by_hand = c.p(0.3);
        let forced = c.p(0.3);
        let (r, n) = count_allocs(|| {
            let a = f.predict(&process);
            let b = if by_hand { f.update_with_log_weights(|x| -(x[0] * x[0])) } else { f.update(&measure, &likelihood, z) };
            if forced {
                f.resample();
            }
            let kept = (f.mean(), f.particles().len(), f.effective_sample_size(), f.maximum_a_posteriori_state(), f.weights().len());
            (a.is_ok(), b.is_ok(), kept.4 + kept.1)
        });
        resampled += forced as u64;
        c.ok(n == 0, "particle-steady", || format!("{n} heap requests in step {k} ({r:?})"));
    }
    c.hits("particle steps without the heap", steps as u64);
    c.hits("of them resampled on request", resampled);
}
fn main() {
    vmon::run("C37", |s| {
        s.rule("A case counts when a short program over one corner of the public API ran to its end with every heap request of its thread counted, and the count was zero; distinct = distinct programs and inputs.");
        s.assume("The programs cover everything but the two features the documentation reserves for the heap (heap-sized grids, finite-difference Jacobians of runtime size, the particle filter and the localizer built on it); the model reader is a std crate and is not claimed here.");
        let lists: [(&'static str, List); 2] = [("f64", all::<f64>()), ("f32", all::<f32>())];
        for (name, list) in &lists {
            s.monitor(&format!("{name}-ordinary"), 200000, 20, |c| {
                let st = if c.p(0.2) { Style::Smooth } else { Style::Tame };
                one(c, list, st)
            });
            s.monitor(&format!("{name}-wide"), 200000, 20, |c| one(c, list, Style::Wide));
            s.monitor(&format!("{name}-hostile"), 400000, 20, |c| {
                let h = c.pick(&[3u16, 20, 150, 600]);
                one(c, list, Style::Hostile(h))
            });
        }
        s.monitor("control", 200, 4, control);
        s.monitor("particles", 4000, 20, |c| if c.p(0.3) { particles::<f32>(c) } else { particles::<f64>(c) });
        for (e, n) in [("programs run without the heap", 30000), ("values returned", 500000), ("particle steps without the heap", 5000), ("heap requests counted in the heap-only types", 1000)] {
            s.require(e, n);
        }
    });
}
