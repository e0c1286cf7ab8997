//! C35: the library never panics, whatever it is handed.
use vmon::api::*;
use vmon::*;

type List = Vec<(&'static str, Scenario)>;
fn one(c: &mut Case, list: &List, style: Style) {
    let k = c.us(0, list.len() - 1);
    let seed = c.u64();
    let (name, f) = list[k];
    c.note("scenario", &name);
    c.note("seed", &(seed, style));
    let mut sim = Box::new(Sim::new(seed, style));
    if let Err(e) = guard(|| f(&mut sim)) {
        c.fail(name, e)
    }
    c.ok(sim.n > 0, "ran", String::new);
    c.hits("values returned", sim.n as u64);
    c.hits("impossible values handed over", sim.hostile as u64);
    c.hits("non-finite values returned", sim.values().iter().filter(|v| !v.is_finite()).count() as u64);
    c.hit("programs run");
}
fn main() {
    vmon::run("C35", |s| {
        s.rule("A case counts when a short program over one corner of the public API was run to its end on drawn inputs, every error it met was formatted both ways, and no call panicked (the build has debug assertions and overflow checks on); distinct = distinct programs and inputs.");
        s.assume("Inputs are drawn at random: ordinary values, values over 18 decades, and values of which a share is NaN, infinite, subnormal, the largest finite, signed zeros, or huge; indices and sizes include ones far out of range wherever the API answers with an Option or a Result. Indexing with [] outside the bounds is excluded.");
        let lists: [(&'static str, List, u64); 4] = [("f64", all::<f64>(), 1500000), ("f32", all::<f32>(), 1500000), ("f64-heap", est::heap::<f64>(), 60000), ("f32-heap", est::heap::<f32>(), 60000)];
        for (name, list, n) in &lists {
            s.monitor(&format!("{name}-ordinary"), n / 4, 20, |c| {
                let st = if c.p(0.2) { Style::Smooth } else { Style::Tame };
                one(c, list, st)
            });
            s.monitor(&format!("{name}-wide"), n / 4, 20, |c| one(c, list, Style::Wide));
            s.monitor(&format!("{name}-hostile"), *n, 20, |c| {
                let h = c.pick(&[3u16, 10, 20, 50, 150, 400, 600, 1000]);
                one(c, list, Style::Hostile(h))
            });
        }
        for (e, n) in [("programs run", 50000), ("values returned", 1000000), ("impossible values handed over", 100000), ("non-finite values returned", 10000)] {
            s.require(e, n);
        }
    });
}
