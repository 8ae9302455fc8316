mod gr;
mod ops;
mod refr;
mod sys;
mod util;
use ops::*;
use util::*;

fn family(dev: Dev, r: &Rng, f: Fam, node_too: bool) -> Result<(), String> {
    let c = gen(r, f);
    let e = |k: &str, x: Result<(), String>| x.map_err(|m| format!("{} of {:?} on {:?}: {}", k, c.o, c.x, m));
    trace(&|| format!("{:?} on {:?}", c.o, c.x));
    e("evaluation", forward(dev, &c))?;
    if node_too {
        e("node", node(dev, &c))?;
    }
    e("operand forms", forms(dev, &c))?;
    e("operator", backward(dev, r, &c))
}
fn grads(dev: Dev, r: &Rng, f: Fam) -> Result<(), String> {
    let c = gen(r, f);
    trace(&|| format!("{:?} on {:?}", c.o, c.x));
    backward(dev, r, &c).map_err(|m| format!("operator {:?} on {:?}: {}", c.o, c.x, m))
}
fn fwd(dev: Dev, r: &Rng, f: Fam) -> Result<(), String> {
    let c = gen(r, f);
    trace(&|| format!("{:?} on {:?}", c.o, c.x));
    forward(dev, &c).map_err(|m| format!("evaluation of {:?} on {:?}: {}", c.o, c.x, m))?;
    forms(dev, &c).map_err(|m| format!("operand forms of {:?} on {:?}: {}", c.o, c.x, m))
}
fn both(dev: Dev, r: &Rng, f: Fam) -> Result<(), String> {
    let c = gen(r, f);
    trace(&|| format!("{:?} on {:?}", c.o, c.x));
    node(dev, &c).map_err(|m| format!("node of {:?} on {:?}: {}", c.o, c.x, m))?;
    forms(dev, &c).map_err(|m| format!("operand forms of {:?} on {:?}: {}", c.o, c.x, m))
}
fn accept(dev: Dev, r: &Rng, f: Fam) -> Result<(), String> {
    let c = gen(r, f);
    trace(&|| format!("shapes of {:?} on {:?}", c.o, shs(&c)));
    let m = |k: &str, e: String| format!("{} of {:?} on shapes {:?}: {}", k, c.o, shs(&c), e);
    accepts(dev, &c).map_err(|e| m("result shape", e))
}
fn one(p: &str, dev: Dev, r: &Rng, i: usize) -> Result<(), String> {
    match p {
        "C01" => sys::c01(dev, r),
        "C02" => if i % 6 == 5 { sys::c02_bw(dev, r) } else { accept(dev, r, ALL[i % 6]) },
        "C03" => sys::c03(dev, r),
        "C04" => if i % 2 == 0 { sys::c04(dev, r) } else { family(dev, r, ALL[(i / 2) % 5], true) },
        "C05" => fwd(dev, r, Fam::Elem),
        "C06" => grads(dev, r, Fam::Elem),
        "C07" => match i % 4 {
            0 => arg(dev, r).map(|_| ()).map_err(|e| format!("positions in {:?} along {} values {:?}: {}", e.0, e.1, e.2, e.3)),
            1 => ties(dev, r),
            2 => fwd(dev, r, Fam::Red),
            _ => grads(dev, r, Fam::Red),
        },
        "C08" => if i % 20 == 19 { sys::identity(dev, r) } else if i % 2 == 0 { fwd(dev, r, Fam::Mat) } else { grads(dev, r, Fam::Mat) },
        "C09" => if i % 2 == 0 { fwd(dev, r, Fam::Man) } else { grads(dev, r, Fam::Man) },
        "C10" => if i % 6 == 5 { gr::c10(dev, r) } else { both(dev, r, ALL[i % 6]) },
        "C11" => if i % 4 == 3 { grads(dev, r, ALL[(i / 4) % 5]) } else { gr::c11(dev, r) },
        "C12" => sys::c12(dev, r),
        "C13" => sys::c13(dev, r),
        "C14" => if i % 4 == 3 { mixed(dev, second(), r) } else { sys::c14(dev, r) },
        "C15" => sys::c15(dev, r),
        "C16" => sys::c16(dev, r),
        "C17" => sys::c17(dev, r),
        "C18" => match i % 8 { 0 => sys::dropout(dev, r), 1 if i % 64 == 1 => sys::dropout_rate(dev), k if k % 2 == 0 => fwd(dev, r, Fam::Contrib), _ => both(dev, r, Fam::Contrib) },
        _ => panic!("unknown property"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (p, seed, ms): (&str, u64, u128) = (&a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
    std::panic::set_hook(Box::new(|i| util::note(i)));
    util::TRACE.store(std::env::var("VH_TRACE").is_ok(), std::sync::atomic::Ordering::Relaxed);
    let dev = mkdev();
    let r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D));
    let t = std::time::Instant::now();
    let mut n = 0;
    while t.elapsed().as_millis() < ms {
        if let Err(e) = one(p, dev, &r, n) {
            println!("FAIL case {} of seed {}: {}", n, seed, e);
            std::process::exit(1);
        }
        n += 1;
    }
    println!("OK {}", n);
}
