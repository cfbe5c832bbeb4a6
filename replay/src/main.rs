//! Bounded search for inputs on which the real code breaks a property.
//! usage: replay PROP SEED SECONDS [TRACEFILE]
//! prints one line of JSON
mod ctx;
mod gen;
mod oracle;
mod props;
mod writer;
use ctx::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (_, f, rule) = *props::ALL_PROPS
        .iter()
        .find(|p| p.0 == a[1])
        .expect("unknown property");
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let trace = a.get(4).map(|p| std::fs::File::create(p).unwrap());
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut c = Ctx::new(seed, secs);
            c.trace = trace;
            let r = f(&mut c);
            (c, r)
        })
        .unwrap();
    // a case that runs for more than 30 s counts as a hang
    let mut last = 0;
    let mut since = std::time::Instant::now();
    while !h.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let t = TICK.load(std::sync::atomic::Ordering::Relaxed);
        if t != last {
            last = t;
            since = std::time::Instant::now();
        } else if since.elapsed().as_secs() > 30 {
            let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
            println!("{{\"fail\":{{\"input\":{},\"expected\":\"termination\",\"actual\":\"still running after 30 s\"}},\"evals\":{t},\"distinct\":0,\"samples\":[],\"rule\":{}}}", js(&cur), js(rule));
            std::process::exit(0);
        }
    }
    let (c, r) = h.join().expect("search thread");
    let fail = match r {
        Ok(()) => "null".to_string(),
        Err(f) => format!(
            "{{\"input\":{},\"expected\":{},\"actual\":{}}}",
            js(&f.input),
            js(&f.expected),
            js(&f.actual)
        ),
    };
    println!(
        "{{\"fail\":{fail},\"evals\":{},\"distinct\":{},\"samples\":[{}],\"rule\":{}}}",
        c.evals,
        c.distinct.len(),
        c.samples
            .iter()
            .map(|s| js(s))
            .collect::<Vec<_>>()
            .join(","),
        js(rule)
    );
}
