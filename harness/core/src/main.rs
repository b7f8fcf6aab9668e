mod gen;
mod infer;
mod wrap;
mod obj;
mod ser;
mod enc;
mod tag;
mod tf;
use serde_json::Value;
use std::io::{BufRead, Write};

fn main() {
    let mode = std::env::args().nth(1).expect("mode");
    let file = |n: usize| std::env::args().nth(n).expect("file");
    std::panic::set_hook(Box::new(|_| {}));
    let f: fn(&Value) -> Value = match mode.as_str() {
        "gen" => gen::run,
        "tf" => tf::run,
        "obj" => obj::run,
        "ser" => ser::run,
        "enc" => enc::run,
        "infer" => infer::run,
        "wrap" => wrap::run,
        m => panic!("unknown mode {m}"),
    };
    let input = std::io::BufReader::new(std::fs::File::open(file(2)).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(file(3)).unwrap());
    // a case that does not finish ends the process; the caller records it and goes on with the next
    let beat = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let b2 = beat.clone();
    std::thread::spawn(move || {
        let (mut last, mut idle) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = b2.load(std::sync::atomic::Ordering::SeqCst);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > 60 {
                std::process::exit(97);
            }
        }
    });
    // a generous stack, so that deep but finite recursion is not mistaken for a hang
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            for line in input.lines() {
                let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
                let v = f(&case);
                serde_json::to_writer(&mut out, &v).unwrap();
                out.write_all(b"\n").unwrap();
                out.flush().unwrap();
                beat.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
