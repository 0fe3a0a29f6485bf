mod alloc;
mod c_brk;
mod c_chain;
mod c_cli;
mod c_edit;
mod c_enc;
mod c_ind;
mod c_misc;
mod c_neg;
mod c_ops;
mod flow;
mod gen;
mod h;
mod model;
mod rng;
mod text;

use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};

use h::Check;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn checks() -> Vec<&'static Check> {
    let mut v = Vec::new();
    v.extend(c_edit::CHECKS);
    v.extend(c_ops::CHECKS);
    v.extend(c_brk::CHECKS);
    v.extend(c_neg::CHECKS);
    v.extend(c_enc::CHECKS);
    v.extend(c_misc::CHECKS);
    v.extend(c_cli::CHECKS);
    v.extend(c_ind::CHECKS);
    v.extend(c_chain::CHECKS);
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = match args.first() {
        Some(i) => i.clone(),
        None => {
            for c in checks() {
                println!("{}", c.id);
            }
            return;
        }
    };
    let check = match checks().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {}", id);
            exit(2)
        }
    };
    h::install_panic_hook();
    if let Some(p) = args.iter().position(|a| a == "--child") {
        exit(c_ind::child(&args[p + 1]));
    }
    if let Some(p) = args.iter().position(|a| a == "--case" || a == "--one") {
        let n: u64 = args[p + 1].parse().expect("case number");
        let verbose = args[p] == "--case";
        let code = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || h::run_case(check, n, verbose))
            .unwrap()
            .join()
            .unwrap_or(2);
        exit(code);
    }
    if let Some(p) = args.iter().position(|a| a == "--worker") {
        exit(h::run_all(check, Some(std::path::Path::new(&args[p + 1]))));
    }
    // Supervisor: a crash (abort, stack overflow, out of memory) of the worker is attributed to
    // the case that was running.
    let _ = std::fs::create_dir_all(h::out_dir());
    let inflight = h::out_dir().join(format!("{}-{}.inflight", id, std::process::id()));
    let exe = std::env::current_exe().expect("own path");
    let status = Command::new(&exe)
        .arg(&id)
        .arg("--worker")
        .arg(&inflight)
        .status()
        .expect("start worker");
    let cases = std::fs::read(&inflight).unwrap_or_default();
    let _ = std::fs::remove_file(&inflight);
    if let Some(c) = status.code() {
        if c == 0 || c == 1 || c == 2 {
            exit(c);
        }
    }
    println!("worker ended abnormally: {:?}", status);
    // every case that was running, by itself, with bounds on memory and CPU time
    let mut running = Vec::new();
    for c in cases.chunks(8).filter(|c| c.len() == 8) {
        let mut b = [0u8; 8];
        b.copy_from_slice(c);
        let case = u64::from_le_bytes(b);
        if case == 0 {
            continue;
        }
        let limited = format!(
            "ulimit -S -v 2500000; ulimit -S -t {}; exec \"$0\" \"$@\"",
            h::hang_cpu_ms(case - 1) / 1000
        );
        let child = Command::new("bash")
            .arg("-c")
            .arg(limited)
            .arg(&exe)
            .arg(&id)
            .arg("--one")
            .arg((case - 1).to_string())
            .spawn();
        if let Ok(c) = child {
            running.push((case - 1, c));
        }
    }
    let mut verdict = 2;
    for (case, mut child) in running {
        let st = match child.wait() {
            Ok(st) => st,
            Err(_) => continue,
        };
        // signal 9: ended from outside (memory), no verdict
        if verdict == 1 || st.signal() == Some(9) {
            continue;
        }
        if st.code() == Some(1) {
            verdict = 1;
        } else if st.code().is_none() {
            let msg = format!("case {} crashes the process or doesn't end: {:?}", case, st);
            let p = h::write_replay(&id, Some(case), &msg, "", &[]);
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", id, p.display());
            h::write_evidence(check, 1, 0, 0, &[], &Default::default(), 0.0, 1);
            verdict = 1;
        }
    }
    exit(verdict);
}
