//! rlsim: deterministic simulation of rawloader. See DESIGN.md.
mod db;
mod look;
mod enc;
mod engine;
mod files;
mod minim;
mod model;
mod orch;
mod props;
mod rt;
mod scen;
mod worker;
use rt::*;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  set_env("RUST_BACKTRACE", "0");
  // addresses are a source of nondeterminism as well
  unsafe {
    extern "C" { fn personality(p: u64) -> i32; }
    let p = personality(0xffff_ffff);
    if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("RLSIM_NOASLR").is_none() {
      set_env("RLSIM_NOASLR", "1");
      if personality(p as u64 | 0x0040000) >= 0 {
        let cs: Vec<_> = a.iter().map(|x| std::ffi::CString::new(x.as_str()).unwrap()).collect();
        let mut ps: Vec<*const i8> = cs.iter().map(|x| x.as_ptr() as *const i8).collect();
        ps.push(std::ptr::null());
        let exe = std::ffi::CString::new(std::env::current_exe().unwrap().to_str().unwrap()).unwrap();
        execv(exe.as_ptr() as *const i8, ps.as_ptr());
      }
    }
  }
  let opt = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string()) };
  let code = match a.get(1).map(|x| &x[..]).unwrap_or("") {
    "check" => orch::check(&a[2], &opt("--tier", "quick"), opt("--seed", "1").parse().unwrap(), opt("--secs", "0").parse().unwrap(), &opt("--verif", "/verif")),
    "worker" => worker::main(&a[2], &opt("--tier", "quick"), opt("--seed", "1").parse().unwrap(), opt("--index", "0").parse().unwrap(), opt("--secs", "20").parse().unwrap(), &opt("--dir", ""), opt("--dev", "0") == "1"),
    "replay" => minim::replay(&a[2]),
    "determinism" => worker::determinism(&opt("--prop", ""), opt("--seed", "1").parse().unwrap(), opt("--n", "50").parse().unwrap()),
    "formats" => worker::formats(a.get(2).map(|x| &x[..]).unwrap_or("")),
    "meta" => worker::meta(),
    "dump" => { std::fs::write(&a[3], files::FileSpec::parse(&a[2]).bytes()).unwrap(); 0 }
    "trunc" => worker::trunc(),
    "corpus" => { let mut r = rt::Rng::new(a[4].parse().unwrap()); let n: usize = a[3].parse().unwrap(); for i in 0..n { let f = files::FORMATS[i % files::FORMATS.len()]; let mut s = files::FileSpec::gen(&mut r, &[f], true); if a.len() > 5 { s.damage(&mut r, 2) } std::fs::write(format!("{}/{:05}.{}", a[2], i, f), s.bytes()).unwrap(); } 0 }
    _ => { eprintln!("rlsim check PROP --tier quick|thorough --seed N | replay FILE | determinism | formats"); 2 }
  };
  std::process::exit(code);
}
