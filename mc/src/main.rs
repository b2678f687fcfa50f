//! The model checker: explores every case of a property's spaces on all cores and compares the
//! library with the reference model on each.
mod g;
mod gen;
mod gspace;
mod model;
mod props;
mod real;
mod rx;
mod script;
mod space;

use space::*;
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, ExitCode, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static BEAT: AtomicU64 = AtomicU64::new(0);
const HANG_S: u64 = 30;
const RECYCLE_KB: u64 = 1_500_000;

extern "C" {
  fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit_memory(bytes: u64) {
  // RLIMIT_AS; RLIMIT_CORE
  unsafe {
    setrlimit(9, &[bytes, bytes]);
    setrlimit(4, &[0, 0]);
  }
}

fn rss_kb() -> u64 {
  fs::read_to_string("/proc/self/statm")
    .ok()
    .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
    .unwrap_or(0)
    * 4
}

/// The processor time that this process has used.
fn cpu_s() -> u64 {
  let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
  let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
  let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
  (t(11) + t(12)) / 100
}

fn verif() -> String {
  std::env::var("MC_HOME").unwrap_or_else(|_| "/verif".into())
}

fn watchdog() {
  std::thread::spawn(|| {
    let mut last = u64::MAX;
    let (mut idle, mut used) = (0, 0);
    loop {
      std::thread::sleep(Duration::from_secs(1));
      let now = BEAT.load(Ordering::Relaxed);
      // (nothing of the library runs before the first case)
      if now == last && now > 0 {
        idle += 1;
      } else {
        idle = 0;
        used = cpu_s();
      }
      last = now;
      // Time that other processes took does not count as the library's.
      if idle >= HANG_S && (cpu_s().saturating_sub(used) >= HANG_S || idle >= 5 * HANG_S) {
        eprintln!("HANG");
        std::process::exit(99);
      }
    }
  });
}

pub fn beat() {
  BEAT.fetch_add(1, Ordering::Relaxed);
}

fn known_findings(id: &str) -> HashSet<String> {
  let mut v = HashSet::new();
  if let Ok(s) = fs::read_to_string(format!("{}/known_findings.txt", verif())) {
    for l in s.lines() {
      if let Some(r) = l.strip_prefix(&format!("finding: property={} ", id)) {
        v.insert(r.to_string());
      }
    }
  }
  v
}

/// Runs cases `from`, `from + n`, ... of all spaces.
fn worker(id: &str, tier: &str, n: u64, from: u64, deadline: u64, state: &str, out: &str) -> i32 {
  let spaces = props::spaces(id, tier);
  let known = known_findings(id);
  let total: u64 = spaces.iter().map(|s| s.len()).sum();
  let st = fs::OpenOptions::new().write(true).create(true).open(state).unwrap();
  let mut stats = Stats::default();
  let started = Instant::now();
  let mut code = 0;
  let mut cases = 0u64;
  let mut next = from;
  let mut base = 0;
  let mut k = 0;
  let mut text = String::new();
  // in development, MC_SPREAD goes through the cases in an order that is not that of the spaces
  let spread = std::env::var("MC_SPREAD").is_ok() && n < u64::MAX;
  let step = {
    fn gcd(a: u64, b: u64) -> u64 {
      if b == 0 {
        a
      } else {
        gcd(b, a % b)
      }
    }
    let mut s = (total as f64 * 0.618) as u64 | 1;
    while gcd(s, total) != 1 {
      s += 2;
    }
    s
  };
  let mut at = 0;
  while next < total {
    if spread {
      at = (next as u128 * step as u128 % total as u128) as u64;
      (base, k) = (0, 0);
    } else {
      at = next;
    }
    while at >= base + spaces[k].len() {
      base += spaces[k].len();
      k += 1;
    }
    st.write_at(&at.to_le_bytes(), 0).unwrap();
    beat();
    match real::guarded(|| spaces[k].run(at - base, &mut stats, &mut beat)) {
      Ok(Ok(())) => {}
      Ok(Err(v)) => {
        if known.contains(&v.case) {
          stats.known.push(v.case);
        } else {
          text = format!("{}\n{}", v.case, v.detail);
          code = 10;
          break;
        }
      }
      Err(p) => {
        text = format!("{}\npanic: {}", spaces[k].describe(at - base), p);
        code = 10;
        break;
      }
    }
    cases += 1;
    next = next.saturating_add(n);
    if cases % 64 == 0 {
      if started.elapsed().as_secs() >= deadline {
        code = 12;
        break;
      }
      if rss_kb() > RECYCLE_KB {
        code = 11;
        break;
      }
    }
  }
  let mut f = fs::File::create(out).unwrap();
  writeln!(
    f,
    "{} {} {} {} {} {}",
    if code == 10 { at } else { next }, cases, stats.states, stats.transitions, stats.traces, stats.undefined
  )
  .unwrap();
  let o: Vec<String> = stats.outcomes.iter().map(|x| format!("{:x}", x)).collect();
  writeln!(f, "{}", o.join(" ")).unwrap();
  writeln!(f, "{}", stats.known.len()).unwrap();
  for k in &stats.known {
    writeln!(f, "{}", k).unwrap();
  }
  write!(f, "{}", text).unwrap();
  code
}

fn locate(spaces: &[Box<dyn Space>], i: u64) -> (usize, u64) {
  let mut base = 0;
  for (k, s) in spaces.iter().enumerate() {
    if i < base + s.len() {
      return (k, i - base);
    }
    base += s.len();
  }
  panic!("no such case");
}

fn spawn(args: &[String]) -> Child {
  Command::new(std::env::current_exe().unwrap())
    .args(args)
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(Stdio::null())
    .spawn()
    .expect("spawn")
}

/// Runs a single case in a process of its own: None: it passes; Some: what is wrong.
fn confirm(id: &str, tier: &str, i: u64, dir: &str) -> Option<String> {
  let out = format!("{}/one", dir);
  let _ = fs::remove_file(&out);
  let st = spawn(&[
    "worker".into(),
    id.into(),
    tier.into(),
    u64::MAX.to_string(),
    i.to_string(),
    "100000".into(),
    format!("{}/one.state", dir),
    out.clone(),
  ])
  .wait()
  .unwrap();
  match st.code() {
    Some(0) | Some(11) | Some(12) => None,
    Some(10) => Some(
      fs::read_to_string(&out)
        .map(|s| result_text(&s).1)
        .unwrap_or_default(),
    ),
    Some(99) => Some(format!(
      "{}\nit did not end within {} s",
      describe(id, tier, i),
      HANG_S
    )),
    _ => Some(format!("{}\nthe process crashed: {}", describe(id, tier, i), st)),
  }
}

fn describe(id: &str, tier: &str, i: u64) -> String {
  let spaces = props::spaces(id, tier);
  let (k, j) = locate(&spaces, i);
  spaces[k].describe(j)
}

/// The known findings and the violation of a result file.
fn result_text(s: &str) -> (Vec<String>, String) {
  let mut it = s.splitn(4, '\n');
  it.next();
  it.next();
  let n: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
  let rest = it.next().unwrap_or("");
  let mut known = vec![];
  let mut rest = rest;
  for _ in 0..n {
    let (a, b) = rest.split_once('\n').unwrap_or((rest, ""));
    known.push(a.to_string());
    rest = b;
  }
  (known, rest.to_string())
}

fn json(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      '\n' => o += "\\n",
      '\r' => o += "\\r",
      '\t' => o += "\\t",
      c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o + "\""
}

fn run(id: &str, tier: &str) -> ExitCode {
  let started = Instant::now();
  let home = verif();
  let dir = format!("{}/mc/target/run-{}-{}", home, id, std::process::id());
  fs::create_dir_all(&dir).unwrap();
  fs::create_dir_all(format!("{}/evidence", home)).unwrap();
  fs::create_dir_all(format!("{}/replays", home)).unwrap();
  std::env::set_var("MC_SCRATCH", &dir);
  let spaces = props::spaces(id, tier);
  let total: u64 = spaces.iter().map(|s| s.len()).sum();
  let n = std::thread::available_parallelism().map_or(8, |x| x.get() as u64).min(total.max(1));
  let deadline: u64 = std::env::var("MC_BUDGET")
    .ok()
    .and_then(|x| x.parse().ok())
    .unwrap_or(if tier == "quick" { 600 } else { 14_400 });

  struct W {
    child: Option<Child>,
    state: String,
    out: String,
    from: u64,
  }
  let start = |w: &mut W| {
    let left = deadline.saturating_sub(started.elapsed().as_secs());
    let _ = fs::write(&w.state, w.from.to_le_bytes());
    let _ = fs::remove_file(&w.out);
    w.child = Some(spawn(&[
      "worker".into(),
      id.into(),
      tier.into(),
      n.to_string(),
      w.from.to_string(),
      left.to_string(),
      w.state.clone(),
      w.out.clone(),
    ]));
  };
  let mut ws: Vec<W> = (0..n)
    .map(|i| W {
      child: None,
      state: format!("{}/{}.state", dir, i),
      out: format!("{}/{}.out", dir, i),
      from: i,
    })
    .collect();
  ws.iter_mut().for_each(&start);

  let (mut cases, mut states, mut trans, mut traces, mut undef) = (0u64, 0u64, 0u64, 0u64, 0u64);
  let mut outcomes: HashSet<String> = HashSet::new();
  let mut known: Vec<String> = vec![];
  let mut violation: Option<(u64, String)> = None;
  let mut complete = true;
  let mut trouble: Option<String> = None;
  let mut late = 0;

  'all: loop {
    let mut alive = false;
    for w in ws.iter_mut() {
      let st = match w.child.as_mut() {
        None => continue,
        Some(c) => match c.try_wait().unwrap() {
          None => {
            alive = true;
            continue;
          }
          Some(st) => st,
        },
      };
      w.child = None;
      let code = st.code().unwrap_or(-1);
      if [0, 10, 11, 12].contains(&code) {
        let s = fs::read_to_string(&w.out).unwrap_or_default();
        let mut lines = s.lines();
        let v: Vec<u64> = lines
          .next()
          .unwrap_or("")
          .split(' ')
          .filter_map(|x| x.parse().ok())
          .collect();
        if v.len() < 6 {
          trouble = Some("a worker left no result".into());
          break 'all;
        }
        cases += v[1];
        states += v[2];
        trans += v[3];
        traces += v[4];
        undef += v[5];
        outcomes.extend(lines.next().unwrap_or("").split(' ').filter(|x| !x.is_empty()).map(String::from));
        let (k, text) = result_text(&s);
        known.extend(k);
        match code {
          10 => {
            violation = Some((v[0], text));
            break 'all;
          }
          11 => {
            w.from = v[0];
            start(w);
            alive = true;
          }
          12 => complete = false,
          _ => {}
        }
      } else {
        // a crash or a hang: decide on the case alone
        let b = fs::read(&w.state).unwrap_or_default();
        let i = b.try_into().map(u64::from_le_bytes).unwrap_or(w.from);
        match confirm(id, tier, i, &dir) {
          Some(text) => {
            violation = Some((i, text));
          }
          // a machine that is busy with something else: on with it
          None if code == 99 && late < 3 => {
            late += 1;
            w.from = i;
            start(w);
            alive = true;
            continue;
          }
          None => trouble = Some(format!("a worker ended with {} at case {}, which passes alone", st, i)),
        }
        break 'all;
      }
    }
    if !alive {
      break;
    }
    std::thread::sleep(Duration::from_millis(5));
  }
  for w in ws.iter_mut() {
    if let Some(c) = w.child.as_mut() {
      let _ = c.kill();
      let _ = c.wait();
    }
  }

  known.sort();
  known.dedup();
  for k in &known {
    println!("KNOWN-FINDING: property={} {}", id, k);
  }
  let mut samples = vec![];
  for s in &spaces {
    if s.len() > 0 {
      for i in [s.len() / 3, s.len() * 2 / 3, s.len() - 1] {
        let mut d = s.describe(i);
        if d.len() > 400 {
          d = d.chars().take(300).collect::<String>() + " ...";
        }
        samples.push(format!("{}: {}", s.name(), d));
      }
    }
  }
  samples.dedup();
  let parts: Vec<String> = spaces
    .iter()
    .map(|s| format!("{}: {}", json(&s.name()), s.len()))
    .collect();
  let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
  let wall = started.elapsed().as_secs_f64();
  let ev = format!(
    "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"cases\": {},\n    \"cases_in_spaces\": {},\n    \"runs_outside_of_the_model\": {},\n    \"distinct_outcomes\": {},\n    \"exhaustive\": {},\n    \"spaces\": {{{}}},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"violations\": {},\n  \"wall_s\": {:.2}\n}}\n",
    json(id),
    json(tier),
    seed,
    states,
    trans,
    traces,
    cases,
    total,
    undef,
    outcomes.len(),
    complete && violation.is_none() && trouble.is_none() && cases == total,
    parts.join(", "),
    samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
    props::assumptions(id).iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
    violation.is_some() as u32,
    wall
  );
  fs::write(format!("{}/evidence/{}.json", home, id), ev).unwrap();
  let _ = fs::remove_dir_all(&dir);

  if let Some((i, text)) = violation {
    let path = format!("{}/replays/{}-{}-{}.txt", home, id, tier, i);
    fs::write(&path, format!("{} {} {}\n{}\n", id, tier, i, text)).unwrap();
    println!("{}", text);
    println!("VIOLATION property={} replay={}", id, path);
    return ExitCode::from(1);
  }
  if let Some(t) = trouble {
    println!("ERROR: {}", t);
    return ExitCode::from(2);
  }
  println!(
    "{}: held on {} cases, {} executions compared ({} states, {} transitions, {} distinct outcomes, {} undefined), {:.1} s{}",
    id,
    cases,
    traces,
    states,
    trans,
    outcomes.len(),
    undef,
    wall,
    if complete { "" } else { ", budget exhausted" }
  );
  if !complete && tier == "quick" {
    println!("(not all of the space was explored)");
  }
  ExitCode::SUCCESS
}

fn replay(path: &str) -> ExitCode {
  let s = fs::read_to_string(path).expect("replay file");
  let head: Vec<&str> = s.lines().next().unwrap_or("").split(' ').collect();
  let (id, tier, i) = (head[0], head[1], head[2].parse::<u64>().unwrap());
  let dir = format!("{}/mc/target/replay-{}", verif(), std::process::id());
  fs::create_dir_all(&dir).unwrap();
  std::env::set_var("MC_SCRATCH", &dir);
  let r = confirm(id, tier, i, &dir);
  let _ = fs::remove_dir_all(&dir);
  match r {
    Some(t) => {
      println!("{}\nVIOLATION property={} replay={}", t, id, path);
      ExitCode::from(1)
    }
    None => {
      println!("{}\nholds", describe(id, tier, i));
      ExitCode::SUCCESS
    }
  }
}

fn main() -> ExitCode {
  let a: Vec<String> = std::env::args().collect();
  match a.get(1).map(|s| s.as_str()) {
    Some("worker") => {
      limit_memory(4 << 30);
      real::install_panic_hook();
      watchdog();
      let a = a.clone();
      let code = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
          worker(
            &a[2],
            &a[3],
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            a[6].parse().unwrap(),
            &a[7],
            &a[8],
          )
        })
        .unwrap()
        .join()
        .unwrap_or(50);
      std::process::exit(code)
    }
    Some("run") => {
      let tier = a.get(3).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
      run(&a[2], &tier)
    }
    Some("list") => {
      for s in props::spaces(&a[2], a.get(3).map_or("quick", |s| s)) {
        println!("{:>12}  {}", s.len(), s.name());
        for i in [s.len() / 3, s.len() * 2 / 3, s.len().max(1) - 1] {
          println!("              {}", s.describe(i));
        }
      }
      ExitCode::SUCCESS
    }
    Some("compile") => {
      println!("oracle: {:?}", script::compile_str(&a[2], "Root").map(|c| c.root.to_string()));
      match adextopa_core::script::current::parser::compile_script_from_str(&a[2], "Root".into(), 0) {
        Ok(m) => println!("library: {:?}", m.borrow().to_string()),
        Err(e) => println!("library: {:?}", e),
      }
      ExitCode::SUCCESS
    }
    Some("replay") => replay(&a[2]),
    _ => {
      eprintln!("mc run ID [quick|thorough] | mc list ID [tier] | mc replay FILE");
      ExitCode::from(2)
    }
  }
}
