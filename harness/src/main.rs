#[macro_use]
mod engine;
mod geom;
mod m;
mod props;
mod sys;
mod world;
mod hist;
mod pairs;
mod scenes;
mod store;

use engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(25);

fn esc(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(r, "\\u{:04x}", c as u32); } c => r.push(c) }
	}
	r.push('"');
	r
}
fn one_line(s: &str) -> String { s.replace('\n', " ").replace('\r', " ") }

struct Dirs { root: PathBuf, scratch: PathBuf }

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
	match args.get(1).map(|s| s.as_str()) {
		Some("check") => { let code = check(&root, &args[2]); std::process::exit(code); }
		Some("shard") => shard(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5] == "thorough", Path::new(&args[6]), args[7].parse().unwrap()),
		Some("replay") => { let code = replay(Path::new(&args[2]), args.get(3).map(|s| s == "--raw").unwrap_or(false)); std::process::exit(code); }
		Some("list") => for p in props::ALL { println!("{} {}", p.id, p.rule); },
		_ => { eprintln!("usage: harness check ID | replay FILE | list"); std::process::exit(2); }
	}
}

fn find(id: &str) -> &'static props::Prop {
	match props::ALL.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); std::process::exit(2); } }
}

// ---------------------------------------------------------------- one process' share
fn shard(id: &str, i: u64, n: u64, thorough: bool, out: &Path, cap_s: u64) {
	let prop = find(id);
	sys::silence_stdout();
	sys::limit_memory(3 << 30);
	install_panic_hook();
	if let Some(p) = sys::map_shared(&out.with_extension("live"), 4 * (MAX_CHOICES + 1)) { use_shared_live(p as *mut _); }
	let hang_file = out.with_extension("hang");
	start_watchdog(HANG, move |c| {
		let _ = std::fs::write(&hang_file, c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
		std::process::exit(5);
	});
	let body = prop.body;
	let cap = Duration::from_secs(cap_s);
	let report = std::thread::Builder::new().stack_size(64 << 20).spawn(move || explore(body, i, n, thorough, cap)).unwrap().join().unwrap();
	let c = &report.ctx;
	let mut s = String::new();
	let _ = writeln!(s, "executions {}\ntransitions {}\nnontrivial {}\nskipped {}\ncapped {}", c.executions, c.transitions, c.nontrivial, c.skipped, report.capped as u8);
	for (k, x) in &c.outcomes { let _ = writeln!(s, "outcome {} {}", x, k); }
	for (k, x) in &c.maxima { let _ = writeln!(s, "max {} {}", x, k); }
	for t in &report.samples { let _ = writeln!(s, "sample {}", one_line(&t.join(" | "))); }
	if let Some(f) = &report.failure {
		let _ = writeln!(s, "fail_seed {}", f.hash_seed);
		let _ = writeln!(s, "fail_choices {}", f.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
		let _ = writeln!(s, "fail_message {}", one_line(&f.message));
		for t in &f.trace { let _ = writeln!(s, "fail_trace {}", one_line(t)); }
	}
	let mut bytes = Vec::with_capacity(c.states.len() * 8);
	for x in &c.states { bytes.extend_from_slice(&x.to_le_bytes()); }
	std::fs::write(out.with_extension("states"), bytes).unwrap();
	std::fs::write(out.with_extension("done"), s).unwrap();
}

// ---------------------------------------------------------------- the check
fn check(root: &Path, id: &str) -> i32 {
	let prop = find(id);
	let t0 = Instant::now();
	let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
	let thorough = tier == "thorough";
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let n: u64 = std::env::var("VERIF_PROCS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).clamp(2, 16));
	let cap: u64 = std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 400 });
	let dirs = Dirs { root: root.to_path_buf(), scratch: std::env::temp_dir().join(format!("fluffy-mc-{}-{}", id, std::process::id())) };
	std::fs::create_dir_all(&dirs.scratch).unwrap();
	std::fs::create_dir_all(root.join("evidence/replay")).unwrap();
	for k in 0..64 { let _ = std::fs::remove_file(root.join(format!("evidence/replay/{}-{}.txt", id, k))); }
	let exe = std::env::current_exe().unwrap();
	let mut kids: Vec<_> = (0..n).map(|i| {
		let out = dirs.scratch.join(format!("s{}", i));
		let err = std::fs::File::create(out.with_extension("err")).unwrap();
		(Command::new(&exe).args(["shard", id, &i.to_string(), &n.to_string(), if thorough { "thorough" } else { "quick" }, out.to_str().unwrap(), &cap.to_string()])
			.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).spawn().unwrap(), out)
	}).collect();
	let mut total: BTreeMap<&str, u64> = BTreeMap::new();
	let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
	let mut maxima: BTreeMap<String, f64> = BTreeMap::new();
	let mut samples: Vec<String> = vec![];
	let mut states = U64Set::default();
	let mut failures: Vec<(Vec<u32>, String, Vec<String>, u64, &'static str)> = vec![];
	let mut broken: Vec<String> = vec![];
	for (kid, out) in kids.iter_mut() {
		let status = kid.wait().unwrap();
		let read_choices = |p: &Path| -> Vec<u32> { std::fs::read_to_string(p).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect() };
		if !out.with_extension("done").exists() {
			// Hang or crash of the code under test: take the choices it was executing.
			let hang = out.with_extension("hang");
			let err = std::fs::read_to_string(out.with_extension("err")).unwrap_or_default();
			let last = err.lines().rev().take(3).collect::<Vec<_>>().join(" / ");
			if hang.exists() { failures.push((read_choices(&hang), format!("one execution did not finish within {} s", HANG.as_secs()), vec![], 1, "hang")); }
			else if status.code() == Some(4) { broken.push(format!("engine error: {}", last)); }
			else {
				let mut b = vec![]; let _ = std::fs::File::open(out.with_extension("live")).and_then(|mut f| f.read_to_end(&mut b));
				let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
				let len = w.first().cloned().unwrap_or(0) as usize;
				failures.push((w.iter().skip(1).take(len).cloned().collect(), format!("the process died ({}) {}", status, last), vec![], 1, "crash"));
			}
			continue;
		}
		let text = std::fs::read_to_string(out.with_extension("done")).unwrap();
		let (mut fc, mut fm, mut ft, mut fs, mut failed) = (vec![], String::new(), vec![], 1, false);
		for line in text.lines() {
			let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
			match k {
				"executions" | "transitions" | "nontrivial" | "skipped" | "capped" => { let key = match k { "executions" => "executions", "transitions" => "transitions", "nontrivial" => "nontrivial", "skipped" => "skipped", _ => "capped" }; *total.entry(key).or_insert(0) += rest.parse::<u64>().unwrap_or(0); }
				"outcome" => if let Some((c, name)) = rest.split_once(' ') { *outcomes.entry(name.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0); },
				"max" => if let Some((c, name)) = rest.split_once(' ') { let x: f64 = c.parse().unwrap_or(0.0); let e = maxima.entry(name.into()).or_insert(x); if x > *e { *e = x; } },
				"sample" => samples.push(rest.into()),
				"fail_seed" => { failed = true; fs = rest.parse().unwrap_or(1); }
				"fail_choices" => fc = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
				"fail_message" => fm = rest.into(),
				"fail_trace" => ft.push(rest.to_string()),
				_ => {}
			}
		}
		if failed { failures.push((fc, fm, ft, fs, "property")); }
		let mut b = vec![];
		let _ = std::fs::File::open(out.with_extension("states")).and_then(|mut f| f.read_to_end(&mut b));
		for c in b.chunks_exact(8) { states.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])); }
	}
	let _ = std::fs::remove_dir_all(&dirs.scratch);

	// A failure counts only when its replay file, run in a fresh process, fails too.
	let known = known_findings(root, id);
	let mut violations: Vec<(PathBuf, String)> = vec![];
	let mut known_hit: Vec<String> = vec![];
	for (k, (choices, msg, trace, hseed, kind)) in failures.iter().enumerate() {
		let path = dirs.root.join("evidence/replay").join(format!("{}-{}.txt", id, k));
		let mut s = format!("property {}\ntier {}\nhash_seed {}\nchoices {}\nmessage {}\n", id, tier, hseed, choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), msg);
		for t in trace { let _ = writeln!(s, "trace {}", t); }
		std::fs::write(&path, s).unwrap();
		let confirmed = run_replay(&exe, &path, *kind);
		if !confirmed { broken.push(format!("failure not reproduced by {}: {}", path.display(), msg)); continue; }
		if let Some(f) = known.iter().find(|f| msg.contains(f.as_str())) { known_hit.push(f.clone()); continue; }
		violations.push((path, msg.clone()));
	}
	samples.truncate(6);
	let g = |k: &str| total.get(k).cloned().unwrap_or(0);
	let capped = g("capped") > 0;
	let exhaustive = !capped && failures.is_empty() && broken.is_empty();
	let wall = t0.elapsed().as_secs_f64();
	let mut j = String::new();
	let _ = write!(j, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"paths_outside_domain_or_other_shard\": {},\n  \"hit_wall_cap\": {},\n",
		esc(id), esc(if thorough { "thorough" } else { "quick" }), seed, states.len(), g("transitions"), g("executions"), g("executions") + g("skipped"), g("nontrivial"), esc(prop.rule), exhaustive, g("skipped"), capped);
	let _ = write!(j, "  \"outcomes\": {{{}}},\n  \"largest_deviation_seen\": {{{}}},\n  \"samples\": [{}]\n }},\n",
		outcomes.iter().map(|(k, x)| format!("{}: {}", esc(k), x)).collect::<Vec<_>>().join(", "),
		maxima.iter().map(|(k, x)| format!("{}: {:e}", esc(k), x)).collect::<Vec<_>>().join(", "),
		samples.iter().map(|s| esc(&s.chars().take(3000).collect::<String>())).collect::<Vec<_>>().join(", "));
	let _ = write!(j, " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", prop.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "), wall, violations.len());
	std::fs::write(root.join("evidence").join(format!("{}.json", id)), j).unwrap();

	println!("{} [{}] executions={} transitions={} states={} nontrivial={} skipped={} exhaustive={} wall={:.1}s", id, tier, g("executions"), g("transitions"), states.len(), g("nontrivial"), g("skipped"), exhaustive, wall);
	for (k, x) in &outcomes { println!("   outcome {} = {}", k, x); }
	for (k, x) in &maxima { println!("   max {} = {:e}", k, x); }
	for f in &known_hit { println!("KNOWN-FINDING: property={} {}", id, f); }
	for b in &broken { println!("ERROR: {}", b); }
	for (p, m) in &violations { println!("   {}", m); println!("VIOLATION property={} replay={}", id, p.display()); }
	let _ = std::io::stdout().flush();
	if !violations.is_empty() { 1 } else if !broken.is_empty() { 2 } else if g("executions") == 0 || g("nontrivial") == 0 { println!("ERROR: nothing was explored"); 2 } else { 0 }
}

fn known_findings(root: &Path, id: &str) -> Vec<String> {
	let mut r = vec![];
	for line in std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
		if let Some(rest) = line.strip_prefix("finding: property=") { if let Some((p, what)) = rest.split_once(' ') { if p == id { r.push(what.trim().to_string()); } } }
	}
	r
}

fn run_replay(exe: &Path, path: &Path, kind: &str) -> bool {
	let mut kid = Command::new(exe).args(["replay", path.to_str().unwrap(), "--raw"]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
	let t = Instant::now();
	loop {
		if let Some(s) = kid.try_wait().unwrap() { return match kind { "crash" => s.code().is_none() || s.code() == Some(1), "hang" => s.code() == Some(1), _ => s.code() == Some(1) }; }
		if t.elapsed() > HANG { let _ = kid.kill(); let _ = kid.wait(); return true; }
		std::thread::sleep(Duration::from_millis(20));
	}
}

fn replay(path: &Path, raw: bool) -> i32 {
	let text = std::fs::read_to_string(path).unwrap();
	let (mut id, mut tier, mut seed, mut choices) = (String::new(), String::new(), 1, vec![]);
	for line in text.lines() {
		let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
		match k { "property" => id = rest.into(), "tier" => tier = rest.into(), "hash_seed" => seed = rest.parse().unwrap(), "choices" => choices = rest.split_whitespace().map(|x| x.parse().unwrap()).collect(), _ => {} }
	}
	let prop = find(&id);
	sys::limit_memory(3 << 30);
	install_panic_hook();
	let saved = sys::silence_stdout();
	let (m, trace, _) = replay_in_thread(prop.body, choices, tier == "thorough", seed);
	sys::restore_stdout(saved);
	if !raw { for t in &trace { println!("{}", t); } println!("result: {}", m.as_deref().unwrap_or("property held")); }
	if m.is_some() { 1 } else { 0 }
}
