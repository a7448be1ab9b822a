//! Generation, attribution, shrinking, replay files and evidence.
use crate::core::*;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::props::*;
use crate::reg::*;
use crate::show;
use crate::world::*;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
pub const HANG: u64 = 30;
pub const DBG: bool = cfg!(feature = "dbg");

pub struct Env { pub regs: Vec<Reg>, pub twin: BTreeMap<usize, usize>, pub peer: Option<String>, pub seed: u64, pub tier: String, pub root: String, pub careful: bool }

/// Another build of the library, fed with traces over a pipe
pub struct Peer { child: Child, out: BufReader<std::process::ChildStdout> }
impl Peer {
  pub fn start(path: &str) -> Peer {
    let mut child = Command::new(path).arg("--serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: cannot start the peer");
    let out = BufReader::new(child.stdout.take().unwrap());
    Peer { child, out }
  }
  fn ask(&mut self, schema: &str, trace: &[COp]) -> Option<Value> {
    let line = json!({ "schema": schema, "trace": trace }).to_string();
    let i = self.child.stdin.as_mut().unwrap();
    if writeln!(i, "{line}").is_err() || i.flush().is_err() { return None }
    let mut s = String::new();
    match self.out.read_line(&mut s) { Ok(n) if n > 0 => serde_json::from_str(&s).ok(), _ => None }
  }
}
impl Drop for Peer { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
pub fn serve(regs: &[Reg]) {
  let stdin = std::io::stdin();
  for line in stdin.lock().lines() {
    let Ok(line) = line else { break };
    let v: Value = serde_json::from_str(&line).expect("bad request");
    let reg = regs.iter().find(|r| r.desc.name == v["schema"].as_str().unwrap()).expect("no such schema");
    let trace: Vec<COp> = serde_json::from_value(v["trace"].clone()).expect("bad trace");
    let (e, f) = run_trace((reg.world)(), DBG, C_GET, &trace, None);
    let out = json!({ "fail": f.iter().map(|f| json!([f.kind, f.msg])).collect::<Vec<_>>(), "obs": e.obs });
    println!("{out}");
  }
}

pub struct Judge<'a> { pub env: &'a Env, pub spec: &'a Spec, pub peer: Option<Peer>, pub watch: Option<Arc<Watch>> }
impl<'a> Judge<'a> {
  pub fn new(env: &'a Env, spec: &'a Spec) -> Self {
    let peer = match spec.mode { Mode::Peer(_) => Some(Peer::start(env.peer.as_ref().expect("harness: --peer PATH is required"))), _ => None };
    Judge { env, spec, peer, watch: None }
  }
  fn run(&self, schema: usize, trace: &[COp]) -> (Exec, Vec<Failure>) { run_trace((self.env.regs[schema].world)(), DBG, self.spec.profile.flags, trace, self.watch.clone()) }
  /// given that `trace` passed (with these observations), run it the other way
  fn other(&mut self, schema: usize, trace: &[COp], e: &Exec) -> Option<Failure> {
    match self.spec.mode {
      Mode::Twin => {
        let g = *self.env.twin.get(&schema)?;
        let (e2, f) = self.run(g, trace);
        if let Some(f) = f.first() { return Some(e2.fail(FK::Twin, format!("the declaration by groups ({}) behaves differently from its expansion ({}): {:?} {}", self.env.regs[g].desc.name, self.env.regs[schema].desc.name, f.kind, f.msg))) }
        if e.obs != e2.obs { return Some(e2.fail(FK::Twin, diff_obs("the hand-written expansion", &e.obs, "the groups", &e2.obs))) }
        None
      }
      Mode::Peer(what) => {
        if let Some(w) = &self.watch { *w.now.lock().unwrap() = Some((Instant::now(), e.fail(FK::Peer, format!("the build {what} does not return")))) }
        let name = self.env.regs[schema].desc.name;
        let r = self.peer.as_mut().unwrap().ask(name, trace);
        if let Some(w) = &self.watch { *w.now.lock().unwrap() = None }
        let Some(r) = r else {
          self.peer = Some(Peer::start(self.env.peer.as_ref().unwrap()));
          return Some(e.fail(FK::Peer, format!("the build {what} crashed")))
        };
        let obs: Vec<Obs> = serde_json::from_value(r["obs"].clone()).expect("harness: bad answer");
        if let Some(f) = r["fail"].as_array().unwrap().first() { return Some(e.fail(FK::Peer, format!("{what}: {f}"))) }
        if obs != e.obs { return Some(e.fail(FK::Peer, diff_obs("the default build", &e.obs, what, &obs))) }
        None
      }
      _ => None,
    }
  }
  /// does this trace show a violation of the property?
  pub fn trace(&mut self, schema: usize, trace: &[COp]) -> Option<Failure> {
    let (e, f) = self.run(schema, trace);
    if self.spec.mode != Mode::Model { return if f.is_empty() { self.other(schema, &e.trace.clone(), &e) } else { None } }
    let f = f.into_iter().find(|f| (self.spec.relevant)(f))?;
    if let (Some(a), true) = (self.spec.ablate, own_kind(self.spec.id, &f)) {
      let t = a(&e.trace);
      if t == e.trace { return None }
      let (_, g) = self.run(schema, &t);
      if g.iter().any(|x| x.kind == f.kind) { return None }
    }
    Some(f)
  }
}
/// failures of these kinds are about the property whatever else happens; the others need the comparison
fn own_kind(id: &str, f: &Failure) -> bool {
  !matches!((id, f.kind), ("C12", FK::Round) | ("C13", FK::Switch) | ("C15", FK::Check) | ("C05", FK::Backlinks) | ("C10", FK::Isolation) | ("C03", FK::NoPanic))
}
fn diff_obs(an: &str, a: &[Obs], bn: &str, b: &[Obs]) -> String {
  for i in 0..a.len().max(b.len()) {
    let (x, y) = (a.get(i), b.get(i));
    if x != y { return format!("{an}: {x:?}; {bn}: {y:?}") }
  }
  String::new()
}

fn uids_made(o: &COp) -> Vec<usize> {
  match o { COp::Insert { v, .. } => vec![v.uid as usize], COp::Extend { v, .. } => v.iter().map(|v| v.uid as usize).collect(), COp::Alloc { u, .. } | COp::AllocUntyped { u, .. } => vec![*u], _ => vec![] }
}
/// drop references to nodes that are no longer made
fn tidy(t: &[COp]) -> Vec<COp> {
  let mut made: BTreeSet<usize> = BTreeSet::new();
  let mut out = vec![];
  for o in t {
    made.extend(uids_made(o));
    let fix = |u: usize| if made.contains(&u) { u } else { 0 };
    let fixnv = |v: &NV| { let mut v = v.map(fix); for l in v.links.iter_mut() { if let LV::S(s) = l { s.remove(&0); } } v };
    let mut o = o.clone();
    match &mut o {
      COp::Insert { v, .. } | COp::Fill { v, .. } => { *v = fixnv(v); }
      COp::Extend { v, .. } => for v in v.iter_mut() { *v = fixnv(v) },
      COp::Change { u, eff, .. } => { if !made.contains(u) { continue } for e in eff.iter_mut() { *e = e.map(&mut |u| fix(u)) } }
      COp::Redirect { old, new, .. } => if !made.contains(old) || !made.contains(new) { continue },
      COp::Remove { u, .. } => if !made.contains(u) { continue },
      _ => {}
    }
    out.push(o);
  }
  out
}
fn structural(o: &COp) -> bool { matches!(o, COp::NewCtx { .. } | COp::NewGraph { .. } | COp::NewTrans { .. }) }

/// Make a failing trace small while it keeps showing a violation
pub fn shrink(j: &mut Judge, schema: usize, trace: Vec<COp>, budget: Duration) -> (Vec<COp>, usize) {
  let start = Instant::now();
  let mut cur = trace;
  let mut steps = 0;
  let mut ok = |c: &[COp], j: &mut Judge| -> bool { if start.elapsed() > budget { return false } let c = tidy(c); steps += 1; (0..2).any(|_| j.trace(schema, &c).is_some()) };
  loop {
    let before = (cur.len(), serde_json::to_string(&cur).unwrap().len());
    // whole transactions
    let nt = cur.iter().filter(|o| matches!(o, COp::NewTrans { .. })).count();
    for k in (0..nt).rev() {
      let mut n = 0;
      let c: Vec<COp> = cur.iter().filter(|o| { if matches!(o, COp::NewTrans { .. }) { n += 1; n - 1 != k } else { trans_of(o) != Some(k) } }).map(|o| match trans_of(o) { Some(t) if t > k => set_trans(o, t - 1), _ => o.clone() }).collect();
      if ok(&c, j) { cur = tidy(&c) }
    }
    // runs of operations
    let mut w = (cur.len() / 2).max(1);
    loop {
      let mut i = 0;
      while i < cur.len() {
        let end = (i + w).min(cur.len());
        let c: Vec<COp> = cur.iter().enumerate().filter(|(k, o)| *k < i || *k >= end || structural(o)).map(|x| x.1.clone()).collect();
        if c.len() < cur.len() && ok(&c, j) { cur = tidy(&c) } else { i += w }
      }
      if w == 1 { break }
      w /= 2;
    }
    // parts of operations
    for i in 0..cur.len() {
      for c in simpler(&cur[i]) {
        let mut t = cur.clone();
        t[i] = c;
        if ok(&t, j) { cur = tidy(&t) }
        if i >= cur.len() { break }
      }
      if i + 1 >= cur.len() { break }
    }
    if start.elapsed() > budget || (cur.len(), serde_json::to_string(&cur).unwrap().len()) >= before { break }
  }
  (cur, steps)
}
fn simpler_nv(v: &NV) -> Vec<NV> {
  let mut out = vec![];
  for f in 0..v.links.len() {
    match &v.links[f] {
      LV::D(x) => if *x != 0 { let mut w = v.clone(); w.links[f] = LV::D(0); out.push(w) },
      LV::V(x) => { if x.len() > 1 { let mut w = v.clone(); w.links[f] = LV::V(vec![]); out.push(w); } for k in (0..x.len()).rev() { let mut y = x.clone(); y.remove(k); let mut w = v.clone(); w.links[f] = LV::V(y); out.push(w) } }
      LV::S(x) => { if x.len() > 1 { let mut w = v.clone(); w.links[f] = LV::S(BTreeSet::new()); out.push(w); } for k in x { let mut y = x.clone(); y.remove(k); let mut w = v.clone(); w.links[f] = LV::S(y); out.push(w) } }
    }
  }
  if v.data.iter().any(|x| *x != 0) { let mut w = v.clone(); for x in w.data.iter_mut() { *x = 0 } out.push(w); }
  out
}
/// simpler variants of an operation. All but the last alternative of a list are tried on the same operation, so each is independent
fn simpler(o: &COp) -> Vec<COp> {
  match o {
    COp::Insert { t, v } => simpler_nv(v).into_iter().map(|v| COp::Insert { t: *t, v }).collect(),
    COp::Fill { t, v, untyped } => simpler_nv(v).into_iter().map(|v| COp::Fill { t: *t, v, untyped: *untyped }).collect(),
    COp::Extend { t, v } => {
      let mut out: Vec<COp> = (0..v.len()).rev().map(|k| { let mut w = v.clone(); w.remove(k); COp::Extend { t: *t, v: w } }).collect();
      for k in 0..v.len() { for n in simpler_nv(&v[k]) { let mut w = v.clone(); w[k] = n; out.push(COp::Extend { t: *t, v: w }) } }
      out
    }
    COp::Round { g, form, cut: Some(_) } => vec![COp::Round { g: *g, form: *form, cut: None }],
    COp::Change { t, u, upd, guard, form, eff } => {
      let mut out = vec![];
      if eff.len() > 1 { for k in 0..eff.len() { let mut e = eff.clone(); e.remove(k); out.push(COp::Change { t: *t, u: *u, upd: *upd, guard: *guard, form: *form, eff: e }) } }
      for k in 0..eff.len() { if let Eff::Replace(v) = &eff[k] { for n in simpler_nv(v) { let mut e = eff.clone(); e[k] = Eff::Replace(Box::new(n)); out.push(COp::Change { t: *t, u: *u, upd: *upd, guard: *guard, form: *form, eff: e }) } } }
      out
    }
    COp::CommitChecked { t, g, spec } => {
      let mut out: Vec<COp> = (0..spec.checks.len()).map(|k| { let mut s = spec.clone(); s.checks.remove(k); COp::CommitChecked { t: *t, g: *g, spec: s } }).collect();
      if !spec.decoys.is_empty() { let mut s = spec.clone(); s.decoys.clear(); out.push(COp::CommitChecked { t: *t, g: *g, spec: s }) }
      out
    }
    _ => vec![],
  }
}

pub fn seed_bytes(parts: &[&str]) -> [u8; 32] {
  let mut out = [0u8; 32];
  for k in 0..4 {
    let mut h: u64 = 0xcbf29ce484222325 ^ (k as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for p in parts { for b in p.bytes().chain([255]) { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; } }
    out[k * 8..k * 8 + 8].copy_from_slice(&h.to_le_bytes());
  }
  out
}
pub fn test_runner(env: &Env, id: &str, what: &str, shard: usize) -> TestRunner {
  let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[&env.seed.to_string(), id, &env.tier, what, &shard.to_string()]));
  TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng)
}
fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

#[derive(Default)]
pub struct Stats {
  pub evaluations: usize,
  pub nontrivial: HashSet<u64>,
  pub distinct: HashSet<u64>,
  pub feats: BTreeMap<String, usize>,
  pub cases_with: BTreeMap<String, usize>,
  pub schemas: BTreeMap<&'static str, usize>,
  pub samples: Vec<Value>,
  pub other_failures: BTreeMap<String, usize>,
  pub ops: usize,
  pub truncated: usize,
  pub shrink_steps: usize,
}
impl Stats {
  fn merge(&mut self, o: Stats) {
    self.evaluations += o.evaluations;
    self.nontrivial.extend(o.nontrivial);
    self.distinct.extend(o.distinct);
    for (k, v) in o.feats { let e = self.feats.entry(k.clone()).or_default(); if k == "max_nodes" { *e = (*e).max(v) } else { *e += v } }
    for (k, v) in o.cases_with { *self.cases_with.entry(k).or_default() += v }
    for (k, v) in o.schemas { *self.schemas.entry(k).or_default() += v }
    self.samples.extend(o.samples);
    for (k, v) in o.other_failures { *self.other_failures.entry(k).or_default() += v }
    self.ops += o.ops;
    self.truncated += o.truncated;
    self.shrink_steps += o.shrink_steps;
  }
}
pub struct Found { pub schema: usize, pub trace: Vec<COp>, pub failure: Failure, pub case: Option<Case>, pub note: String }

pub fn replay_path(env: &Env, id: &str) -> String { format!("{}/replays/{}-{}-seed{}.json", env.root, id, env.tier, env.seed) }
fn write_replay(env: &Env, id: &str, v: Value) -> String {
  let p = replay_path(env, id);
  let _ = std::fs::create_dir_all(format!("{}/replays", env.root));
  std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("harness: cannot write the replay file");
  p
}
fn found_json(env: &Env, id: &str, f: &Found) -> Value {
  let d = env.regs[f.schema].desc;
  json!({ "property": id, "schema": d.name, "declaration": show::schema(d), "violation": { "kind": format!("{:?}", f.failure.kind), "message": f.failure.msg }, "note": f.note,
    "operations": show::trace(d, &f.trace), "trace": f.trace, "case": f.case, "seed": env.seed, "tier": env.tier, "schemas": env!("TTH_SCHEMAS") })
}

fn shard(env: &Env, spec: &Spec, k: usize, cases: usize, deadline: Instant, stop: &AtomicBool, watch: Arc<Watch>) -> (Stats, Option<Found>) {
  let descs: Vec<&'static SchemaDesc> = env.regs.iter().map(|r| r.desc).collect();
  let strat = strategy(&descs, &spec.profile);
  let mut tr = test_runner(env, spec.id, "ops", k);
  let mut st = Stats::default();
  let mut j = Judge::new(env, spec);
  j.watch = Some(watch.clone());
  let mut tries = 0;
  for i in 0..cases {
    if stop.load(Ordering::Relaxed) { break }
    if Instant::now() > deadline { st.truncated = cases - i; break }
    let case = strat.new_tree(&mut tr).expect("harness: generation failed").current();
    *watch.case.lock().unwrap() = Some(json!(case));
    let (g, fails) = run_case((env.regs[case.schema].world)(), &spec.profile, DBG, &case, Some(watch.clone()));
    let mut e = g.e;
    e.feats.add("interleaved", g.interleaved);
    let ind = e.handed.iter().map(|h| h.len()).sum::<usize>();
    e.feats.add("indices", ind);
    st.evaluations += 1;
    st.ops += e.trace.len();
    *st.schemas.entry(descs[case.schema].name).or_default() += 1;
    for (n, v) in &e.feats.n { let x = st.feats.entry(n.to_string()).or_default(); if *n == "max_nodes" { *x = (*x).max(*v) } else { *x += v } *st.cases_with.entry(n.to_string()).or_default() += 1; }
    let h = hash_of(&(case.schema, &e.trace));
    st.distinct.insert(h);
    let nt = (spec.nontrivial)(&e.feats);
    if nt && st.nontrivial.insert(h) && st.samples.is_empty() && e.trace.len() <= 30 && e.trace.len() >= 6 {
      st.samples.push(json!({ "schema": descs[case.schema].name, "declaration": show::schema(descs[case.schema]), "operations": show::trace(descs[case.schema], &e.trace) }));
    }
    let suspicious = if fails.is_empty() { spec.mode != Mode::Model } else { spec.mode == Mode::Model && fails.iter().any(|f| (spec.relevant)(f)) };
    if !fails.is_empty() && !suspicious { for f in &fails { *st.other_failures.entry(format!("{:?}", f.kind)).or_default() += 1 } continue }
    if !suspicious { continue }
    let trace = e.trace.clone();
    let hit = if spec.mode != Mode::Model { j.other(case.schema, &trace, &e) } else if tries > 200 { None } else { tries += 1; (0..4).find_map(|_| j.trace(case.schema, &trace)) };
    let Some(first) = hit else { for f in &fails { *st.other_failures.entry(format!("{:?} (not attributable)", f.kind)).or_default() += 1 } continue };
    stop.store(true, Ordering::Relaxed);
    let (small, steps) = shrink(&mut j, case.schema, trace.clone(), Duration::from_secs(60));
    st.shrink_steps += steps;
    let (tr2, f2, note) = match (0..8).find_map(|_| j.trace(case.schema, &small)) { Some(f) => (small, f, String::new()), None => (trace, first, "not shrunk: the failure depends on hash order".to_string()) };
    return (st, Some(Found { schema: case.schema, trace: tr2, failure: f2, case: Some(case), note }));
  }
  (st, None)
}

/// random nodes for the reflection check
fn reflect_shard(env: &Env, spec: &Spec, k: usize, cases: usize, deadline: Instant, stop: &AtomicBool, watch: &Watch) -> (Stats, Option<Found>, Option<Value>) {
  use proptest::prelude::*;
  let mut st = Stats::default();
  let mut tr = test_runner(env, spec.id, "nodes", k);
  let n = env.regs.len();
  let strat = (0..n, any::<u16>(), proptest::collection::vec(any::<u16>(), 0..40));
  for i in 0..cases {
    if stop.load(Ordering::Relaxed) { break }
    if Instant::now() > deadline { st.truncated = cases - i; break }
    let (s, var, r) = strat.new_tree(&mut tr).unwrap().current();
    let reg = &env.regs[s];
    let var = var as usize % reg.desc.variants.len();
    let v = random_nv(reg.desc, var, &r);
    st.evaluations += 1;
    *st.schemas.entry(reg.desc.name).or_default() += 1;
    let h = hash_of(&(s, &v));
    st.distinct.insert(h);
    if (v.links.iter().any(|l| !l.targets().is_empty()) || !v.data.is_empty()) && st.nontrivial.insert(h) && st.samples.is_empty() { st.samples.push(json!({ "schema": reg.desc.name, "node": show::nv(reg.desc, &v) })); }
    let bad = |v: &NV| match (reg.refl)(v) { Err(m) => Some(format!("reflection panicked: {m}")), Ok(Err(m)) => Some(m), Ok(Ok(())) => None };
    watch.whole(json!({ "schema": reg.desc.name, "node": v }));
    let first = bad(&v);
    watch.end();
    if let Some(mut m) = first {
      stop.store(true, Ordering::Relaxed);
      let mut cur = v;
      'again: loop { for w in simpler_nv(&cur) { st.shrink_steps += 1; if let Some(x) = bad(&w) { cur = w; m = x; continue 'again } } break }
      let j = json!({ "property": spec.id, "schema": reg.desc.name, "declaration": show::schema(reg.desc), "node": cur, "shown": show::nv(reg.desc, &cur), "violation": { "kind": "Refl", "message": m }, "seed": env.seed, "tier": env.tier, "schemas": env!("TTH_SCHEMAS") });
      return (st, None, Some(j));
    }
  }
  (st, None, None)
}
fn part_fn(mode: Mode, r: &Reg) -> crate::parts::PartFn { if mode == Mode::Arena { r.arena } else { r.edit } }
fn part_run(f: crate::parts::PartFn, ops: &[Vec<u16>]) -> (crate::parts::Log, Option<String>) {
  let mut log = crate::parts::Log::default();
  let r = f(ops, &mut log);
  (log, r.err())
}
/// raw operations on an arena or a single node
fn part_shard(env: &Env, spec: &Spec, k: usize, cases: usize, deadline: Instant, stop: &AtomicBool, watch: &Watch) -> (Stats, Option<Found>, Option<Value>) {
  use proptest::prelude::*;
  let mut st = Stats::default();
  let mut tr = test_runner(env, spec.id, "parts", k);
  let n = env.regs.len();
  let strat = (0..n, proptest::collection::vec(proptest::collection::vec(any::<u16>(), 1..30), 1..40));
  for i in 0..cases {
    if stop.load(Ordering::Relaxed) { break }
    if Instant::now() > deadline { st.truncated = cases - i; break }
    let (s, ops) = strat.new_tree(&mut tr).unwrap().current();
    let reg = &env.regs[s];
    let f = part_fn(spec.mode, reg);
    watch.whole(json!({ "schema": reg.desc.name, "part": ops }));
    let (log, bad) = part_run(f, &ops);
    watch.end();
    st.evaluations += 1;
    st.ops += log.shown.len();
    *st.schemas.entry(reg.desc.name).or_default() += 1;
    for (k, v) in &log.feats { *st.feats.entry(k.to_string()).or_default() += v; *st.cases_with.entry(k.to_string()).or_default() += 1; }
    let h = hash_of(&(s, &log.shown));
    st.distinct.insert(h);
    let has = |ks: &[&str]| ks.iter().any(|k| log.feats.contains_key(k));
    let good = if spec.mode == Mode::Arena { log.feats.get("insert").copied().unwrap_or(0) + log.feats.get("fill").copied().unwrap_or(0) >= 3 && has(&["remove", "update", "type_change", "merge", "rebuild", "malformed"]) } else { has(&["add", "remove", "modify"]) };
    if good && st.nontrivial.insert(h) && st.samples.is_empty() { st.samples.push(json!({ "schema": reg.desc.name, "operations": log.shown })); }
    if let Some(mut m) = bad {
      stop.store(true, Ordering::Relaxed);
      let mut cur = ops;
      let until = Instant::now() + Duration::from_secs(20);
      'again: loop {
        if Instant::now() > until { break }
        let mut cand: Vec<Vec<Vec<u16>>> = vec![];
        let mut len = cur.len() / 2;
        while len > 0 { for a in (0..cur.len()).step_by(len) { let mut c = cur.clone(); c.drain(a..(a + len).min(cur.len())); cand.push(c) } len /= 2 }
        for a in 0..cur.len() {
          for cut in [1, cur[a].len() / 2] { if cut > 0 && cut < cur[a].len() { let mut c = cur.clone(); let l = c[a].len(); c[a].truncate(l - cut); cand.push(c) } }
          for b in 0..cur[a].len() { for x in [0, cur[a][b] % 40, cur[a][b] / 2] { if x < cur[a][b] { let mut c = cur.clone(); c[a][b] = x; cand.push(c) } } }
        }
        for c in cand { st.shrink_steps += 1; if let (_, Some(x)) = part_run(f, &c) { cur = c; m = x; continue 'again } if Instant::now() > until { break } }
        break
      }
      let (log, _) = part_run(f, &cur);
      return (st, None, Some(json!({ "property": spec.id, "schema": reg.desc.name, "declaration": show::schema(reg.desc), "part": cur, "operations": log.shown, "violation": { "kind": "Part", "message": m }, "seed": env.seed, "tier": env.tier, "schemas": env!("TTH_SCHEMAS") })));
    }
  }
  (st, None, None)
}
fn random_nv(d: &SchemaDesc, var: usize, r: &[u16]) -> NV {
  let mut i = 0;
  let mut n = || { let x = r.get(i).copied().unwrap_or(0); i += 1; x as usize };
  let mut v = NV::blank(d, var, n() as u64);
  for x in v.data.iter_mut() { *x = (n() % 200) as u64 }
  for l in v.links.iter_mut() {
    match l {
      LV::D(x) => *x = n() % 7,
      LV::V(x) => { for _ in 0..n() % 6 { let y = n() % 7; x.push(y) } }
      LV::S(x) => { for _ in 0..n() % 6 { let y = n() % 9; x.insert(y); } }
    }
  }
  v
}

pub fn run(env: &Env, spec: &Spec) -> i32 {
  let start = Instant::now();
  let thorough = env.tier == "thorough";
  let cases = if thorough { spec.cases.1 } else { spec.cases.0 };
  let cases = std::env::var("TTH_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(cases);
  let deadline = start + Duration::from_secs(if thorough { 1500 } else { 240 });
  let stop = Arc::new(AtomicBool::new(false));
  let mut stats = Stats::default();
  let mut found: Option<Value> = None;
  let mut abandoned = 0;
  if env.careful { let _ = std::fs::create_dir_all(format!("{}/replays", env.root)); }
  let watches: Vec<Arc<Watch>> = (0..SHARDS).map(|k| Arc::new(Watch { careful: if env.careful { Some((format!("{}/replays/careful-{}-{}.json", env.root, spec.id, k).into(), spec.id, spec.relevant)) } else { None }, ..Watch::default() })).collect();
  let results: Arc<Mutex<Vec<(usize, Stats, Option<Value>)>>> = Arc::default();
  // SAFETY-free: the shards borrow env and spec for the life of the process
  let env_s: &'static Env = unsafe { &*(env as *const Env) };
  let spec_s: &'static Spec = unsafe { &*(spec as *const Spec) };
  let mut handles = vec![];
  for k in 0..SHARDS {
    let (stop, watch, results) = (stop.clone(), watches[k].clone(), results.clone());
    handles.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
      let (st, f, v) = if matches!(spec_s.mode, Mode::Arena | Mode::Edit) { part_shard(env_s, spec_s, k, cases, deadline, &stop, &watch) } else if spec_s.mode == Mode::Reflect { reflect_shard(env_s, spec_s, k, cases, deadline, &stop, &watch) } else { let (s, f) = shard(env_s, spec_s, k, cases, deadline, &stop, watch); (s, f, None) };
      let v = v.or_else(|| f.map(|f| found_json(env_s, spec_s.id, &f)));
      results.lock().unwrap().push((k, st, v));
    }).unwrap());
  }
  let mut hung = vec![false; SHARDS];
  loop {
    std::thread::sleep(Duration::from_millis(20));
    for k in 0..SHARDS {
      if hung[k] { continue }
      let now = watches[k].now.lock().unwrap().clone();
      if let Some((t, f)) = now {
        if t.elapsed() > Duration::from_secs(HANG) {
          hung[k] = true;
          abandoned += 1;
          // a hang is about the property if the corresponding failure would be
          let whole = matches!(spec.mode, Mode::Arena | Mode::Edit | Mode::Reflect);
          if (whole || (spec.relevant)(&f)) && found.is_none() {
            let case: Value = watches[k].case.lock().unwrap().clone().unwrap_or(Value::Null);
            found = Some(if whole {
              let mut v = json!({ "property": spec.id, "violation": { "kind": "Part", "message": f.msg }, "note": "a hang; not shrunk", "seed": env.seed, "tier": env.tier, "schemas": env!("TTH_SCHEMAS") });
              for (a, b) in case.as_object().unwrap() { v[a] = b.clone() }
              v
            } else { json!({ "property": spec.id, "case": case, "violation": { "kind": format!("{:?}", f.kind), "message": f.msg }, "note": "a hang; not shrunk", "seed": env.seed, "tier": env.tier, "schemas": env!("TTH_SCHEMAS") }) });
            stop.store(true, Ordering::Relaxed);
          }
        }
      }
    }
    let done = (0..SHARDS).all(|k| hung[k] || handles[k].is_finished());
    if done { break }
  }
  for (k, h) in handles.into_iter().enumerate() { if !hung[k] { if h.join().is_err() { eprintln!("harness: a shard panicked"); return 3 } } }
  let mut rs = std::mem::take(&mut *results.lock().unwrap());
  rs.sort_by_key(|x| x.0);
  for (_, st, v) in rs { stats.merge(st); if found.is_none() { found = v } }

  // C02: threads sharing a context
  let mut thread_indices = 0;
  let mut thread_runs = 0;
  if spec.id == "C02" && found.is_none() {
    let reps = if thorough { 40 } else { 6 };
    'o: for rep in 0..reps {
      for r in env.regs.iter().filter(|r| r.desc.fam == 'p' || thorough) {
        let seed = env.seed.wrapping_mul(1000003).wrapping_add(rep);
        let out = (r.threads)(seed, 8, 60);
        let msg = match out { Err(m) => format!("panicked: {m}"), Ok(Err(m)) => m, Ok(Ok(n)) => { thread_indices += n; thread_runs += 1; continue } };
        found = Some(json!({ "property": "C02", "schema": r.desc.name, "threads": { "seed": seed, "threads": 8, "rounds": 60 }, "violation": { "kind": "Index", "message": msg }, "seed": env.seed, "tier": env.tier, "schemas": env!("TTH_SCHEMAS") }));
        break 'o;
      }
    }
    stats.evaluations += thread_runs;
  }
  let wall = start.elapsed().as_secs_f64();
  stats.samples.truncate(3);
  let ev = json!({
    "property": spec.id, "tier": env.tier, "seed": env.seed, "level": "exploration",
    "coverage": {
      "evaluations": stats.evaluations, "distinct_cases": stats.distinct.len(), "distinct_nontrivial": stats.nontrivial.len(),
      "rule": format!("Cases are operation histories decoded from proptest-generated raw operations over generated node declarations; a case counts once per distinct concrete history, and is non-trivial if {}.", spec.rule).replace("operation histories decoded from proptest-generated raw operations", if spec.mode == Mode::Reflect { "proptest-generated nodes" } else if spec.mode == Mode::Arena { "operation sequences on node arenas decoded from proptest-generated numbers" } else if spec.mode == Mode::Edit { "operation sequences on the links of single nodes decoded from proptest-generated numbers" } else { "operation histories decoded from proptest-generated raw operations" }),
      "samples": stats.samples, "operations_executed": stats.ops, "features": stats.feats, "cases_with_feature": stats.cases_with, "schemas": stats.schemas, "schema_count": stats.schemas.len(),
      "failures_of_other_properties": stats.other_failures, "cases_not_run_deadline": stats.truncated, "shards_abandoned": abandoned, "shrink_steps": stats.shrink_steps,
      "threads_runs": thread_runs, "indices_from_threads": thread_indices,
      "exhaustive": false },
    "assumptions": [if spec.id == "C24" { "the library is built with debug assertions, as by default in a dev build, and is compared with a build without them" } else { "the library is built with debug assertions, as by default in a dev build" }, "the reference model in harness/src/model.rs states the documented meaning"],
    "wall_s": wall, "violations": found.is_some() as i32 });
  let _ = std::fs::create_dir_all(format!("{}/evidence", env.root));
  std::fs::write(format!("{}/evidence/{}.json", env.root, spec.id), serde_json::to_string_pretty(&ev).unwrap()).expect("harness: cannot write the evidence");
  eprintln!("{}: {} cases, {} distinct non-trivial, {} operations, {:.1} s; other failures: {:?}", spec.id, stats.evaluations, stats.nontrivial.len(), stats.ops, wall, stats.other_failures);
  match found {
    Some(v) => {
      eprintln!("{}: {}", v["violation"]["kind"], v["violation"]["message"]);
      if let Some(a) = v["operations"].as_array() { for o in a { eprintln!("  {}", o.as_str().unwrap()) } }
      let p = write_replay(env, spec.id, v);
      println!("VIOLATION property={} replay={}", spec.id, p);
      1
    }
    None => if abandoned == SHARDS { eprintln!("harness: every shard hung on something of another property"); 3 } else { 0 },
  }
}

/// Run a replay file: exit 1 if it still shows the violation
pub fn replay(env: &Env, path: &str) -> i32 {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("cannot read the replay file")).expect("bad replay file");
  let id = v["property"].as_str().unwrap();
  let specs = specs();
  let spec = specs.iter().find(|s| s.id == id).expect("no such property");
  let say = |m: String| { println!("VIOLATION property={id} replay={path}\n{m}"); 1 };
  let by_name = |n: &str| env.regs.iter().position(|r| r.desc.name == n).expect("the schema of this replay is not in this build");
  if let Some(t) = v.get("threads") {
    let r = &env.regs[by_name(v["schema"].as_str().unwrap())];
    for _ in 0..10 { match (r.threads)(t["seed"].as_u64().unwrap(), t["threads"].as_u64().unwrap() as usize, t["rounds"].as_u64().unwrap() as usize) { Ok(Ok(_)) => {} Ok(Err(m)) | Err(m) => return say(m) } }
    println!("no violation"); return 0;
  }
  if let Some(n) = v.get("node") {
    let nv: NV = serde_json::from_value(n.clone()).unwrap();
    match (env.regs[by_name(v["schema"].as_str().unwrap())].refl)(&nv) { Ok(Ok(())) => { println!("no violation"); return 0 } Ok(Err(m)) | Err(m) => return say(m) }
  }
  if let Some(n) = v.get("part") {
    let ops: Vec<Vec<u16>> = serde_json::from_value(n.clone()).unwrap();
    let (log, bad) = part_run(part_fn(spec.mode, &env.regs[by_name(v["schema"].as_str().unwrap())]), &ops);
    for o in log.shown { println!("  {o}") }
    return match bad { Some(m) => say(m), None => { println!("no violation"); 0 } };
  }
  let mut j = Judge::new(env, spec);
  if let Some(t) = v.get("trace").filter(|t| !t.is_null()) {
    let t: Vec<COp> = serde_json::from_value(t.clone()).unwrap();
    let s = by_name(v["schema"].as_str().unwrap());
    for o in show::trace(env.regs[s].desc, &t) { println!("  {o}") }
    for _ in 0..10 { if let Some(f) = j.trace(s, &t) { return say(format!("{:?}: {}", f.kind, f.msg)) } }
  } else if let Some(c) = v.get("case").filter(|t| !t.is_null()) {
    println!("running the raw case; it may not return");
    let c: Case = serde_json::from_value(c.clone()).unwrap();
    let (_, f) = run_case((env.regs[c.schema].world)(), &spec.profile, DBG, &c, None);
    if let Some(f) = f.iter().find(|f| (spec.relevant)(f)) { return say(format!("{:?}: {}", f.kind, f.msg)) }
  }
  println!("no violation");
  0
}
#[allow(dead_code)]
pub fn _keep(_: &dyn World) {}
