//! Executes concrete operations on the library and on the model side by side and compares.
use crate::core::*;
use crate::model::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// A concrete operation. Nodes are named by uid, graphs, transactions and contexts by slot.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum COp {
  NewCtx { form: usize },
  NewGraph { c: usize },
  NewTrans { g: usize },
  Insert { t: usize, v: NV },
  Extend { t: usize, v: Vec<NV> },
  Alloc { t: usize, u: Uid, var: usize, form: usize },
  AllocUntyped { t: usize, u: Uid },
  Fill { t: usize, v: NV, untyped: bool },
  Change { t: usize, u: Uid, upd: bool, guard: Option<usize>, form: usize, eff: Vec<Eff> },
  Redirect { t: usize, old: Uid, new: Uid, all: bool },
  Remove { t: usize, u: Uid },
  Merge { t: usize, g: usize },
  IsEmpty { t: usize },
  Integrity { g: usize },
  Commit { t: usize, g: usize, probe: bool },
  CommitChecked { t: usize, g: usize, spec: CheckSpec },
  GiveUp { t: usize, form: usize },
  Switch { g: usize, c: usize },
  /// `cut`: the link (node, field, target) taken out of the data before it is read back
  Round { g: usize, form: usize, #[serde(default)] cut: Option<(Uid, usize, Uid)> },
  Reset { g: usize },
  // malformed calls which must panic at once; `idx` is a raw index
  BadFill { t: usize, idx: usize, v: NV, untyped: bool, why: String },
  BadMerge { t: usize, g: usize },
  BadCommit { t: usize, g: usize },
  ConsumeGraph { g: usize, #[serde(default)] take: Option<usize> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum FK { State, Panic, NoPanic, Backlinks, Asym, View, Isolation, Index, Closure, Empty, Check, RejectChanged, Integrity, Refl, Round, Switch, Twin, Peer, Order, Held }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Diff { pub nodeset: bool, pub data: bool, pub nonpair: bool, pub pair: bool, pub dangling: bool }

#[derive(Clone, Debug)]
pub struct Failure { pub kind: FK, pub msg: String, pub diff: Diff, pub why: Vec<Why>, pub f: PFeat, pub ctx: FCtx }
/// circumstances of the failing operation
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct FCtx { pub commit: bool, pub redirects: bool, pub removes: bool, pub merges: bool, pub probe: bool, pub has_pairs: bool, pub has_types: bool, pub after_round: bool, pub after_switch: bool, pub at_once: bool }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Obs { pub op: usize, pub what: String, pub ok: bool, pub nodes: Option<BTreeMap<Uid, NV>> }

/// uids from here on belong to no node: their indices were never handed out
pub const NOBODY: Uid = 900_000_000;
pub const C_VIEWS: u32 = 1;
pub const C_ISO: u32 = 2;
pub const C_BACK: u32 = 4;
pub const C_GET: u32 = 8;
/// every node and every recorded closure is held exactly as long as it is needed
pub const C_OWN: u32 = 16;
/// round trips of data in which one side of a pair is missing
pub const C_CUT: u32 = 32;
/// tokens of closures are told from those of nodes by this
const CLOSURE: u64 = 1 << 60;

#[derive(Clone, Debug, Default)]
pub struct Feats {
  pub n: BTreeMap<&'static str, usize>,
}
impl Feats {
  pub fn add(&mut self, k: &'static str, n: usize) { if n > 0 { *self.n.entry(k).or_insert(0) += n } }
  pub fn get(&self, k: &str) -> usize { self.n.get(k).copied().unwrap_or(0) }
}

pub struct Exec {
  pub w: Box<dyn World>,
  pub s: Sem,
  pub dbg: bool,
  pub flags: u32,
  pub gs: Vec<Option<MG>>,
  pub ts: Vec<Option<MT>>,
  /// context slot -> identity class (a restored context shares the identity of the original)
  pub ctx_class: Vec<usize>,
  pub idx_of: HashMap<Uid, (usize, usize)>,
  pub uid_of: HashMap<(usize, usize), Uid>,
  pub handed: Vec<BTreeSet<usize>>,
  pub log: Rc<RefCell<Vec<(usize, NV)>>>,
  pub n_closures: usize,
  n_ghosts: usize,
  /// what was held before
  base: BTreeMap<u64, isize>,
  pub g_round: BTreeSet<usize>,
  pub g_switch: BTreeSet<usize>,
  pub trace: Vec<COp>,
  pub obs: Vec<Obs>,
  pub feats: Feats,
  /// told what would be reported should the next call into the library never return
  pub watch: Option<std::sync::Arc<Watch>>,
}
#[derive(Default)]
pub struct Watch { pub now: std::sync::Mutex<Option<(std::time::Instant, Failure)>>, pub case: std::sync::Mutex<Option<serde_json::Value>>, pub careful: Option<(std::path::PathBuf, &'static str, fn(&Failure) -> bool)> }
impl Watch {
  fn begin(&self, f: Failure) {
    if let Some((p, id, relevant)) = &self.careful {
      let case = self.case.lock().unwrap().clone();
      let _ = std::fs::write(p, serde_json::json!({ "property": id, "case": case, "relevant": relevant(&f), "schemas": env!("TTH_SCHEMAS"), "violation": { "kind": format!("{:?}", f.kind), "message": f.msg } }).to_string());
    }
    *self.now.lock().unwrap() = Some((std::time::Instant::now(), f));
  }
  pub fn end(&self) { *self.now.lock().unwrap() = None; }
  /// a case which is watched as a whole; `case` holds the fields its replay file needs
  pub fn whole(&self, case: serde_json::Value) {
    if let Some((p, id, _)) = &self.careful {
      let mut v = serde_json::json!({ "property": id, "relevant": true, "schemas": env!("TTH_SCHEMAS"), "violation": { "kind": "Part", "message": "the process dies" } });
      for (k, x) in case.as_object().unwrap() { v[k] = x.clone() }
      let _ = std::fs::write(p, v.to_string());
    }
    *self.case.lock().unwrap() = Some(case);
    *self.now.lock().unwrap() = Some((std::time::Instant::now(), Failure { kind: FK::View, msg: "a call does not return".into(), diff: Diff::default(), why: vec![], f: PFeat::default(), ctx: FCtx::default() }));
  }
}

const UNKNOWN: usize = 1 << 40;
const GHOST: usize = 1 << 30;
type Res = Result<(), Vec<Failure>>;

fn diff_msg(real: &BTreeMap<Uid, NV>, want: &BTreeMap<Uid, NV>) -> String {
  let mut out = vec![];
  for u in real.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
    if real.get(u) != want.get(u) { out.push(format!("node #{}: library {:?}, expected {:?}", u, real.get(u), want.get(u))); }
    if out.len() >= 4 { break }
  }
  out.join("; ")
}

impl Exec {
  pub fn new(w: Box<dyn World>, dbg: bool, flags: u32) -> Exec {
    let s = Sem::new(w.desc());
    Exec { w, s, dbg, flags, gs: vec![], ts: vec![], ctx_class: vec![], idx_of: HashMap::new(), uid_of: HashMap::new(), handed: vec![], log: Rc::default(), n_closures: 0, n_ghosts: 0, base: if flags & C_OWN != 0 { live_tokens() } else { BTreeMap::new() },
      g_round: BTreeSet::new(), g_switch: BTreeSet::new(), trace: vec![], obs: vec![], feats: Feats::default(), watch: None }
  }
  pub fn fail(&self, kind: FK, msg: String) -> Failure {
    Failure { kind, msg, diff: Diff::default(), why: vec![], f: PFeat::default(), ctx: FCtx { has_pairs: !self.s.opp.is_empty(), has_types: !self.s.ann.is_empty(), ..FCtx::default() } }
  }
  fn one(&self, kind: FK, msg: String) -> Res { Err(vec![self.fail(kind, msg)]) }
  fn at_once(&self, msg: String) -> Res { let mut f = self.fail(FK::Panic, msg); f.ctx.at_once = true; Err(vec![f]) }
  pub fn g(&self, g: usize) -> &MG { self.gs[g].as_ref().unwrap() }
  pub fn t(&self, t: usize) -> &MT { self.ts[t].as_ref().unwrap() }
  fn tm(&mut self, t: usize) -> &mut MT { self.ts[t].as_mut().unwrap() }
  pub fn idx(&self, u: Uid) -> usize { if u == 0 { 0 } else { self.idx_of.get(&u).map_or(UNKNOWN + u, |x| x.1) } }
  fn to_idx(&self, v: &NV) -> NV { v.map(|u| self.idx(u)) }
  fn to_uid(&self, c: usize, v: &NV) -> NV { v.map(|i| self.uid_of.get(&(c, i)).copied().unwrap_or(UNKNOWN + i)) }

  /// a new index was handed out for `u`
  fn hand(&mut self, c: usize, u: Uid, idx: usize) -> Res {
    if idx == 0 { return self.one(FK::Index, format!("the empty index was handed out for node #{u}")); }
    if !self.handed[c].insert(idx) { return self.one(FK::Index, format!("index {idx} was handed out again, for node #{u}; it already belongs to #{:?}", self.uid_of.get(&(c, idx)))); }
    self.uid_of.insert((c, idx), u);
    self.idx_of.insert(u, (c, idx));
    Ok(())
  }

  /// Content of graph `g` in terms of uids, learning the indices of bulk-inserted nodes
  pub fn snapshot(&mut self, g: usize) -> Result<BTreeMap<Uid, NV>, Vec<Failure>> {
    let c = self.g(g).ctx;
    if let Some(w) = &self.watch { w.begin(self.fail(FK::View, "reading the graph does not return".into())) }
    let r = self.snapshot_inner(g, c);
    if let Some(w) = &self.watch { w.end() }
    r
  }
  fn snapshot_inner(&mut self, g: usize, c: usize) -> Result<BTreeMap<Uid, NV>, Vec<Failure>> {
    let real = match self.w.read(g) { Ok(r) => r, Err(m) => { self.one(FK::View, format!("iterating panicked: {m}"))?; unreachable!() } };
    let mut fs = vec![];
    for (i, n) in &real {
      match self.uid_of.get(&(c, *i)) {
        Some(u) => if *u != n.uid as usize { fs.push(self.fail(FK::Index, format!("index {i} denoted node #{u} and now denotes node #{}", n.uid))) },
        None => if self.idx_of.get(&(n.uid as usize)).map_or(true, |x| x.0 != c) {
          if let Err(f) = self.hand(c, n.uid as usize, *i) { fs.extend(f) }
        } else { fs.push(self.fail(FK::Index, format!("node #{} moved from index {} to {}", n.uid, self.idx(n.uid as usize), i))) },
      }
    }
    if !fs.is_empty() { return Err(fs); }
    let mut out = BTreeMap::new();
    for (i, n) in &real {
      let v = self.to_uid(c, n);
      if out.insert(n.uid as usize, v).is_some() { fs.push(self.fail(FK::View, format!("index {i} appears twice in the iteration"))); }
    }
    if self.flags & C_GET != 0 {
      for i in self.handed[c].clone() {
        let got = self.w.get(g, i);
        let in_iter = real.iter().find(|x| x.0 == i).map(|x| &x.1);
        match got {
          Ok(n) => if n.as_ref() != in_iter {
            if let Some(n) = &n { if self.uid_of.get(&(c, i)) != Some(&(n.uid as usize)) { fs.push(self.fail(FK::Index, format!("get({i}) gives node #{}", n.uid))); } }
            fs.push(self.fail(FK::View, format!("get({i}) gives {n:?} but iteration gives {in_iter:?}")))
          },
          Err(m) => fs.push(self.fail(FK::View, format!("get({i}) panicked: {m}"))),
        }
      }
    }
    if fs.is_empty() { Ok(out) } else { Err(fs) }
  }
  fn diff(&self, real: &BTreeMap<Uid, NV>, want: &BTreeMap<Uid, NV>) -> Diff {
    let mut d = Diff::default();
    for u in real.keys().chain(want.keys()) {
      match (real.get(u), want.get(u)) {
        (Some(a), Some(b)) => {
          if a.var != b.var || a.data != b.data || a.uid != b.uid { d.data = true }
          if a.var == b.var { for f in 0..a.links.len() { if a.links[f] != b.links[f] { if self.s.pair_field((a.var, f)) { d.pair = true } else { d.nonpair = true } } } }
        }
        _ => d.nodeset = true,
      }
    }
    d
  }
  /// every graph must hold what the model says; `changed` is the graph just operated on
  fn compare_others(&mut self, changed: Option<usize>) -> Res {
    for g in 0..self.gs.len() {
      if self.gs[g].is_none() || Some(g) == changed { continue }
      let real = self.snapshot(g)?;
      if real != self.g(g).nodes {
        let mut f = self.fail(FK::Isolation, format!("graph {g} changed although nothing was committed to it: {}", diff_msg(&real, &self.g(g).nodes)));
        f.diff = self.diff(&real, &self.g(g).nodes);
        return Err(vec![f]);
      }
    }
    Ok(())
  }
  pub fn probe_indices(&self, g: usize) -> Vec<usize> {
    let c = self.g(g).ctx;
    let mut v: Vec<usize> = self.handed[c].iter().copied().collect();
    let m = v.last().copied().unwrap_or(0);
    v.extend([0, m + 1, m + 7]);
    v
  }
  fn after_change(&mut self, g: usize) -> Vec<Failure> {
    let mut fs = vec![];
    if self.flags & C_BACK != 0 {
      if let Err(m) = self.w.check_backlinks(g) { fs.push(self.fail(FK::Backlinks, format!("check_backlinks panicked: {m}"))); }
    }
    if self.flags & C_VIEWS != 0 {
      let p = self.probe_indices(g);
      if let Some(w) = &self.watch { w.begin(self.fail(FK::View, "a view does not return".into())) }
      let r = self.w.views(g, &p);
      if let Some(w) = &self.watch { w.end() }
      match r {
        Err(m) => fs.push(self.fail(FK::View, format!("a view panicked: {m}"))),
        Ok(Err(m)) => fs.push(self.fail(FK::View, m)),
        Ok(Ok(())) => {}
      }
    }
    fs
  }
  pub fn reset(&mut self, g: usize) {
    let c = self.g(g).ctx;
    self.w.drop_graph(g);
    // graphs are replaced in place so that slots stay aligned
    let n = self.w.new_graph(c);
    self.gs.push(None);
    debug_assert!(n == self.gs.len() - 1);
    self.gs[n] = Some(MG { ctx: c, ..MG::default() });
    self.gs[g] = None;
    for t in 0..self.ts.len() {
      if self.ts[t].as_ref().map_or(false, |x| x.g == g) { self.ts[t] = None; let _ = self.w.drop_trans(t, 0); }
    }
  }

  /// no link of any live node leads outside the graph, so indices may be renamed
  pub fn closed(&self, g: usize) -> bool {
    let n = &self.g(g).nodes;
    n.values().all(|v| v.links.iter().all(|l| l.targets().iter().all(|y| n.contains_key(y))))
  }
  /// whether the data of a graph without one side of a pair is still data the library has to accept
  pub fn cuttable(&self, g: usize, u: Uid, f: usize, y: Uid) -> bool {
    let Some(v) = self.g(g).nodes.get(&u) else { return false };
    if v.links.get(f).map_or(true, |l| !l.contains(y)) || !self.s.pair_field((v.var, f)) { return false }
    let mut inc = self.g(g).nodes.clone();
    inc.get_mut(&u).unwrap().links[f].erase(y);
    let p = predict(&self.s, &MG::default(), &MT { inc, ..MT::default() }, self.dbg);
    p.panics.is_empty() && !p.maybe
  }
  pub fn plain(&self) -> bool { self.s.opp.is_empty() && self.s.ann.is_empty() }
  /// the transaction an operation belongs to and the nodes it names
  fn names(op: &COp) -> (Option<usize>, Vec<Uid>) {
    let ls = |v: &NV| v.links.iter().flat_map(|l| l.targets()).collect::<Vec<_>>();
    match op {
      COp::Insert { t, v } | COp::Fill { t, v, .. } => (Some(*t), ls(v)),
      COp::Extend { t, v } => (Some(*t), v.iter().flat_map(ls).collect()),
      COp::Change { t, u, eff, .. } => (Some(*t), eff.iter().flat_map(|e| e.targets()).chain([*u]).collect()),
      COp::Redirect { t, old, new, .. } => (Some(*t), vec![*old, *new]),
      COp::Remove { t, u } => (Some(*t), vec![*u]),
      _ => (None, vec![]),
    }
  }
  /// whether the slots an operation names exist (shortened traces may have lost them)
  fn applicable(&self, op: &COp) -> bool {
    let g = |g: &usize| self.gs.get(*g).map_or(false, |x| x.is_some());
    let t = |t: &usize| self.ts.get(*t).map_or(false, |x| x.is_some());
    let c = |c: &usize| *c < self.ctx_class.len();
    // a node of another context, or whose index nobody knows, cannot be named
    if let (Some(t), us) = Exec::names(op) {
      if let Some(Some(t)) = self.ts.get(t) { if us.iter().any(|u| *u != 0 && *u < NOBODY && self.idx_of.get(u).map_or(true, |x| x.0 != t.ctx)) { return false } }
    }
    match op {
      COp::NewCtx { .. } => true,
      COp::NewGraph { c: x } => c(x),
      COp::Round { g: x, cut, .. } => g(x) && self.closed(*x) && cut.map_or(true, |(u, f, y)| self.cuttable(*x, u, f, y)),
      COp::NewTrans { g: x } | COp::Reset { g: x } | COp::Integrity { g: x } | COp::ConsumeGraph { g: x, .. } => g(x),
      COp::Insert { t: x, v } => t(x) && !self.idx_of.contains_key(&(v.uid as usize)),
      COp::Extend { t: x, .. } | COp::Alloc { t: x, .. } | COp::AllocUntyped { t: x, .. } | COp::Change { t: x, .. } | COp::Redirect { t: x, .. } | COp::Remove { t: x, .. }
      | COp::IsEmpty { t: x } | COp::GiveUp { t: x, .. } => t(x),
      COp::Fill { t: x, v, untyped } => t(x) && self.t(*x).alloc.get(&(v.uid as usize)).map_or(false, |k| if *untyped { k.is_none() } else { *k == Some(v.var) }),
      COp::BadFill { t: x, idx, v, untyped, .. } => t(x) && self.uid_of.get(&(self.t(*x).ctx, *idx)).map_or(true, |u| match self.t(*x).alloc.get(u) {
        // still malformed?
        Some(Some(k)) => !*untyped && *k != v.var,
        Some(None) => false,
        None => true,
      }),
      COp::Merge { t: x, g: y } => t(x) && g(y) && self.t(*x).ctx == self.g(*y).ctx && self.t(*x).g != *y && (self.plain() || self.closed(*y)),
      COp::BadMerge { t: x, g: y } => t(x) && g(y) && self.ctx_class[self.t(*x).ctx] != self.ctx_class[self.g(*y).ctx],
      COp::Commit { t: x, g: y, .. } | COp::CommitChecked { t: x, g: y, .. } | COp::BadCommit { t: x, g: y } => t(x) && g(y) && (self.t(*x).ctx == self.g(*y).ctx || self.ctx_class[self.t(*x).ctx] != self.ctx_class[self.g(*y).ctx]),
      COp::Switch { g: x, c: y } => g(x) && c(y) && self.closed(*x),
    }
  }

  pub fn step(&mut self, op: &COp) -> Res {
    if !self.applicable(op) { return Ok(()) }
    self.trace.push(op.clone());
    let r = self.step_inner(op);
    if r.is_ok() && self.flags & C_ISO != 0 { self.compare_others(None)?; }
    if r.is_ok() && self.flags & C_OWN != 0 { self.held()?; }
    r
  }
  /// nodes exist once each, in the graph or open transaction that holds them, and nowhere else; closures
  /// exist while the transaction they were recorded in is open
  fn held(&mut self) -> Res {
    let mut now = live_tokens();
    for (k, n) in &self.base { *now.entry(*k).or_insert(0) -= n; }
    let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
    for g in self.gs.iter().flatten() { must.extend(g.nodes.keys().map(|u| *u as u64)) }
    for t in self.ts.iter().flatten() {
      must.extend(t.inc.keys().map(|u| *u as u64));
      may.extend(t.cancel.iter().map(|u| *u as u64));
      may.extend(t.muts.iter().chain(t.upds.iter()).map(|r| CLOSURE + r.cid as u64));
    }
    for k in now.keys().chain(must.iter()).copied().collect::<BTreeSet<u64>>() {
      let n = now.get(&k).copied().unwrap_or(0);
      let what = if k >= CLOSURE { format!("closure {}", k - CLOSURE) } else { format!("node #{k}") };
      let m = match (must.contains(&k), may.contains(&k)) {
        (true, _) if n == 1 => continue,
        (true, _) if n == 0 => format!("{what} is in a graph or an open transaction but no longer exists"),
        (_, true) if n == 0 || n == 1 => continue,
        (false, false) if n == 0 => continue,
        (false, false) => format!("{what} is in no graph and no open transaction but still exists ({n} times)"),
        _ => format!("{what} exists {n} times"),
      };
      return self.one(FK::Held, m);
    }
    self.feats.add("held_checks", 1);
    Ok(())
  }
  /// everything goes away with the graphs and transactions
  pub fn end(&mut self) -> Res {
    if self.flags & C_OWN == 0 { return Ok(()) }
    let r = self.w.clear(self.trace.len());
    for g in self.gs.iter_mut() { *g = None }
    for t in self.ts.iter_mut() { *t = None }
    if let Err(m) = r { return self.one(FK::Held, format!("dropping graphs and transactions panicked: {m}")) }
    self.held()
  }
  fn closure(&mut self, eff: &[Eff]) -> (usize, NvFn) {
    let cid = self.n_closures;
    self.n_closures += 1;
    let e: Vec<Eff> = eff.iter().map(|e| e.map(&mut |u| self.idx(u))).collect();
    let log = self.log.clone();
    let tok = Tok::new(CLOSURE + cid as u64);
    (cid, Box::new(move |v| { let _held = &tok; log.borrow_mut().push((cid, v.clone())); apply(&e, v) }))
  }

  fn step_inner(&mut self, op: &COp) -> Res {
    let here = self.trace.len() - 1;
    match op {
      COp::NewCtx { form } => {
        let c = self.w.new_ctx(*form);
        self.ctx_class.push(c);
        self.handed.push(BTreeSet::new());
      }
      COp::NewGraph { c } => { self.w.new_graph(*c); self.gs.push(Some(MG { ctx: *c, ..MG::default() })); }
      COp::NewTrans { g } => {
        let c = self.g(*g).ctx;
        self.w.new_trans(c);
        self.ts.push(Some(MT { ctx: c, g: *g, ..MT::default() }));
      }
      COp::Insert { t, v } => {
        let n = self.to_idx(v);
        match self.w.insert(*t, &n) { Ok(i) => { let c = self.t(*t).ctx; self.hand(c, v.uid as usize, i)? } Err(m) => return self.at_once(format!("insert panicked: {m}")) }
        self.tm(*t).inc.insert(v.uid as usize, v.clone());
      }
      COp::Extend { t, v } => {
        let n: Vec<NV> = v.iter().map(|v| self.to_idx(v)).collect();
        if let Err(m) = self.w.extend(*t, &n) { return self.at_once(format!("extend panicked: {m}")) }
        for v in v { let t = self.tm(*t); t.inc.insert(v.uid as usize, v.clone()); t.extended.insert(v.uid as usize); }
      }
      COp::Alloc { t, u, var, form } => {
        match self.w.alloc(*t, *var, *form) { Ok(i) => { let c = self.t(*t).ctx; self.hand(c, *u, i)? } Err(m) => return self.at_once(format!("alloc panicked: {m}")) }
        self.tm(*t).alloc.insert(*u, Some(*var));
      }
      COp::AllocUntyped { t, u } => {
        match self.w.alloc_untyped(*t) { Ok(i) => { let c = self.t(*t).ctx; self.hand(c, *u, i)? } Err(m) => return self.at_once(format!("alloc_untyped panicked: {m}")) }
        self.tm(*t).alloc.insert(*u, None);
      }
      COp::Fill { t, v, untyped } => {
        let n = self.to_idx(v);
        let i = self.idx(v.uid as usize);
        if let Err(m) = self.w.fill(*t, i, &n, *untyped) { return self.at_once(format!("fill_back panicked: {m}")) }
        let t = self.tm(*t);
        t.alloc.remove(&(v.uid as usize));
        t.inc.insert(v.uid as usize, v.clone());
      }
      COp::Change { t, u, upd, guard, form, eff } => {
        let (cid, f) = self.closure(eff);
        let i = self.idx(*u);
        self.log.borrow_mut().clear();
        let c = self.t(*t).ctx;
        let at_once = self.t(*t).inc.get(u).cloned();
        let bad_type = matches!((&at_once, guard), (Some(v), Some(g)) if v.var != *g);
        let r = if *upd { self.w.update(*t, i, *guard, *form, f) } else { self.w.mutate(*t, i, *guard, *form, f) };
        if bad_type {
          // a typed closure on a node of another type, run at once
          self.ts[*t] = None; let _ = self.w.drop_trans(*t, 0);
          if r.is_ok() { let mut f = self.fail(FK::NoPanic, "a typed mutation or update of a node of another type did not panic".into()); f.why = vec![Why::TypedClosure]; return Err(vec![f]); }
          self.feats.add("reject_TypedClosure", 1);
          return Ok(());
        }
        if let Err(m) = r { return self.at_once(format!("recording a mutation or update panicked: {m}")) }
        let ran: Vec<(usize, NV)> = self.log.borrow().iter().map(|(k, v)| (*k, self.to_uid(c, v))).collect();
        match at_once {
          Some(v) => {
            if ran != vec![(cid, v.clone())] { return self.one(FK::Closure, format!("the closure on node #{u}, created in the same transaction, should run once at once on {v:?}; ran: {ran:?}")); }
            let a = apply(eff, v);
            self.tm(*t).inc.insert(*u, a);
            self.feats.add("closure_at_once", 1);
          }
          None => {
            if !ran.is_empty() { return self.one(FK::Closure, format!("the closure on node #{u} ran before the commit on {ran:?}")); }
            let rec = Rec { uid: *u, cid, guard: *guard, eff: eff.clone() };
            if *upd { self.tm(*t).upds.push(rec) } else { self.tm(*t).muts.push(rec) }
          }
        }
      }
      COp::Redirect { t, old, new, all } => {
        let (a, b) = (self.idx(*old), self.idx(*new));
        if let Err(m) = self.w.redirect(*t, a, b, *all) { return self.at_once(format!("redirect panicked: {m}")) }
        let t = self.tm(*t);
        if *all { t.redall.push((*old, *new)) } else { t.red.push((*old, *new)) }
      }
      COp::Remove { t, u } => {
        let i = self.idx(*u);
        if let Err(m) = self.w.remove(*t, i) { return self.at_once(format!("remove panicked: {m}")) }
        let t = self.tm(*t);
        if t.inc.remove(u).is_some() || t.alloc.remove(u).is_some() { t.cancel.insert(*u); t.lenient_empty = true } else { t.dec.insert(*u); }
      }
      COp::Merge { t, g } => {
        if let Err(m) = self.w.merge(*t, *g) { let mut f = self.fail(FK::Panic, format!("merge panicked: {m}")); f.ctx.merges = true; f.ctx.at_once = true; return Err(vec![f]) }
        let mg = self.gs[*g].take().unwrap();
        let target = self.t(*t).g;
        // transactions made for the merged graph belong to the other one now; if declarations concern its
        // links they could name nodes that are not there yet, so they are dropped
        if self.plain() { for o in self.ts.iter_mut().flatten() { if o.g == *g { o.g = target } } } else { self.drop_bound(*g) }
        let tr = self.tm(*t);
        tr.n_merges += 1;
        tr.lenient_empty = true;
        for (u, v) in mg.nodes { tr.inc.insert(u, v); tr.merged.insert(u); }
      }
      COp::IsEmpty { t } => {
        let want = self.t(*t).is_empty();
        let lenient = self.t(*t).lenient_empty;
        match self.w.is_empty(*t) {
          Err(m) => return self.one(FK::Empty, format!("is_empty panicked: {m}")),
          Ok(b) => {
            self.obs.push(Obs { op: here, what: "is_empty".into(), ok: b, nodes: None });
            if b != want && !(lenient && want) { return self.one(FK::Empty, format!("is_empty says {b} for a transaction in which {} recorded", if want { "nothing is" } else { "operations are" })); }
          }
        }
      }
      COp::Integrity { g } => {
        // judged by what the graph itself shows
        let real = match self.w.read(*g) { Ok(v) => v, Err(m) => return self.one(FK::View, format!("reading the graph panicked: {m}")) };
        let live: BTreeSet<usize> = real.iter().map(|x| x.0).collect();
        let out: Vec<(usize, usize)> = real.iter().flat_map(|(i, v)| v.links.iter().flat_map(|l| l.targets()).filter(|y| !live.contains(y)).map(|y| (*i, y)).collect::<Vec<_>>()).collect();
        let r = self.w.check_integrity(*g);
        self.feats.add(if out.is_empty() { "integrity_closed" } else { "integrity_open" }, 1);
        if out.is_empty() && real.iter().any(|x| x.1.links.iter().any(|l| !l.targets().is_empty())) { self.feats.add("integrity_closed_links", 1) }
        match (out.first(), r) {
          (None, Err(m)) => return self.one(FK::Integrity, format!("all links lead to nodes of the graph, but the integrity check panicked: {m}")),
          (Some((x, y)), Ok(())) if self.dbg => return self.one(FK::Integrity, format!("node {x} links to {y}, which is not in the graph ({} such links), but the integrity check passed", out.len())),
          _ => {}
        }
        match self.w.read(*g) { Ok(v) if v == real => {} _ => return self.one(FK::Integrity, "the integrity check changed the graph".into()) }
      }
      COp::GiveUp { t, form } => {
        self.log.borrow_mut().clear();
        self.ts[*t] = None;
        if let Err(m) = self.w.drop_trans(*t, *form) { return self.one(FK::Isolation, format!("dropping a transaction panicked: {m}")); }
        if !self.log.borrow().is_empty() { return self.one(FK::Closure, "a closure of a dropped transaction ran".into()); }
        self.feats.add("given_up", 1);
      }
      COp::Commit { t, g, probe } => return self.commit(*t, *g, None, *probe),
      COp::CommitChecked { t, g, spec } => return self.commit(*t, *g, Some(spec), false),
      COp::Reset { g } => self.reset(*g),
      COp::Switch { g, c } => return self.switch(*g, *c),
      COp::Round { g, form, cut } => return self.round(*g, *form, *cut),
      COp::BadFill { t, idx, v, untyped, why } => {
        let n = self.to_idx(v);
        let r = self.w.fill(*t, *idx, &n, *untyped);
        self.ts[*t] = None; let _ = self.w.drop_trans(*t, 0);
        if r.is_ok() { let mut f = self.fail(FK::NoPanic, format!("filling back {why} did not panic")); f.why = vec![Why::Unfilled]; return Err(vec![f]); }
        self.feats.add("reject_fill", 1);
      }
      COp::BadMerge { t, g } => {
        let r = self.w.merge(*t, *g);
        self.ts[*t] = None; let _ = self.w.drop_trans(*t, 0);
        self.gs[*g] = None;
        for t in 0..self.ts.len() { if self.ts[t].as_ref().map_or(false, |x| x.g == *g) { self.ts[t] = None; let _ = self.w.drop_trans(t, 0); } }
        if r.is_ok() { let mut f = self.fail(FK::NoPanic, "merging a graph of another context did not panic".into()); f.why = vec![Why::Ctx]; return Err(vec![f]); }
        self.feats.add("reject_merge", 1);
      }
      COp::BadCommit { t, g } => return self.commit(*t, *g, None, false),
      COp::ConsumeGraph { g, take } => {
        let n = self.g(*g).nodes.len();
        self.gs[*g] = None;
        for t in 0..self.ts.len() { if self.ts[t].as_ref().map_or(false, |x| x.g == *g) { self.ts[t] = None; let _ = self.w.drop_trans(t, 0); } }
        match self.w.into_views(*g, *take) {
          Err(m) => return self.one(FK::View, format!("iterating by value panicked: {m}")),
          Ok(Err(m)) => return self.one(FK::View, m),
          Ok(Ok(())) => self.feats.add("by_value_nodes", n),
        }
      }
    }
    Ok(())
  }

  fn commit(&mut self, t: usize, g: usize, spec: Option<&CheckSpec>, probe: bool) -> Res {
    let here = self.trace.len() - 1;
    let mt = self.ts[t].take().unwrap();
    let p = predict(&self.s, self.g(g), &mt, self.dbg);
    let c = self.g(g).ctx;
    if !self.plain() && p.panics.iter().all(|w| !w.malformed()) {
      // declarations say nothing about links to nodes that are not in the graph and never were
      let ok = |y: &Uid| p.nodes.contains_key(y) || self.g(g).ever.contains(y) || mt.cancel.contains(y);
      if !p.nodes.values().all(|v| v.links.iter().all(|l| l.targets().iter().all(ok))) {
        let _ = self.w.drop_trans(t, 0);
        self.feats.add("out_of_domain", 1);
        return Err(vec![]);
      }
    }
    let fctx = FCtx { commit: true, redirects: !mt.red.is_empty() || !mt.redall.is_empty(), removes: !mt.dec.is_empty() || !mt.cancel.is_empty(), merges: mt.n_merges > 0, probe,
      has_pairs: !self.s.opp.is_empty(), has_types: !self.s.ann.is_empty(), after_round: self.g_round.contains(&g), after_switch: self.g_switch.contains(&g), at_once: false };
    self.log.borrow_mut().clear();
    let calls: Rc<RefCell<Vec<CheckCall>>> = Rc::default();
    let ys: Vec<usize> = spec.map_or(vec![], |s| s.checks.iter().map(|(_, _, f)| f.map_or(0, |f| self.idx(f.1))).collect());
    if let Some(w) = &self.watch {
      let mut f = self.fail(if p.panics.is_empty() { FK::Panic } else { FK::NoPanic }, "the commit does not return".into());
      f.ctx = fctx; f.f = p.f; f.why = p.panics.clone();
      w.begin(f);
    }
    let r = match spec { Some(s) => self.w.commit_checked(g, t, s, &ys, calls.clone()), None => self.w.commit(g, t) };
    if let Some(w) = &self.watch { w.end() }
    let mk = |e: &Exec, kind, msg| { let mut f = e.fail(kind, msg); f.ctx = fctx; f.f = p.f; f.why = p.panics.clone(); f };

    // expected result of the user's checks
    let exp = spec.map(|s| Expect::new(&p, &mt, self.g(g), s));
    let only_ctx = p.panics == vec![Why::Ctx] || p.panics == vec![Why::Unfilled];
    match &r {
      Err(msg) => {
        self.obs.push(Obs { op: here, what: format!("commit g{g}"), ok: false, nodes: None });
        let check_panic = p.panics.is_empty() && exp.as_ref().map_or(false, |e| e.must_fail || e.may_fail);
        if p.panics.is_empty() && !p.maybe && !check_panic {
          let kind = if exp.is_some() && spec.unwrap().checks.iter().any(|c| msg.contains(c.1.as_str())) { FK::Check } else { FK::Panic };
          return Err(vec![mk(self, kind, format!("committing a valid transaction panicked: {msg}"))]);
        }
        for w in &p.panics { self.feats.add(match w { Why::Ctx => "reject_Ctx", Why::Unfilled => "reject_Unfilled", Why::Loop => "reject_Loop", Why::RemoveMissing => "reject_RemoveMissing", Why::MutateMissing => "reject_MutateMissing", Why::UpdateMissing => "reject_UpdateMissing", Why::TypedClosure => "reject_TypedClosure", Why::BidiOccupied => "reject_BidiOccupied", Why::BidiChoice => "reject_BidiChoice", Why::LinkType => "reject_LinkType" }, 1); }
        let mut fs = vec![];
        if only_ctx {
          let real = self.snapshot(g)?;
          if real != self.g(g).nodes { fs.push(mk(self, FK::RejectChanged, format!("a rejected commit ({:?}) changed the graph: {}", p.panics, diff_msg(&real, &self.g(g).nodes)))); }
          fs.extend(self.after_change(g));
          if !self.log.borrow().is_empty() { fs.push(mk(self, FK::RejectChanged, "a rejected commit ran closures".into())); }
        } else {
          if check_panic { let _ = self.snapshot(g); } // learns the indices of bulk-inserted nodes
          if let (Some(e), true) = (&exp, check_panic) { fs.extend(self.check_calls(c, e, spec.unwrap(), &calls.borrow(), &p, Some(msg)).into_iter().map(|m| mk(self, FK::Check, m)).collect::<Vec<_>>()); self.feats.add("check_failed", 1); }
          self.reset(g);
        }
        return if fs.is_empty() { Ok(()) } else { Err(fs) };
      }
      Ok(()) => {
        let mut fs = vec![];
        if !p.panics.is_empty() {
          fs.push(mk(self, FK::NoPanic, format!("the commit should have been rejected ({:?}) but succeeded", p.panics)));
        }
        let real = match self.snapshot(g) { Ok(r) => r, Err(f) => { for mut x in f { x.ctx = fctx; x.f = p.f; fs.push(x) } return Err(fs) } };
        self.obs.push(Obs { op: here, what: format!("commit g{g}"), ok: true, nodes: Some(real.clone()) });
        if p.panics.is_empty() && real != p.nodes {
          let mut f = mk(self, FK::State, format!("after the commit: {}", diff_msg(&real, &p.nodes)));
          f.diff = self.diff(&real, &p.nodes);
          f.diff.dangling = real.values().any(|v| v.links.iter().any(|l| l.targets().iter().any(|y| mt.dec.contains(y) || mt.cancel.contains(y)))) || mt.dec.iter().any(|u| real.contains_key(u));
          fs.push(f);
        }
        let lts: Vec<usize> = p.panics.iter().filter(|w| **w != Why::LinkType).map(|_| 1).collect();
        if lts.is_empty() { if let Some(m) = asymmetric(&self.s, &real) { fs.push(mk(self, FK::Asym, m)); } }
        if p.panics.is_empty() {
          let mut got: Vec<(usize, NV)> = self.log.borrow().iter().map(|(k, v)| (*k, self.to_uid(c, v))).collect();
          let mut want = p.calls.clone();
          got.sort_by_key(|x| x.0);
          want.sort_by_key(|x| x.0);
          if got != want {
            let gi: Vec<usize> = got.iter().map(|x| x.0).collect();
            let wi: Vec<usize> = want.iter().map(|x| x.0).collect();
            let m = if gi != wi { format!("closures run: {gi:?}, recorded: {wi:?}") } else { let k = (0..gi.len()).find(|k| got[*k] != want[*k]).unwrap(); format!("closure {} received {:?}, expected {:?}", gi[k], got[k].1, want[k].1) };
            fs.push(mk(self, FK::Closure, m));
          }
          if let Some(e) = &exp {
            self.feats.add("check_calls", calls.borrow().len());
            self.feats.add("checked_commits", 1);
            if e.must_fail { fs.push(mk(self, FK::Check, "a failing check did not make commit_checked panic".into())); }
            fs.extend(self.check_calls(c, e, spec.unwrap(), &calls.borrow(), &p, None).into_iter().map(|m| mk(self, FK::Check, m)).collect::<Vec<_>>());
          }
        }
        let ac = self.after_change(g);
        for mut x in ac { x.ctx = fctx; x.f = p.f; fs.push(x) }
        if !fs.is_empty() { return Err(fs); }
        self.note(&p, &mt, probe);
        let mg = self.gs[g].as_mut().unwrap();
        mg.ever.extend(p.nodes.keys());
        mg.nodes = p.nodes;
        self.compare_others(Some(g))
      }
    }
  }
  fn note(&mut self, p: &Pred, mt: &MT, probe: bool) {
    let f = &mut self.feats;
    f.add("commits", 1);
    if probe { f.add("probe_commits", 1) }
    f.add("redirected_links", p.f.redirected);
    f.add("redirected_links_all_form", p.f.redirected_new);
    if p.f.chain > 1 && p.f.redirected > 0 { f.add("redirect_chains", 1) }
    f.add("set_members_merged_by_redirect", p.f.set_merge);
    f.add("vec_redirects", p.f.vec_redirect);
    f.add("links_erased_by_removal", p.f.erased);
    f.add("removed_nodes", p.f.removed);
    f.add("links_to_cancelled_nodes", p.f.cancelled_links);
    f.add("opposite_links_added", p.f.auto_add);
    f.add("opposite_links_removed", p.f.auto_del);
    f.add("opposite_links_kept", p.f.kept_opposite);
    f.add("closures", p.f.calls);
    f.add("links_added", p.f.added);
    f.add("links_removed", p.f.deleted);
    f.add("annotated_links_added", p.f.typed_added);
    f.add("nodes_inserted", p.f.inserted);
    if mt.n_merges > 0 { f.add("merge_commits", 1); f.add("merged_nodes", mt.merged.len()); }
    if p.f.calls > 1 { f.add("multi_closure_commits", 1) }
    let live = p.nodes.len();
    if live > f.get("max_nodes") { f.n.insert("max_nodes", live); }
  }

  fn check_calls(&self, c: usize, e: &Expect, spec: &CheckSpec, calls: &[CheckCall], p: &Pred, panic: Option<&str>) -> Vec<String> {
    let mut out = vec![];
    // bulk-inserted nodes whose index is only known once the commit returned: by what the checks saw
    let mut seen: BTreeMap<usize, Uid> = BTreeMap::new();
    for x in calls {
      seen.insert(x.x, x.from.uid as Uid);
      if let Some(to) = &x.to { seen.insert(x.y, to.uid as Uid); }
    }
    let u = |i: usize| if i == 0 { 0 } else { self.uid_of.get(&(c, i)).or(seen.get(&i)).copied().unwrap_or(UNKNOWN + i) };
    let mut failed_names = vec![];
    for (k, name, fail) in &spec.checks {
      let (must, may) = e.sets(*k);
      let got: BTreeSet<(Uid, Uid)> = calls.iter().filter(|x| x.kind == *k && x.name == *name).map(|x| (u(x.x), if *k == 0 { 0 } else { u(x.y) })).collect();
      let what = ["node", "link addition", "link removal"][*k as usize];
      if let Some(x) = got.iter().find(|x| !may.contains(x)) { out.push(format!("{what} check {name} was called on {x:?}, which did not change")); }
      let hit = fail.map_or(false, |f| got.contains(&if *k == 0 { (f.0, 0) } else { f }));
      if hit { failed_names.push(name.clone()) }
      if !hit { if let Some(x) = must.iter().find(|x| !got.contains(x)) { out.push(format!("{what} check {name} was not called on {x:?}")); } }
    }
    for x in calls {
      let from = x.from.map(u);
      if p.nodes.get(&u(x.x)) != Some(&from) { out.push(format!("check {} saw node #{} as {:?}, after the commit it is {:?}", x.name, u(x.x), from, p.nodes.get(&u(x.x)))); }
      if x.kind != 0 {
        let to = x.to.as_ref().map(|v| v.map(u));
        if p.nodes.get(&u(x.y)) != to.as_ref() { out.push(format!("check {} saw the target #{} as {:?}, after the commit it is {:?}", x.name, u(x.y), to, p.nodes.get(&u(x.y)))); }
      }
    }
    if let Some(m) = panic {
      if !failed_names.iter().any(|n| m.contains(n.as_str())) { out.push(format!("the panic {m:?} names none of the failed checks {failed_names:?}")); }
      if let Some(n) = spec.checks.iter().find(|n| !failed_names.contains(&n.1) && m.contains(n.1.as_str())) { out.push(format!("the panic {m:?} names the check {} which did not fail", n.1)); }
    }
    out
  }

  /// rename the indices of graph `g`, now in context `c`, by reading it; checks one-to-one and freshness
  fn relearn(&mut self, g: usize, c: usize, fresh: bool, kind: FK) -> Result<BTreeMap<Uid, NV>, Vec<Failure>> {
    let real = match self.w.read(g) { Ok(r) => r, Err(m) => return Err(vec![self.fail(kind, format!("iterating panicked: {m}"))]) };
    let mut seen = BTreeSet::new();
    let old: HashMap<Uid, (usize, usize)> = self.idx_of.clone();
    for (i, n) in &real {
      let u = n.uid as usize;
      if !seen.insert(u) { return Err(vec![self.fail(kind, format!("node #{u} appears twice"))]); }
      if *i == 0 { return Err(vec![self.fail(kind, format!("node #{u} got the empty index"))]); }
      if fresh {
        if !self.handed[c].insert(*i) { return Err([kind, FK::Index].iter().map(|k| self.fail(*k, format!("node #{u} got index {i}, which is not fresh in the new context"))).collect()); }
      } else {
        self.handed[c].insert(*i);
        if old.get(&u).map(|x| x.1) != Some(*i) { return Err(vec![self.fail(kind, format!("node #{u} had index {:?}, restored as {i}", old.get(&u)))]); }
      }
      self.uid_of.insert((c, *i), u);
      self.idx_of.insert(u, (c, *i));
    }
    // what still refers to the old indices refers to nothing from now on
    for u in seen {
      let Some((oc, oi)) = old.get(&u).copied() else { continue };
      if (oc, oi) == self.idx_of[&u] { continue }
      self.n_ghosts += 1;
      let ghost = GHOST + self.n_ghosts;
      self.uid_of.insert((oc, oi), ghost);
      self.idx_of.insert(ghost, (oc, oi));
      let f = |x: Uid| if x == u { ghost } else { x };
      for (k, m) in self.gs.iter_mut().enumerate() {
        if k == g { continue }
        if let Some(m) = m { if m.ctx == oc { for v in m.nodes.values_mut() { *v = v.map(f) } } }
      }
      for m in self.ts.iter_mut().flatten() {
        if m.ctx != oc { continue }
        for v in m.inc.values_mut() { *v = v.map(f) }
        for r in m.muts.iter_mut().chain(m.upds.iter_mut()) { r.uid = f(r.uid); for e in r.eff.iter_mut() { *e = e.map(&mut |x| f(x)) } }
        for (a, b) in m.red.iter_mut().chain(m.redall.iter_mut()) { *a = f(*a); *b = f(*b) }
        m.dec = m.dec.iter().map(|x| f(*x)).collect();
      }
    }
    self.snapshot(g)
  }
  fn drop_bound(&mut self, g: usize) {
    for t in 0..self.ts.len() { if self.ts[t].as_ref().map_or(false, |x| x.g == g) { self.ts[t] = None; let _ = self.w.drop_trans(t, 1); } }
  }
  fn switch(&mut self, g: usize, c: usize) -> Res {
    let here = self.trace.len() - 1;
    self.drop_bound(g);
    if let Some(w) = &self.watch { w.begin(self.fail(FK::Switch, "switch_context does not return".into())) }
    let r = self.w.switch(g, c);
    if let Some(w) = &self.watch { w.end() }
    if let Err(m) = r { return self.one(FK::Switch, format!("switch_context panicked: {m}")); }
    let mg = self.gs[g].as_mut().unwrap();
    mg.ctx = c;
    mg.ever = mg.nodes.keys().copied().collect();
    self.g_switch.insert(g);
    let real = self.relearn(g, c, true, FK::Switch)?;
    self.obs.push(Obs { op: here, what: "switch".into(), ok: true, nodes: Some(real.clone()) });
    let mut fs = vec![];
    if real != self.g(g).nodes { let mut f = self.fail(FK::Switch, format!("after switch_context: {}", diff_msg(&real, &self.g(g).nodes))); f.diff = self.diff(&real, &self.g(g).nodes); fs.push(f); }
    if let Some(m) = asymmetric(&self.s, &real) { fs.push(self.fail(FK::Asym, m)); }
    let mut ac = self.after_change(g);
    for x in ac.iter_mut() { x.ctx.after_switch = true }
    fs.extend(ac);
    self.feats.add("switches", 1);
    self.feats.add("switched_links", links_of(&real).len());
    if fs.is_empty() { self.compare_others(Some(g)) } else { Err(fs) }
  }
  fn round(&mut self, g: usize, form: usize, cut: Option<(Uid, usize, Uid)>) -> Res {
    let here = self.trace.len() - 1;
    self.drop_bound(g);
    let oldc = self.g(g).ctx;
    if let Some(w) = &self.watch { w.begin(self.fail(FK::Round, "the round trip does not return".into())) }
    let raw = cut.map(|(u, f, y)| (self.idx_of[&u].1, self.g(g).nodes[&u].var, f, self.idx_of[&y].1));
    let r = self.w.roundtrip(g, form, raw);
    if let Some(w) = &self.watch { w.end() }
    let c = match r { Ok(c) => c, Err(m) => return self.one(FK::Round, format!("serialization round trip panicked: {m}")) };
    self.ctx_class.push(self.ctx_class[oldc]);
    self.handed.push(BTreeSet::new());
    let mg = self.gs[g].as_mut().unwrap();
    mg.ctx = c;
    mg.ever = mg.nodes.keys().copied().collect();
    self.g_round.insert(g);
    let real = self.relearn(g, c, false, FK::Round)?;
    self.obs.push(Obs { op: here, what: "round trip".into(), ok: true, nodes: Some(real.clone()) });
    let mut fs = vec![];
    if cut.is_some() {
      // whatever is done about the missing side, the links have to be symmetric
      self.feats.add("cut_round_trips", 1);
      if real != self.g(g).nodes { self.feats.add("cut_links_dropped", 1); }
      self.gs[g].as_mut().unwrap().nodes = real.clone();
    }
    if real != self.g(g).nodes { let mut f = self.fail(FK::Round, format!("after the round trip: {}", diff_msg(&real, &self.g(g).nodes))); f.diff = self.diff(&real, &self.g(g).nodes); fs.push(f); }
    if let Some(m) = asymmetric(&self.s, &real) { fs.push(self.fail(FK::Asym, m)); }
    let mut ac = self.after_change(g);
    for x in ac.iter_mut() { x.ctx.after_round = true }
    fs.extend(ac);
    self.feats.add("round_trips", 1);
    self.feats.add("round_trip_nodes", real.len());
    self.feats.add("round_trip_links", links_of(&real).len());
    if fs.is_empty() { self.compare_others(Some(g)) } else { Err(fs) }
  }
}

/// Which calls commit_checked has to make (must) and may make (may)
pub struct Expect { sets: Vec<(BTreeSet<(Uid, Uid)>, BTreeSet<(Uid, Uid)>)>, pub must_fail: bool, pub may_fail: bool }
impl Expect {
  pub fn new(p: &Pred, _mt: &MT, g: &MG, spec: &CheckSpec) -> Expect {
    let mut node = (BTreeSet::new(), BTreeSet::new());
    for (u, v) in &p.nodes {
      if g.nodes.get(u) != Some(v) { node.0.insert((*u, 0)); node.1.insert((*u, 0)); }
      if p.touched.contains(u) { node.1.insert((*u, 0)); }
    }
    let mut add = (BTreeSet::new(), BTreeSet::new());
    let mut rem = (BTreeSet::new(), BTreeSet::new());
    let retyped = |u: &Uid| matches!((g.nodes.get(u), p.nodes.get(u)), (Some(a), Some(b)) if a.var != b.var);
    for (k, n) in &p.after {
      let b = p.before.get(k).copied().unwrap_or(0);
      if b == 0 && !retyped(&k.0) { add.0.insert((k.0, k.1)); }
      if *n > b { add.1.insert((k.0, k.1)); }
    }
    for (k, n) in &p.before {
      if !p.nodes.contains_key(&k.0) { continue }
      let a = p.after.get(k).copied().unwrap_or(0);
      if a == 0 && !retyped(&k.0) { rem.0.insert((k.0, k.1)); }
      if a < *n { rem.1.insert((k.0, k.1)); }
    }
    let sets = vec![node, add, rem];
    let (mut must_fail, mut may_fail) = (false, false);
    for (k, _, fail) in &spec.checks {
      if let Some(f) = fail {
        let key = if *k == 0 { (f.0, 0) } else { *f };
        must_fail |= sets[*k as usize].0.contains(&key);
        may_fail |= sets[*k as usize].1.contains(&key);
      }
    }
    Expect { sets, must_fail, may_fail }
  }
  pub fn sets(&self, k: u8) -> (&BTreeSet<(Uid, Uid)>, &BTreeSet<(Uid, Uid)>) { let s = &self.sets[k as usize]; (&s.0, &s.1) }
  pub fn pick(&self, k: u8, r: usize) -> Option<(Uid, Uid)> { let s = &self.sets[k as usize].0; if s.is_empty() { None } else { s.iter().nth(r % s.len()).copied() } }
}
