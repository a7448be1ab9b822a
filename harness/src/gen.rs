//! Decodes generated raw operations into concrete ones, steered by the model, and runs them.
use crate::core::*;
use crate::exec::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum K {
  Insert, Extend, Alloc, AllocUntyped, Fill, Mutate, Update, Redirect, RedirectAll, Chain, Remove, Merge, Commit, CommitChecked, GiveUp, NewTrans, NewGraph, NewCtx, Switch, Round, IsEmpty, Integrity,
  BadCommitCtx, BadMerge, BadUnfilled, BadFill, BadMissing, BadLoop, BadTyped, Consume, Probe, Star,
}

/// One generated operation: its kind and a stream of numbers its operands are read from
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct RawOp { pub k: K, pub r: Vec<u16> }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case { pub schema: usize, pub ops: Vec<RawOp> }

#[derive(Clone, Debug)]
pub struct Profile {
  pub fams: &'static [(char, u32)],
  pub ops: &'static [(u32, K)],
  pub len: (usize, usize),
  pub flags: u32,
  /// links may point to removed nodes, nodes of other graphs and unfilled nodes of other transactions (plain schemas only)
  pub external: bool,
  /// closures may replace a node by one of another type (plain schemas only)
  pub retype: bool,
  /// percentage of operations recorded only if the transaction could still be committed
  pub greedy: u16,
  /// percentage of transactions the model expects to be rejected that are committed nevertheless
  pub reject: u16,
  pub max_trans: usize,
  /// chance (percent) that a case tears its graphs down node by node at the end
  pub probe: u16,
  pub commit_all: bool,
}

pub fn schema_pool(descs: &[&'static SchemaDesc], p: &Profile) -> Vec<usize> {
  let mut out = vec![];
  for (f, w) in p.fams {
    let v: Vec<usize> = (0..descs.len()).filter(|i| descs[*i].fam == *f).collect();
    if v.is_empty() { continue }
    // weight families, not schemas
    let n = (240 * *w as usize / v.len()).max(1);
    for i in v { for _ in 0..n { out.push(i) } }
  }
  out
}
pub fn strategy(descs: &[&'static SchemaDesc], p: &Profile) -> BoxedStrategy<Case> {
  let pool = schema_pool(descs, p);
  let kinds: Vec<(u32, BoxedStrategy<K>)> = p.ops.iter().map(|(w, k)| (*w, Just(*k).boxed())).collect();
  let op = (proptest::strategy::Union::new_weighted(kinds), proptest::collection::vec(any::<u16>(), 0..14)).prop_map(|(k, r)| RawOp { k, r });
  (proptest::sample::select(pool), proptest::collection::vec(op, p.len.0..p.len.1)).prop_map(|(schema, ops)| Case { schema, ops }).boxed()
}

struct S<'a> { r: &'a [u16], i: usize }
impl<'a> S<'a> {
  fn n(&mut self) -> usize { let x = self.r.get(self.i).copied().unwrap_or(0); self.i += 1; x as usize }
  fn lt(&mut self, m: usize) -> usize { let x = self.n(); if m == 0 { 0 } else { x % m } }
  /// true with about p percent, false when the stream is exhausted
  fn pct(&mut self, p: u16) -> bool { let x = self.n(); 100 - (x % 100) <= p as usize }
}

pub struct Gen<'p> { pub e: Exec, pub p: &'p Profile, next_uid: usize, plain: bool, checks: usize, pub interleaved: usize }

type Res = Result<(), Vec<Failure>>;

impl<'p> Gen<'p> {
  pub fn new(w: Box<dyn World>, p: &'p Profile, dbg: bool) -> Gen<'p> {
    let e = Exec::new(w, dbg, p.flags);
    let plain = e.s.opp.is_empty() && e.s.ann.is_empty();
    Gen { e, p, next_uid: 1, plain, checks: 0, interleaved: 0 }
  }
  fn uid(&mut self) -> usize { self.next_uid += 1; self.next_uid - 1 }
  fn graphs(&self) -> Vec<usize> { (0..self.e.gs.len()).filter(|g| self.e.gs[*g].is_some()).collect() }
  pub fn open(&self) -> Vec<usize> { (0..self.e.ts.len()).filter(|t| self.e.ts[*t].as_ref().map_or(false, |t| self.e.gs[t.g].is_some())).collect() }

  fn some_graph(&mut self, s: &mut S) -> Result<usize, Vec<Failure>> {
    if self.e.ctx_class.is_empty() { self.e.step(&COp::NewCtx { form: 0 })?; }
    let gs = self.graphs();
    if gs.is_empty() { let c = self.e.ctx_class.len() - 1; self.e.step(&COp::NewGraph { c })?; return Ok(*self.graphs().last().unwrap()); }
    Ok(gs[s.lt(gs.len())])
  }
  fn some_trans(&mut self, s: &mut S) -> Result<usize, Vec<Failure>> {
    let o = self.open();
    if o.is_empty() { let g = self.some_graph(s)?; self.e.step(&COp::NewTrans { g })?; return Ok(self.e.ts.len() - 1); }
    // mostly the latest one
    if o.len() > 1 && self.p.max_trans > 1 { let k = s.lt(o.len()); if k != 0 { self.interleaved += 1 } return Ok(o[o.len() - 1 - k]) }
    Ok(*o.last().unwrap())
  }

  /// nodes a link of transaction `t` may point to
  fn targets(&self, t: usize) -> Vec<Uid> {
    let mt = self.e.t(t);
    let mut v: Vec<Uid> = self.e.g(mt.g).nodes.keys().copied().collect();
    v.extend(mt.inc.keys().filter(|u| !mt.extended.contains(u)));
    v.extend(mt.alloc.keys());
    v
  }
  fn var_of(&self, t: usize, u: Uid) -> Option<usize> {
    let mt = self.e.t(t);
    mt.inc.get(&u).map(|v| v.var).or_else(|| self.e.g(mt.g).nodes.get(&u).map(|v| v.var)).or_else(|| mt.alloc.get(&u).and_then(|x| *x))
  }
  fn target(&self, t: usize, l: LinkId, s: &mut S) -> Uid {
    let c = s.n();
    if self.p.external && self.plain && c % 16 == 15 {
      // something of the same context that is not (or not yet) in this graph
      let ctx = self.e.t(t).ctx;
      let mut v: Vec<Uid> = self.e.idx_of.iter().filter(|(_, (c, _))| *c == ctx).map(|(u, _)| *u).collect();
      v.sort();
      if !v.is_empty() { return v[s.lt(v.len())]; }
    }
    let mut v = self.targets(t);
    if v.is_empty() { return 0 }
    if c % 8 != 0 {
      // mostly well-typed, and often a node with an opposite field
      let w: Vec<Uid> = v.iter().copied().filter(|u| self.var_of(t, *u).map_or(true, |x| self.e.s.allowed(l, x))).collect();
      if !w.is_empty() { v = w } else if c % 8 < 6 { return 0 }
      if c % 8 < 5 {
        let w: Vec<Uid> = v.iter().copied().filter(|u| self.var_of(t, *u).map_or(false, |x| !self.e.s.opps(l, x).is_empty())).collect();
        if !w.is_empty() { v = w }
      }
    }
    v[s.lt(v.len())]
  }
  fn gen_nv(&self, t: usize, var: usize, uid: usize, s: &mut S) -> NV {
    let d = self.e.s.d;
    let mut n = NV::blank(d, var, uid as u64);
    for x in n.data.iter_mut() { *x = (s.lt(200)) as u64 }
    for (f, l) in d.variants[var].links.iter().enumerate() {
      let c = s.n();
      match &mut n.links[f] {
        LV::D(x) => if c % 5 > 1 { *x = self.target(t, (var, f), s) },
        LV::V(v) => { let k = if c % 61 == 60 { 30 } else { [0, 1, 2, 3, 2][c % 5] }; for _ in 0..k { let u = self.target(t, (var, f), s); v.push(if s.n() % 9 == 8 { 0 } else { u }) } }
        LV::S(v) => { let k = [0, 1, 2, 3, 1][c % 5]; for _ in 0..k { let u = self.target(t, (var, f), s); if s.n() % 24 == 23 { v.insert(0); } else if u != 0 { v.insert(u); } } }
      }
    }
    n
  }
  fn strip(&self, mut n: NV) -> NV { for (f, l) in self.e.s.d.variants[n.var].links.iter().enumerate() { n.links[f] = LV::empty(l.kind) } n }

  fn eff(&self, t: usize, u: Uid, s: &mut S, var_hint: Option<usize>, typed: bool) -> Vec<Eff> {
    let n = 1 + [0, 0, 0, 1, 2][s.lt(5)];
    let var = var_hint.unwrap_or(0);
    let nl = self.e.s.d.variants[var].links.len();
    (0..n).map(|_| {
      let k = s.lt(20);
      let f = s.n();
      let l = (var, if nl == 0 { 0 } else { f % nl });
      match k {
        0..=7 => Eff::Link(f, self.target(t, l, s)),
        8..=9 => Eff::Slot(f, s.n() % 50, self.target(t, l, s)),
        10..=12 => {
          let p = s.n() % 50;
          let cur = self.e.t(t).inc.get(&u).or_else(|| self.e.g(self.e.t(t).g).nodes.get(&u)).and_then(|v| v.links.get(l.1));
          match cur { Some(l @ LV::S(_)) => { let m = l.targets(); if m.is_empty() { Eff::Nop } else { Eff::Unlink(f, m[p % m.len()]) } } _ => Eff::Drop(f, p) }
        }
        13 => Eff::Dup(f, s.n() % 50),
        14 => Eff::Swap(f, s.n() % 50, s.n() % 50),
        15 => Eff::Clear(f),
        16 => Eff::Nop,
        17 => {
          let nv = if self.p.retype && self.plain && !typed { s.lt(self.e.s.d.variants.len()) } else { var };
          Eff::Replace(Box::new(self.gen_nv(t, nv, 0, s)))
        }
        _ => Eff::Data(f, s.lt(200) as u64),
      }
    }).collect()
  }

  /// would the transaction, with its unfilled nodes left out, be accepted now?
  fn valid(&self, mt: &MT) -> bool {
    let mut m = mt.clone();
    m.alloc.clear();
    let g = self.e.g(m.g);
    predict(&self.e.s, g, &m, true).panics.is_empty()
  }
  /// record `op` unless (greedy) it would make the transaction unacceptable
  fn record(&mut self, t: usize, op: COp, greedy: bool, f: impl FnOnce(&mut MT)) -> Res {
    if greedy && !self.plain {
      let mut m = self.e.t(t).clone();
      if self.valid(&m) { f(&mut m); if !self.valid(&m) { return Ok(()) } }
    }
    self.e.step(&op)
  }

  fn fill_all(&mut self, t: usize, s: &mut S) -> Res {
    while let Some((u, ty)) = self.e.t(t).alloc.iter().next().map(|(u, v)| (*u, *v)) { self.fill_one(t, u, ty, s)?; }
    Ok(())
  }
  fn fill_one(&mut self, t: usize, u: Uid, ty: Option<usize>, s: &mut S) -> Res {
    let var = ty.unwrap_or_else(|| s.lt(self.e.s.d.variants.len()));
    let mut v = self.gen_nv(t, var, u, s);
    if !self.plain {
      let mut m = self.e.t(t).clone();
      m.inc.insert(u, v.clone());
      m.alloc.remove(&u);
      if !self.valid(&m) { v = self.strip(v) }
    }
    self.e.step(&COp::Fill { t, v, untyped: ty.is_none() })
  }

  fn do_commit(&mut self, t: usize, s: &mut S, checked: bool, probe: bool) -> Res {
    self.fill_all(t, s)?;
    let g = self.e.t(t).g;
    let p = predict(&self.e.s, self.e.g(g), self.e.t(t), self.e.dbg);
    if (!p.panics.is_empty() || p.maybe) && !s.pct(self.p.reject) {
      return self.e.step(&COp::GiveUp { t, form: s.n() });
    }
    if checked {
      let e0 = Expect::new(&p, self.e.t(t), self.e.g(g), &CheckSpec { checks: vec![], decoys: vec![] });
      let mut spec = CheckSpec { checks: vec![], decoys: vec![] };
      let n = 1 + s.lt(5);
      for _ in 0..n {
        self.checks += 1;
        let k = s.lt(3) as u8;
        let name = format!("zq{}_{}", self.checks, ["node", "add", "rem"][k as usize]);
        let fail = if s.pct(30) {
          if s.pct(70) { e0.pick(k, s.n()) } else {
            let v: Vec<Uid> = p.nodes.keys().copied().collect();
            if v.is_empty() { None } else { Some((v[s.lt(v.len())], v[s.lt(v.len())])) }
          }
        } else { None };
        if s.pct(15) { spec.decoys.push((k, name.clone())) }
        spec.checks.push((k, name, fail));
      }
      if s.pct(20) { spec.decoys.push((s.lt(3) as u8, "zzdecoy".into())) }
      return self.e.step(&COp::CommitChecked { t, g, spec });
    }
    self.e.step(&COp::Commit { t, g, probe })
  }

  fn closed(&self, g: usize) -> bool { self.e.closed(g) }

  pub fn op(&mut self, o: &RawOp) -> Res {
    let mut st = S { r: &o.r, i: 0 };
    let s = &mut st;
    let greedy = { let x = s.n(); (x % 100) < self.p.greedy as usize };
    match o.k {
      K::NewCtx => { if self.e.ctx_class.len() < 6 { self.e.step(&COp::NewCtx { form: s.n() })?; } }
      K::NewGraph => {
        if self.e.ctx_class.is_empty() { self.e.step(&COp::NewCtx { form: 0 })?; }
        if self.graphs().len() < 5 { let c = s.lt(self.e.ctx_class.len()); self.e.step(&COp::NewGraph { c })? }
      }
      K::NewTrans => { if self.open().len() < self.p.max_trans { let g = self.some_graph(s)?; self.e.step(&COp::NewTrans { g })? } }
      K::Insert => {
        let t = self.some_trans(s)?;
        let var = s.lt(self.e.s.d.variants.len());
        let u = self.uid();
        let v = self.gen_nv(t, var, u, s);
        let v2 = v.clone();
        self.record(t, COp::Insert { t, v }, greedy, |m| { m.inc.insert(u, v2); })?;
      }
      K::Extend => {
        let t = self.some_trans(s)?;
        let n = match s.lt(40) { 39 => 40, 38 => if self.plain { 150 } else { 30 }, k => k % 5 };
        let mut vs = vec![];
        for _ in 0..n {
          let u = self.uid();
          let var = s.lt(self.e.s.d.variants.len());
          let mut v = self.gen_nv(t, var, u, s);
          if greedy && !self.plain {
            let mut m = self.e.t(t).clone();
            for x in &vs { let x: &NV = x; m.inc.insert(x.uid as usize, x.clone()); }
            m.inc.insert(u, v.clone());
            if !self.valid(&m) { v = self.strip(v) }
          }
          vs.push(v);
        }
        self.e.step(&COp::Extend { t, v: vs })?;
      }
      K::Star => {
        // many nodes around one: large sets, long vectors; or many nodes linking to one
        let t = self.some_trans(s)?;
        let many = s.n() % 16 == 15;
        let n = 2 + s.lt(if many { 160 } else { 40 });
        let d = self.e.s.d;
        if s.n() % 3 == 2 {
          let n = if !many && s.n() % 4 == 3 { 70 + s.lt(10) } else { n };
          let hub = self.uid();
          let hvar = s.lt(d.variants.len());
          let hv = NV::blank(d, hvar, hub as u64);
          let all: Vec<(usize, usize)> = (0..d.variants.len()).flat_map(|v| (0..d.variants[v].links.len()).map(move |f| (v, f))).collect();
          let spoke = |u: Uid, (sv, sf): (usize, usize)| {
            let mut v = NV::blank(d, sv, u as u64);
            match &mut v.links[sf] { LV::D(x) => *x = hub, LV::V(x) => x.push(hub), LV::S(x) => { x.insert(hub); } }
            v
          };
          // the fields that may link to the hub at all
          let mut can = all;
          if !self.plain {
            let mut m = self.e.t(t).clone();
            if self.valid(&m) {
              m.inc.insert(hub, hv.clone());
              let u = hub + 1;
              can.retain(|c| { let mut m = m.clone(); m.inc.insert(u, spoke(u, *c)); self.valid(&m) });
            }
          }
          self.e.step(&COp::Insert { t, v: hv })?;
          if can.is_empty() { return Ok(()) }
          let mixed = s.n() % 3 == 2;
          let mut c = can[s.lt(can.len())];
          let mut vs = vec![];
          for _ in 0..n {
            if mixed { c = can[s.lt(can.len())] }
            let u = self.uid();
            let v = spoke(u, c);
            vs.push(v);
          }
          let v2 = vs.clone();
          return self.record(t, COp::Extend { t, v: vs }, true, |m| for x in &v2 { m.inc.insert(x.uid as usize, x.clone()); });
        }
        let var = s.lt(d.variants.len());
        let mut us = vec![];
        for _ in 0..n { let u = self.uid(); us.push(u); self.e.step(&COp::Insert { t, v: NV::blank(d, var, u as u64) })?; }
        let cvar = s.lt(d.variants.len());
        let u = self.uid();
        let mut v = NV::blank(d, cvar, u as u64);
        for (f, l) in v.links.iter_mut().enumerate() {
          match l { LV::D(_) => {} LV::V(x) => { for u in &us { x.push(*u) } } LV::S(x) => { if s.n() % 2 == 0 { x.extend(us.iter().copied()) } } }
          let _ = f;
        }
        let v2 = v.clone();
        self.record(t, COp::Insert { t, v }, true, |m| { m.inc.insert(u, v2); })?;
      }
      K::Alloc => { let t = self.some_trans(s)?; let var = s.lt(self.e.s.d.variants.len()); let u = self.uid(); self.e.step(&COp::Alloc { t, u, var, form: s.n() })?; }
      K::AllocUntyped => { let t = self.some_trans(s)?; let u = self.uid(); self.e.step(&COp::AllocUntyped { t, u })?; }
      K::Fill => {
        let t = self.some_trans(s)?;
        let v: Vec<(Uid, Option<usize>)> = self.e.t(t).alloc.iter().map(|(u, v)| (*u, *v)).collect();
        if v.is_empty() { let u = self.uid(); let var = s.lt(self.e.s.d.variants.len()); return self.e.step(&COp::Alloc { t, u, var, form: s.n() }); }
        let (u, ty) = v[s.lt(v.len())];
        self.fill_one(t, u, ty, s)?;
      }
      K::Mutate | K::Update => {
        let t = self.some_trans(s)?;
        let upd = o.k == K::Update;
        let v = self.targets(t);
        if v.is_empty() { return Ok(()) }
        let u = v[s.lt(v.len())];
        let hint = self.var_of(t, u);
        let may_retype = self.p.retype && self.plain;
        // a typed closure is only safe to record where the type cannot change in between
        let mut guard = if s.n() % 2 == 0 { hint } else { None };
        let fixed = !may_retype || self.e.t(t).inc.contains_key(&u);
        if !fixed && s.n() % 4 != 0 { guard = None }
        if self.e.t(t).alloc.get(&u) == Some(&None) { guard = None }
        let eff = self.eff(t, u, s, hint, guard.is_some());
        let form = s.n();
        let (e2, u2) = (eff.clone(), u);
        let op = COp::Change { t, u, upd, guard, form, eff };
        self.record(t, op, greedy, move |m| {
          if let Some(v) = m.inc.get(&u2).cloned() { m.inc.insert(u2, apply(&e2, v)); }
          else if m.alloc.contains_key(&u2) {}
          else { let r = Rec { uid: u2, cid: 0, guard: None, eff: e2 }; if upd { m.upds.push(r) } else { m.muts.push(r) } }
        })?;
      }
      K::Redirect | K::RedirectAll => {
        let t = self.some_trans(s)?;
        let all = o.k == K::RedirectAll;
        let v = self.targets(t);
        if v.len() < 2 { return Ok(()) }
        let linked: Vec<Uid> = v.iter().copied().filter(|u| self.e.g(self.e.t(t).g).nodes.values().any(|n| n.links.iter().any(|l| l.contains(*u)))).collect();
        let old = if !linked.is_empty() && s.n() % 4 != 3 { linked[s.lt(linked.len())] } else { v[s.lt(v.len())] };
        let vold = self.var_of(t, old);
        let mut w: Vec<Uid> = v.iter().copied().filter(|u| *u != old).collect();
        if !self.plain { let x: Vec<Uid> = w.iter().copied().filter(|u| self.var_of(t, *u) == vold).collect(); if !x.is_empty() && s.n() % 4 != 3 { w = x } }
        let new = w[s.lt(w.len())];
        self.rec_redirect(t, old, new, all, greedy)?;
      }
      K::Chain => {
        let t = self.some_trans(s)?;
        let all = s.n() % 2 == 1;
        let mut v = self.targets(t);
        let long = s.n() % 8 == 7;
        let n = 2 + s.lt(if long { 30 } else { 5 });
        if v.len() < 2 { return Ok(()) }
        let mut path = vec![];
        while path.len() <= n && !v.is_empty() { let k = s.lt(v.len()); path.push(v.swap_remove(k)); }
        let mut steps: Vec<(Uid, Uid)> = path.windows(2).map(|w| (w[0], w[1])).collect();
        // recorded in some other order
        let mut out = vec![];
        while !steps.is_empty() { let k = s.lt(steps.len()); out.push(steps.remove(k)); }
        for (a, b) in out { self.rec_redirect(t, a, b, all, greedy)?; }
      }
      K::Remove => {
        let t = self.some_trans(s)?;
        let v = self.targets(t);
        if v.is_empty() { return Ok(()) }
        let u = v[s.lt(v.len())];
        // removing an unfilled or new node after recording changes for it would make those changes malformed
        let mt = self.e.t(t);
        if mt.own(u) && (mt.muts.iter().chain(mt.upds.iter()).any(|r| r.uid == u)) { return Ok(()) }
        self.record(t, COp::Remove { t, u }, false, |_| {})?;
      }
      K::Merge => {
        let t = self.some_trans(s)?;
        let (c, g) = (self.e.t(t).ctx, self.e.t(t).g);
        let v: Vec<usize> = self.graphs().into_iter().filter(|h| *h != g && self.e.g(*h).ctx == c).collect();
        if v.is_empty() {
          // make a graph of this context to merge later
          if self.graphs().len() < 5 { self.e.step(&COp::NewGraph { c })?; let h = *self.graphs().last().unwrap(); if self.open().len() < self.p.max_trans + 1 { self.e.step(&COp::NewTrans { g: h })?; } }
          return Ok(());
        }
        let h = v[s.lt(v.len())];
        if !self.plain && !self.closed(h) { return Ok(()) }
        if s.pct(35) { self.early(t, h, s)?; }
        self.e.step(&COp::Merge { t, g: h })?;
      }
      K::Commit => { let o = self.open(); if o.is_empty() { return Ok(()) } let t = self.some_trans(s)?; self.do_commit(t, s, false, false)?; }
      K::CommitChecked => { let o = self.open(); if o.is_empty() { return Ok(()) } let t = self.some_trans(s)?; self.do_commit(t, s, true, false)?; }
      K::GiveUp => { let o = self.open(); if o.is_empty() { return Ok(()) } let t = self.some_trans(s)?; self.e.step(&COp::GiveUp { t, form: s.n() })?; }
      K::IsEmpty => { let t = self.some_trans(s)?; self.e.step(&COp::IsEmpty { t })?; }
      K::Integrity => { let g = self.some_graph(s)?; self.e.step(&COp::Integrity { g })?; }
      K::Switch => {
        let g = self.some_graph(s)?;
        if !self.closed(g) { return Ok(()) }
        // into a fresh context, an existing one, or (rarely) its own
        let k = s.n();
        let cur = self.e.g(g).ctx;
        let c = if k % 3 == 0 || self.e.ctx_class.len() < 2 { if self.e.ctx_class.len() < 8 { self.e.step(&COp::NewCtx { form: s.n() })?; self.e.ctx_class.len() - 1 } else { cur } } else { s.lt(self.e.ctx_class.len()) };
        self.e.step(&COp::Switch { g, c })?;
      }
      K::Round => {
        let g = self.some_graph(s)?;
        if !self.closed(g) || self.e.ctx_class.len() > 8 { return Ok(()) }
        let form = s.n();
        let mut cut = None;
        if self.e.flags & C_CUT != 0 && form % 4 != 3 {
          let m = self.e.g(g);
          let all: Vec<(usize, usize, usize)> = m.nodes.iter().flat_map(|(u, v)| v.links.iter().enumerate().flat_map(move |(f, l)| l.targets().into_iter().map(move |y| (*u, f, y)))).filter(|(u, f, _)| self.e.s.pair_field((m.nodes[u].var, *f))).collect();
          for _ in 0..4 { if all.is_empty() { break } let (u, f, y) = all[s.lt(all.len())]; if self.e.cuttable(g, u, f, y) { cut = Some((u, f, y)); break } }
        }
        self.e.step(&COp::Round { g, form, cut })?;
      }
      K::Consume => { let g = self.some_graph(s)?; let n = self.e.g(g).nodes.len(); let take = if s.n() % 2 == 0 { None } else { Some(s.lt(n + 1)) }; self.e.step(&COp::ConsumeGraph { g, take })?; }
      K::Probe => { let g = self.some_graph(s)?; self.probe(g, s, 3)?; }
      K::BadCommitCtx => {
        let t = self.some_trans(s)?;
        let cl = self.e.ctx_class[self.e.t(t).ctx];
        let mut v: Vec<usize> = self.graphs().into_iter().filter(|g| self.e.ctx_class[self.e.g(*g).ctx] != cl).collect();
        if v.is_empty() { self.e.step(&COp::NewCtx { form: s.n() })?; let c = self.e.ctx_class.len() - 1; self.e.step(&COp::NewGraph { c })?; v = vec![self.e.gs.len() - 1]; }
        let g = v[s.lt(v.len())];
        if s.n() % 2 == 0 { self.fill_all(t, s)?; }
        self.e.step(&COp::BadCommit { t, g })?;
      }
      K::BadMerge => {
        let t = self.some_trans(s)?;
        let cl = self.e.ctx_class[self.e.t(t).ctx];
        let v: Vec<usize> = self.graphs().into_iter().filter(|g| self.e.ctx_class[self.e.g(*g).ctx] != cl).collect();
        if v.is_empty() { self.e.step(&COp::NewCtx { form: s.n() })?; let c = self.e.ctx_class.len() - 1; self.e.step(&COp::NewGraph { c })?; return Ok(()) }
        let g = v[s.lt(v.len())];
        self.e.step(&COp::BadMerge { t, g })?;
      }
      K::BadUnfilled => {
        let t = self.some_trans(s)?;
        let keep = s.n() % 3;
        if keep != 0 { self.fill_all(t, s)?; }
        if self.e.t(t).alloc.is_empty() {
          let u = self.uid();
          if s.n() % 2 == 0 { let var = s.lt(self.e.s.d.variants.len()); self.e.step(&COp::Alloc { t, u, var, form: s.n() })? } else { self.e.step(&COp::AllocUntyped { t, u })? }
        }
        let g = self.e.t(t).g;
        self.e.step(&COp::BadCommit { t, g })?;
      }
      K::BadFill => self.bad_fill(s)?,
      K::BadMissing => {
        let t = self.some_trans(s)?;
        // something that is not in the graph the transaction is for, nor made by it
        let (c, g) = (self.e.t(t).ctx, self.e.t(t).g);
        let mut v: Vec<Uid> = self.e.idx_of.iter().filter(|(u, (k, _))| *k == c && !self.e.g(g).nodes.contains_key(u) && !self.e.t(t).own(**u)).map(|(u, _)| *u).collect();
        v.sort();
        // also the empty index, and one that was never handed out
        let k = s.n() % 8;
        let u = if k == 7 || v.is_empty() { 0 } else if k == 6 { NOBODY + s.lt(50) } else { v[s.lt(v.len())] };
        match s.lt(3) {
          0 => self.e.step(&COp::Remove { t, u })?,
          k => self.e.step(&COp::Change { t, u, upd: k == 1, guard: None, form: s.n(), eff: vec![Eff::Nop] })?,
        }
        self.fill_all(t, s)?;
        if predict(&self.e.s, self.e.g(g), self.e.t(t), self.e.dbg).panics.is_empty() { return Ok(()) }
        self.e.step(&COp::BadCommit { t, g })?;
      }
      K::BadLoop => {
        let t = self.some_trans(s)?;
        let all = s.n() % 2 == 1;
        let mut v = self.targets(t);
        let n = 1 + s.lt(4);
        let used: BTreeSet<Uid> = if all { &self.e.t(t).redall } else { &self.e.t(t).red }.iter().map(|x| x.0).collect();
        v.retain(|u| !used.contains(u));
        if v.len() < n { return Ok(()) }
        let mut path = vec![];
        while path.len() < n { let k = s.lt(v.len()); path.push(v.swap_remove(k)); }
        let mut steps: Vec<(Uid, Uid)> = (0..n).map(|i| (path[i], path[(i + 1) % n])).collect();
        if s.n() % 2 == 0 && !v.is_empty() { let k = s.lt(v.len()); steps.push((v[k], path[0])); }
        while !steps.is_empty() { let k = s.lt(steps.len()); let (old, new) = steps.remove(k); self.e.step(&COp::Redirect { t, old, new, all })?; }
        self.fill_all(t, s)?;
        let g = self.e.t(t).g;
        self.e.step(&COp::BadCommit { t, g })?;
      }
      K::BadTyped => {
        let t = self.some_trans(s)?;
        let n = self.e.s.d.variants.len();
        if n < 2 { return Ok(()) }
        let v: Vec<Uid> = self.targets(t).into_iter().filter(|u| self.var_of(t, *u).is_some() && !self.e.t(t).alloc.contains_key(u)).collect();
        if v.is_empty() { return Ok(()) }
        let u = v[s.lt(v.len())];
        let var = (self.var_of(t, u).unwrap() + 1 + s.lt(n - 1)) % n;
        let here = self.e.t(t).inc.contains_key(&u);
        // leaves the content alone: only the type matters here
        self.e.step(&COp::Change { t, u, upd: s.n() % 2 == 0, guard: Some(var), form: s.n(), eff: vec![Eff::Nop] })?;
        if here { return Ok(()) }
        self.fill_all(t, s)?;
        let g = self.e.t(t).g;
        if predict(&self.e.s, self.e.g(g), self.e.t(t), self.e.dbg).panics.is_empty() { return Ok(()) }
        self.e.step(&COp::BadCommit { t, g })?;
      }
    }
    Ok(())
  }
  /// operations on nodes of graph `h`, recorded before `h` is merged
  fn early(&mut self, t: usize, h: usize, s: &mut S) -> Res {
    for _ in 0..1 + s.lt(3) {
      let v: Vec<(Uid, usize)> = self.e.g(h).nodes.iter().map(|(u, n)| (*u, n.var)).collect();
      if v.is_empty() { return Ok(()) }
      let (u, var) = v[s.lt(v.len())];
      let k = s.lt(5);
      let mut m = self.e.t(t).clone();
      for (x, n) in &self.e.g(h).nodes { m.inc.insert(*x, n.clone()); }
      let was = self.plain || self.valid(&m);
      let op = match k {
        0 | 1 => { m.dec.insert(u); COp::Remove { t, u } }
        2 | 3 => {
          let upd = k == 2;
          let eff = self.eff(t, u, s, Some(var), false);
          let r = Rec { uid: u, cid: 0, guard: None, eff: eff.clone() };
          if upd { m.upds.push(r) } else { m.muts.push(r) }
          COp::Change { t, u, upd, guard: None, form: s.n(), eff }
        }
        _ => {
          let w = self.targets(t);
          if w.is_empty() { continue }
          let o = w[s.lt(w.len())];
          let (old, new) = if s.n() % 2 == 0 { (u, o) } else { (o, u) };
          let l = &mut m.redall;
          if l.iter().any(|x| x.0 == old && x.1 != new) { continue }
          l.push((old, new));
          if roots(l).is_none() { continue }
          COp::Redirect { t, old, new, all: true }
        }
      };
      if !self.plain && was && !self.valid(&m) { continue }
      self.e.step(&op)?;
      self.e.feats.add("recorded_before_merge", 1);
    }
    Ok(())
  }
  fn rec_redirect(&mut self, t: usize, old: Uid, new: Uid, all: bool, greedy: bool) -> Res {
    if old == new { return Ok(()) }
    let m = self.e.t(t);
    let l = if all { &m.redall } else { &m.red };
    // one target per old node; no cycle here
    if l.iter().any(|x| x.0 == old && x.1 != new) { return Ok(()) }
    let mut l2 = l.clone();
    l2.push((old, new));
    if roots(&l2).is_none() { return Ok(()) }
    self.record(t, COp::Redirect { t, old, new, all }, greedy, |m| if all { m.redall.push((old, new)) } else { m.red.push((old, new)) })
  }
  fn bad_fill(&mut self, s: &mut S) -> Res {
    let t = self.some_trans(s)?;
    let n = self.e.s.d.variants.len();
    let c = self.e.t(t).ctx;
    let typed: Vec<(Uid, usize)> = self.e.t(t).alloc.iter().filter_map(|(u, v)| v.map(|v| (*u, v))).collect();
    let filled: Vec<(Uid, usize)> = self.e.t(t).inc.iter().filter(|(u, _)| !self.e.t(t).extended.contains(u) && self.e.idx_of.contains_key(u)).map(|(u, v)| (*u, v.var)).collect();
    match s.lt(5) {
      0 if n > 1 && !typed.is_empty() => {
        let (u, var) = typed[s.lt(typed.len())];
        let other = (var + 1 + s.lt(n - 1)) % n;
        let v = NV::blank(self.e.s.d, other, u as u64);
        let idx = self.e.idx(u);
        self.e.step(&COp::BadFill { t, idx, v, untyped: false, why: "a node of another type than allocated".into() })
      }
      1 if !filled.is_empty() => {
        let (u, var) = filled[s.lt(filled.len())];
        let untyped = s.n() % 2 == 0;
        let v = NV::blank(self.e.s.d, var, u as u64);
        let idx = self.e.idx(u);
        self.e.step(&COp::BadFill { t, idx, v, untyped, why: "an index that already has its node".into() })
      }
      2 => {
        let (u, untyped) = (self.uid(), s.n() % 2 == 0);
        let var = s.lt(n);
        let v = NV::blank(self.e.s.d, var, u as u64);
        let idx = match s.lt(3) { 0 => 0, 1 => 1 << 30, _ => self.e.handed[c].last().copied().unwrap_or(0) + 5 };
        self.e.step(&COp::BadFill { t, idx, v, untyped, why: "an index that was never handed out".into() })
      }
      _ => {
        // an index of this context handed out elsewhere: in the graph, removed, cancelled, another transaction's
        let mut v: Vec<Uid> = self.e.idx_of.iter().filter(|(u, (k, _))| *k == c && !self.e.t(t).own(**u)).map(|(u, _)| *u).collect();
        v.sort();
        if v.is_empty() { return Ok(()) }
        let u = v[s.lt(v.len())];
        let var = s.lt(n);
        let w = NV::blank(self.e.s.d, var, u as u64);
        let idx = self.e.idx(u);
        self.e.step(&COp::BadFill { t, idx, v: w, untyped: s.n() % 2 == 0, why: "an index not allocated by this transaction".into() })
      }
    }
  }
  /// redirect or remove up to `n` nodes one at a time and compare: finds wrong reverse-link records
  fn probe(&mut self, g: usize, s: &mut S, n: usize) -> Res {
    let mut g = g;
    for _ in 0..n {
      let live: Vec<Uid> = self.e.g(g).nodes.keys().copied().collect();
      if live.is_empty() { break }
      let u = live[s.lt(live.len())];
      self.e.step(&COp::NewTrans { g })?;
      let t = self.e.ts.len() - 1;
      let mut redirect = live.len() > 1 && s.n() % 2 == 0;
      if redirect {
        let w: Vec<Uid> = live.iter().copied().filter(|x| *x != u).collect();
        let v = w[s.lt(w.len())];
        let mut m = self.e.t(t).clone();
        m.red.push((u, v));
        let p = predict(&self.e.s, self.e.g(g), &m, self.e.dbg);
        if p.panics.is_empty() && !p.maybe { let all = s.n() % 2 == 0; self.e.step(&COp::Redirect { t, old: u, new: v, all })? } else { redirect = false }
      }
      if !redirect { self.e.step(&COp::Remove { t, u })? }
      let p = predict(&self.e.s, self.e.g(g), self.e.t(t), self.e.dbg);
      if !p.panics.is_empty() || p.maybe { self.e.step(&COp::GiveUp { t, form: 0 })?; continue }
      self.e.step(&COp::Commit { t, g, probe: true })?;
      if self.e.gs[g].is_none() { g = match self.graphs().last() { Some(g) => *g, None => break } }
    }
    Ok(())
  }
  pub fn finish(&mut self, tail: &[u16]) -> Res {
    let mut st = S { r: tail, i: 0 };
    if self.p.commit_all {
      // commit what is open, oldest first
      while let Some(t) = self.open().first().copied() { self.do_commit(t, &mut st, false, false)?; }
    }
    if self.p.probe > 0 && st.n() % 100 < self.p.probe as usize {
      for g in self.graphs() { let n = self.e.g(g).nodes.len().min(12); self.probe(g, &mut st, n)?; }
    }
    Ok(())
  }
}

/// Run one generated case; returns the failures of the operation that failed, if any
pub fn run_case<'p>(w: Box<dyn World>, p: &'p Profile, dbg: bool, case: &Case, watch: Option<std::sync::Arc<Watch>>) -> (Gen<'p>, Vec<Failure>) {
  let mut g = Gen::new(w, p, dbg);
  g.e.watch = watch;
  for o in &case.ops { if let Err(f) = g.op(o) { return (g, f) } }
  let tail: Vec<u16> = case.ops.last().map(|o| o.r.clone()).unwrap_or_default();
  // a longer stream for the final phase, still determined by the case
  let tail: Vec<u16> = (0..64).map(|i| tail.get(i % tail.len().max(1)).copied().unwrap_or(0).wrapping_add((i as u16).wrapping_mul(if tail.is_empty() { 0 } else { 7919 }))).collect();
  if let Err(f) = g.finish(&tail) { return (g, f) }
  if let Err(f) = g.e.end() { return (g, f) }
  (g, vec![])
}
/// Run concrete operations; stops at the first failing one
pub fn run_trace(w: Box<dyn World>, dbg: bool, flags: u32, trace: &[COp], watch: Option<std::sync::Arc<Watch>>) -> (Exec, Vec<Failure>) {
  let mut e = Exec::new(w, dbg, flags);
  e.watch = watch;
  for o in trace { if let Err(f) = e.step(o) { return (e, f) } }
  if let Err(f) = e.end() { return (e, f) }
  (e, vec![])
}
