//! The reference model: what a transaction means, written from the documentation, over node
//! identities (uid) instead of indices.
use crate::core::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Uid = usize;

/// A pure change of a node's content. Fields and positions are taken modulo what is there.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Eff {
  Nop,
  Data(usize, u64),
  /// direct: set; vector: push; set: insert
  Link(usize, Uid),
  /// vector: overwrite a slot; otherwise like Link
  Slot(usize, usize, Uid),
  /// direct: clear; vector: remove the slot; set: nothing (a position in a set means nothing)
  Drop(usize, usize),
  /// remove every occurrence of a target
  Unlink(usize, Uid),
  /// vector: duplicate a slot at the end, or swap two slots; others: nothing
  Dup(usize, usize),
  Swap(usize, usize, usize),
  Clear(usize),
  Replace(Box<NV>),
}
impl Eff {
  pub fn map(&self, f: &mut dyn FnMut(Uid) -> usize) -> Eff {
    match self {
      Eff::Link(a, u) => Eff::Link(*a, if *u == 0 { 0 } else { f(*u) }),
      Eff::Slot(a, b, u) => Eff::Slot(*a, *b, if *u == 0 { 0 } else { f(*u) }),
      Eff::Unlink(a, u) => Eff::Unlink(*a, if *u == 0 { 0 } else { f(*u) }),
      Eff::Replace(v) => Eff::Replace(Box::new(v.map(|x| f(x)))),
      e => e.clone(),
    }
  }
  pub fn targets(&self) -> Vec<Uid> {
    match self {
      Eff::Link(_, u) | Eff::Slot(_, _, u) | Eff::Unlink(_, u) => if *u == 0 { vec![] } else { vec![*u] },
      Eff::Replace(v) => v.links.iter().flat_map(|l| l.targets()).collect(),
      _ => vec![],
    }
  }
}
pub fn apply(effs: &[Eff], mut v: NV) -> NV {
  for e in effs {
    let n = v.links.len();
    match e {
      Eff::Nop => {}
      Eff::Data(i, x) => { let n = v.data.len(); if n > 0 { v.data[i % n] = *x } }
      Eff::Link(i, t) => if n > 0 { match &mut v.links[i % n] {
        LV::D(x) => *x = *t,
        LV::V(x) => x.push(*t),
        LV::S(x) => { if *t != 0 { x.insert(*t); } }
      } },
      Eff::Slot(i, p, t) => if n > 0 { match &mut v.links[i % n] {
        LV::D(x) => *x = *t,
        LV::V(x) => { let l = x.len(); if l > 0 { x[p % l] = *t } else { x.push(*t) } }
        LV::S(x) => { if *t != 0 { x.insert(*t); } }
      } },
      Eff::Drop(i, p) => if n > 0 { match &mut v.links[i % n] {
        LV::D(x) => *x = 0,
        LV::V(x) => { let l = x.len(); if l > 0 { x.remove(p % l); } }
        LV::S(_) => {}
      } },
      Eff::Unlink(i, t) => if n > 0 && *t != 0 { match &mut v.links[i % n] {
        LV::D(x) => if *x == *t { *x = 0 },
        LV::V(x) => x.retain(|y| y != t),
        LV::S(x) => { x.remove(t); }
      } },
      Eff::Dup(i, p) => if n > 0 { if let LV::V(x) = &mut v.links[i % n] { let l = x.len(); if l > 0 { let y = x[p % l]; x.push(y) } } },
      Eff::Swap(i, p, q) => if n > 0 { if let LV::V(x) = &mut v.links[i % n] { let l = x.len(); if l > 0 { x.swap(p % l, q % l) } } },
      Eff::Clear(i) => if n > 0 { let k = match &v.links[i % n] { LV::D(_) => Kind::D, LV::V(_) => Kind::V, LV::S(_) => Kind::S }; v.links[i % n] = LV::empty(k) },
      Eff::Replace(r) => { let uid = v.uid; v = (**r).clone(); v.uid = uid }
    }
  }
  v
}

#[derive(Clone, Debug)]
pub struct Rec { pub uid: Uid, pub cid: usize, pub guard: Option<usize>, pub eff: Vec<Eff> }

#[derive(Clone, Debug, Default)]
pub struct MG { pub ctx: usize, pub nodes: BTreeMap<Uid, NV>, /** every node that was ever in it, since it got its context */ pub ever: BTreeSet<Uid> }

#[derive(Clone, Debug, Default)]
pub struct MT {
  pub ctx: usize,
  pub g: usize,
  /// allocated and not filled; Some(type) if allocated with a type
  pub alloc: BTreeMap<Uid, Option<usize>>,
  pub inc: BTreeMap<Uid, NV>,
  pub extended: BTreeSet<Uid>,
  pub dec: BTreeSet<Uid>,
  pub cancel: BTreeSet<Uid>,
  pub muts: Vec<Rec>,
  pub upds: Vec<Rec>,
  pub red: Vec<(Uid, Uid)>,
  pub redall: Vec<(Uid, Uid)>,
  pub merged: BTreeSet<Uid>,
  pub n_merges: usize,
  pub lenient_empty: bool,
}
impl MT {
  pub fn own(&self, u: Uid) -> bool { self.inc.contains_key(&u) || self.alloc.contains_key(&u) }
  pub fn is_empty(&self) -> bool {
    self.alloc.is_empty() && self.inc.is_empty() && self.dec.is_empty() && self.muts.is_empty() && self.upds.is_empty() && self.red.is_empty() && self.redall.is_empty()
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Why { Ctx, Unfilled, Loop, RemoveMissing, MutateMissing, UpdateMissing, TypedClosure, BidiOccupied, BidiChoice, LinkType }
impl Why {
  pub fn bidi(self) -> bool { matches!(self, Why::BidiOccupied | Why::BidiChoice) }
  pub fn malformed(self) -> bool { !self.bidi() && self != Why::LinkType }
}

pub type Lk = (Uid, Uid, usize, usize); // from, to, variant of from, field
#[derive(Clone, Debug, Default)]
pub struct Pred {
  /// every reason for which the commit has to panic (empty: it must succeed)
  pub panics: Vec<Why>,
  /// the panic depends on the order in which the library visits links: either outcome is accepted
  pub maybe: bool,
  pub nodes: BTreeMap<Uid, NV>,
  /// closures run by the commit: id and the content each one sees
  pub calls: Vec<(usize, NV)>,
  pub touched: BTreeSet<Uid>,
  pub before: BTreeMap<Lk, usize>,
  pub after: BTreeMap<Lk, usize>,
  pub f: PFeat,
}
/// what actually happened in the commit, for the non-triviality rules
#[derive(Clone, Copy, Debug, Default)]
pub struct PFeat {
  pub redirected: usize, pub redirected_new: usize, pub chain: usize, pub erased: usize, pub removed: usize, pub cancelled_links: usize,
  pub auto_add: usize, pub auto_del: usize, pub kept_opposite: usize, pub calls: usize, pub added: usize, pub deleted: usize, pub typed_added: usize, pub inserted: usize,
  pub set_merge: usize, pub vec_redirect: usize,
}

pub struct Sem { pub d: &'static SchemaDesc, pub opp: BTreeMap<LinkId, Vec<LinkId>>, pub ann: BTreeMap<LinkId, Vec<&'static [usize]>> }
impl Sem {
  pub fn new(d: &'static SchemaDesc) -> Sem {
    let mut opp: BTreeMap<LinkId, Vec<LinkId>> = BTreeMap::new();
    for (a, b) in d.pairs { let e = opp.entry(*a).or_default(); if !e.contains(b) { e.push(*b) } let e = opp.entry(*b).or_default(); if !e.contains(a) { e.push(*a) } }
    let mut ann: BTreeMap<LinkId, Vec<&'static [usize]>> = BTreeMap::new();
    for (l, a) in d.types { ann.entry(*l).or_default().push(a) }
    Sem { d, opp, ann }
  }
  pub fn allowed(&self, l: LinkId, target: usize) -> bool { self.ann.get(&l).map_or(true, |v| v.iter().all(|a| a.contains(&target))) }
  pub fn opps(&self, l: LinkId, target: usize) -> Vec<usize> {
    self.opp.get(&l).map_or(vec![], |v| v.iter().filter(|o| o.0 == target).map(|o| o.1).collect())
  }
  pub fn pair_field(&self, l: LinkId) -> bool { self.opp.contains_key(&l) }
}

pub fn links_of(nodes: &BTreeMap<Uid, NV>) -> BTreeMap<Lk, usize> {
  let mut m = BTreeMap::new();
  for (x, n) in nodes { for (f, l) in n.links.iter().enumerate() { for y in l.targets() { *m.entry((*x, y, n.var, f)).or_insert(0) += 1; } } }
  m
}

/// old -> end of its chain; None if cyclic
pub fn roots(list: &[(Uid, Uid)]) -> Option<(BTreeMap<Uid, Uid>, usize)> {
  let m: BTreeMap<Uid, Uid> = list.iter().copied().collect();
  let mut out = BTreeMap::new();
  let mut longest = 0;
  for (old, _) in list {
    let mut x = *old;
    let mut steps = 0;
    while let Some(y) = m.get(&x) { x = *y; steps += 1; if steps > m.len() { return None; } }
    longest = longest.max(steps);
    out.insert(*old, x);
  }
  Some((out, longest))
}
fn redirect(nodes: &mut BTreeMap<Uid, NV>, map: &BTreeMap<Uid, Uid>, touched: &mut BTreeSet<Uid>, f: &mut PFeat) -> usize {
  let mut n = 0;
  for (x, v) in nodes.iter_mut() {
    for l in v.links.iter_mut() {
      let hit = l.targets().iter().filter(|t| map.contains_key(t)).count();
      if hit > 0 {
        n += hit; touched.insert(*x);
        let new = l.map(|t| *map.get(&t).unwrap_or(&t));
        if let (LV::S(a), LV::S(b)) = (&*l, &new) { if a.len() != b.len() { f.set_merge += 1 } }
        if let LV::V(_) = new { f.vec_redirect += 1 }
        *l = new;
      }
    }
  }
  n
}

/// The documented meaning of committing `t` to `g`. `dbg`: whether link types are checked.
pub fn predict(s: &Sem, g: &MG, t: &MT, dbg: bool) -> Pred {
  let mut p = Pred::default();
  p.nodes = g.nodes.clone();
  p.before = links_of(&g.nodes);
  if t.ctx != g.ctx { p.panics.push(Why::Ctx); return p; }
  if !t.alloc.is_empty() { p.panics.push(Why::Unfilled); return p; }
  match roots(&t.red) {
    None => p.panics.push(Why::Loop),
    Some((m, c)) => { let mut n = std::mem::take(&mut p.nodes); p.f.redirected += redirect(&mut n, &m, &mut p.touched, &mut p.f); p.nodes = n; p.f.chain = p.f.chain.max(c) }
  }
  for (u, v) in &t.inc { p.nodes.insert(*u, v.clone()); p.touched.insert(*u); p.f.inserted += 1; }
  for (is_mut, recs) in [(true, &t.muts), (false, &t.upds)] {
    for r in recs {
      let Some(v) = p.nodes.get(&r.uid).cloned() else { p.panics.push(if is_mut { Why::MutateMissing } else { Why::UpdateMissing }); continue };
      if let Some(gv) = r.guard { if gv != v.var { p.panics.push(Why::TypedClosure); continue; } }
      p.calls.push((r.cid, v.clone()));
      p.f.calls += 1;
      p.touched.insert(r.uid);
      p.nodes.insert(r.uid, apply(&r.eff, v));
    }
  }
  match roots(&t.redall) {
    None => p.panics.push(Why::Loop),
    Some((m, c)) => { let mut n = std::mem::take(&mut p.nodes); let k = redirect(&mut n, &m, &mut p.touched, &mut p.f); p.f.redirected += k; p.f.redirected_new += k; p.nodes = n; p.f.chain = p.f.chain.max(c) }
  }
  for u in t.dec.iter() {
    if p.nodes.remove(u).is_none() { p.panics.push(Why::RemoveMissing); continue }
    p.f.removed += 1;
    for (x, v) in p.nodes.iter_mut() { for l in v.links.iter_mut() { if l.erase(*u) { p.f.erased += 1; p.touched.insert(*x); } } }
  }
  for u in t.cancel.iter() {
    for (x, v) in p.nodes.iter_mut() { for l in v.links.iter_mut() { if l.erase(*u) { p.f.cancelled_links += 1; p.touched.insert(*x); } } }
  }
  if !s.opp.is_empty() { bidi(s, &mut p); }
  p.after = links_of(&p.nodes);
  for (k, n) in &p.after {
    let b = p.before.get(k).copied().unwrap_or(0);
    if *n > b {
      p.f.added += 1;
      if let Some(y) = p.nodes.get(&k.1) {
        if s.ann.contains_key(&(k.2, k.3)) { p.f.typed_added += 1; }
        if dbg && b == 0 && !s.allowed((k.2, k.3), y.var) { p.panics.push(Why::LinkType); }
      }
    }
  }
  p.f.deleted = p.before.keys().filter(|k| !p.after.contains_key(k)).count();
  p
}

fn bidi(s: &Sem, p: &mut Pred) {
  let l1 = links_of(&p.nodes);
  let added: Vec<Lk> = l1.keys().filter(|k| !p.before.contains_key(k)).copied().collect();
  let removed: Vec<Lk> = p.before.keys().filter(|k| !l1.contains_key(k)).copied().collect();
  for (x, y, v, f) in &removed {
    let (Some(nx), Some(ny)) = (p.nodes.get(x), p.nodes.get(y)) else { continue };
    if nx.var != *v { continue }
    let yv = ny.var;
    for m in s.opps((*v, *f), yv) {
      if !p.nodes[y].links[m].contains(*x) { continue }
      // a link of this very transaction is not what paired with the removed one
      if !p.before.contains_key(&(*y, *x, yv, m)) { p.f.kept_opposite += 1; continue }
      // another link from x to y still pairs with it
      if s.opps((yv, m), *v).iter().any(|o| p.nodes[x].links[*o].contains(*y)) { p.f.kept_opposite += 1; continue }
      p.nodes.get_mut(y).unwrap().links[m].erase(*x);
      p.touched.insert(*y);
      p.f.auto_del += 1;
    }
  }
  let mut open = vec![];
  for (x, y, v, f) in &added {
    let (Some(_), Some(ny)) = (p.nodes.get(x), p.nodes.get(y)) else { continue };
    let o = s.opps((*v, *f), ny.var);
    if o.is_empty() || o.iter().any(|m| ny.links[*m].contains(*x)) { continue }
    open.push((*x, *y, o));
  }
  for (x, y, o) in &open {
    if o.len() != 1 { continue }
    let l = &mut p.nodes.get_mut(y).unwrap().links[o[0]];
    if l.contains(*x) { continue }
    match l {
      LV::D(c) => if *c == 0 { *c = *x } else { p.panics.push(Why::BidiOccupied); continue },
      LV::S(c) => { c.insert(*x); }
      LV::V(c) => { c.push(*x); }
    }
    p.touched.insert(*y);
    p.f.auto_add += 1;
  }
  for (x, y, o) in &open {
    if o.len() == 1 { continue }
    if o.iter().any(|m| p.nodes[y].links[*m].contains(*x)) { p.maybe = true } else { p.panics.push(Why::BidiChoice) }
  }
}

/// Links from a live node to a live node that nothing links back
pub fn asymmetric(s: &Sem, nodes: &BTreeMap<Uid, NV>) -> Option<String> {
  for (x, n) in nodes {
    for (f, l) in n.links.iter().enumerate() {
      for y in l.targets() {
        let Some(ny) = nodes.get(&y) else { continue };
        let o = s.opps((n.var, f), ny.var);
        if !o.is_empty() && !o.iter().any(|m| ny.links[*m].contains(*x)) {
          return Some(format!("node {} ({}).{} links to {} ({}) but none of its opposite fields {:?} links back", x, s.d.variants[n.var].name, s.d.variants[n.var].links[f].name, y, s.d.variants[ny.var].name,
            o.iter().map(|m| s.d.variants[ny.var].links[*m].name).collect::<Vec<_>>()));
        }
      }
    }
  }
  None
}
