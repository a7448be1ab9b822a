//! The building blocks of a graph used on their own: the node arena and the links of a single node.
//! A case is a list of raw operations (numbers); each is decoded against the current state.
use crate::core::*;
use crate::model::Sem;
use crate::show;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use ttgraph::id_distributer::IdDistributer;
use ttgraph::*;

pub type RawPart = Vec<u16>;
#[derive(Default)]
pub struct Log { pub shown: Vec<String>, pub feats: BTreeMap<&'static str, usize> }
impl Log { fn add(&mut self, k: &'static str, s: String) { *self.feats.entry(k).or_default() += 1; self.shown.push(s) } }
pub type PartFn = fn(&[RawPart], &mut Log) -> Result<(), String>;

struct P<'a> { r: &'a [u16], i: usize }
impl<'a> P<'a> {
  fn n(&mut self) -> usize { let x = self.r.get(self.i).copied().unwrap_or(0); self.i += 1; x as usize }
  fn lt(&mut self, m: usize) -> usize { let x = self.n(); if m == 0 { 0 } else { x % m } }
}
fn node(d: &SchemaDesc, var: usize, uid: u64, p: &mut P) -> NV {
  let mut v = NV::blank(d, var, uid);
  for x in v.data.iter_mut() { *x = (p.n() % 200) as u64 }
  for l in v.links.iter_mut() {
    match l {
      LV::D(x) => *x = p.lt(7),
      LV::V(x) => { for _ in 0..p.lt(5) { let y = p.lt(7); x.push(y) } }
      LV::S(x) => { for _ in 0..p.lt(5) { let y = 1 + p.lt(8); x.insert(y); } }
    }
  }
  v
}

type A<S> = <<S as Schema>::N as NodeEnum>::GenArena;
struct One<S: Schema> { a: A<S>, live: BTreeMap<usize, NV>, pending: BTreeMap<usize, usize> }

fn ok<T>(what: &str, r: R<T>) -> Result<T, String> { r.map_err(|m| format!("{what} panicked: {m}")) }
fn drain<I, T>(what: &str, mut it: I, total: usize, mut f: impl FnMut(T) -> (usize, NV)) -> Result<BTreeMap<usize, NV>, String> where I: ExactSizeIterator<Item = T> {
  let mut out = BTreeMap::new();
  for k in 0..total {
    let h = it.size_hint();
    if it.len() != total - k || h != (total - k, Some(total - k)) { return Err(format!("{what}: after {k} of {total} steps the iterator reports {h:?} left")) }
    match it.next() {
      None => return Err(format!("{what} ends after {k} of {total} nodes")),
      Some(x) => { let (i, v) = f(x); if out.insert(i, v).is_some() { return Err(format!("{what} yields index {i} twice")) } }
    }
  }
  for _ in 0..2 { if it.next().is_some() { return Err(format!("{what} goes on after all {total} nodes")) } }
  if it.len() != 0 { return Err(format!("{what}: {} left at the end", it.len())) }
  Ok(out)
}
fn same(what: &str, got: &BTreeMap<usize, NV>, want: &BTreeMap<usize, NV>) -> Result<(), String> {
  if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) }
}

fn look<S: Schema>(o: &mut One<S>, seen: &BTreeSet<usize>, untyped: &BTreeSet<usize>) -> Result<(), String> {
  let d = S::desc();
  let (live, pending) = (&o.live, &o.pending);
  let a = &mut o.a;
  ok("looking at the arena", sut(|| {
    if a.len() != live.len() { return Err(format!("len() is {}, expected {}", a.len(), live.len())) }
    same("iter()", &drain("iter()", a.iter(), live.len(), |(i, n)| (i.0, S::read(n)))?, live)?;
    same("a clone of iter()", &drain("a clone of iter()", a.iter().clone(), live.len(), |(i, n)| (i.0, S::read(n)))?, live)?;
    same("iter_mut()", &drain("iter_mut()", a.iter_mut(), live.len(), |(i, n)| (i.0, S::read(n)))?, live)?;
    for v in 0..d.variants.len() {
      let want: BTreeMap<usize, NV> = live.iter().filter(|x| x.1.var == v).map(|(i, n)| (*i, n.clone())).collect();
      let got: BTreeMap<usize, NV> = a.get_container(S::disc(v)).iter().map(|(i, n)| (*i, S::read(n))).collect();
      same(&format!("the container of {}", d.variants[v].name), &got, &want)?;
      let got: BTreeMap<usize, NV> = a.get_container_mut(S::disc(v)).iter().map(|(i, n)| (*i, S::read(n))).collect();
      same(&format!("the mutable container of {}", d.variants[v].name), &got, &want)?;
    }
    for i in seen.iter().copied().chain([0, usize::MAX - 5]) {
      let x = NodeIndex(i);
      let want = live.get(&i);
      let got = a.get(x).map(|n| S::read(n));
      if got.as_ref() != want { return Err(format!("get({i}) is {got:?}, expected {want:?}")) }
      let got = a.get_mut(x).map(|n| S::read(n));
      if got.as_ref() != want { return Err(format!("get_mut({i}) is {got:?}, expected {want:?}")) }
      if a.contains(x) != want.is_some() { return Err(format!("contains({i}) is {}, but get({i}) is {want:?}", a.contains(x))) }
      let disp = want.map(|n| n.var).or(pending.get(&i).copied()).map(|v| S::disc(v));
      if !untyped.contains(&i) && a.dispatch(x) != disp { return Err(format!("dispatch({i}) is {:?}, expected {disp:?}", a.dispatch(x))) }
    }
    Ok(())
  }))?
}

/// The arena against a map from indices to nodes
pub fn arena<S: Schema>(ops: &[RawPart], log: &mut Log) -> Result<(), String> {
  let d = S::desc();
  let nv = d.variants.len();
  let ids = if ops.len() % 2 == 0 { IdDistributer::new() } else { IdDistributer::default() };
  let fresh = || One::<S> { a: <A<S> as CateArena>::new(ids.clone()), live: BTreeMap::new(), pending: BTreeMap::new() };
  let mut all = vec![fresh()];
  let mut seen: BTreeSet<usize> = BTreeSet::new();
  let mut untyped: BTreeSet<usize> = BTreeSet::new();
  let mut uid = 0;
  macro_rules! hand { ($i:expr) => { if $i == 0 { return Err("an empty index was handed out".into()) } if !seen.insert($i) { return Err(format!("index {} was handed out twice", $i)) } } }
  for raw in ops {
    let mut p = P { r: raw, i: 0 };
    let k = p.lt(20);
    let w = p.lt(all.len());
    uid += 1;
    let pick = |m: &BTreeMap<usize, NV>, x: usize| m.keys().nth(x % m.len().max(1)).copied();
    match k {
      0..=4 => {
        let v = node(d, p.lt(nv), uid, &mut p);
        let n = S::make(&v);
        let i = ok("insert", sut(|| all[w].a.insert(n).0))?;
        log.add("insert", format!("a{w}.insert({}) = {i}", show::nv(d, &v)));
        hand!(i);
        all[w].live.insert(i, v);
      }
      5 => {
        let v = p.lt(nv);
        let i = ok("alloc", sut(|| all[w].a.alloc(S::disc(v)).0))?;
        log.add("alloc", format!("a{w}.alloc({}) = {i}", d.variants[v].name));
        hand!(i);
        all[w].pending.insert(i, v);
      }
      6 => {
        let i = ok("alloc_untyped", sut(|| all[w].a.alloc_untyped().0))?;
        log.add("alloc", format!("a{w}.alloc_untyped() = {i}"));
        hand!(i);
        untyped.insert(i);
      }
      7 => {
        let m = &all[w].pending;
        let Some((i, var)) = m.iter().nth(p.lt(m.len().max(1))).map(|x| (*x.0, *x.1)) else { continue };
        let v = node(d, var, uid, &mut p);
        let n = S::make(&v);
        log.add("fill", format!("a{w}.fill_back({i}, {})", show::nv(d, &v)));
        ok("fill_back", sut(|| all[w].a.fill_back(NodeIndex(i), n)))?;
        all[w].pending.remove(&i);
        all[w].live.insert(i, v);
      }
      8 => {
        let Some(i) = untyped.iter().nth(p.lt(untyped.len().max(1))).copied() else { continue };
        let v = node(d, p.lt(nv), uid, &mut p);
        let n = S::make(&v);
        log.add("fill", format!("a{w}.fill_back_untyped({i}, {})", show::nv(d, &v)));
        ok("fill_back_untyped", sut(|| all[w].a.fill_back_untyped(NodeIndex(i), n)))?;
        untyped.remove(&i);
        all[w].live.insert(i, v);
      }
      9..=11 => {
        let i = if k == 9 { seen.iter().nth(p.lt(seen.len().max(1))).copied().unwrap_or(usize::MAX - 5) } else { match pick(&all[w].live, p.n()) { Some(i) => i, None => continue } };
        if untyped.contains(&i) { continue }
        let got = ok("remove", sut(|| all[w].a.remove(NodeIndex(i))))?.map(|n| S::read(&n));
        log.add("remove", format!("a{w}.remove({i})"));
        let want = all[w].live.remove(&i);
        all[w].pending.remove(&i);
        if got != want { return Err(format!("remove({i}) returned {got:?}, expected {want:?}")) }
      }
      12 | 13 => {
        let Some(i) = pick(&all[w].live, p.n()) else { continue };
        let old = all[w].live[&i].clone();
        let var = if p.lt(2) == 0 { old.var } else { p.lt(nv) };
        let new = node(d, var, uid, &mut p);
        log.add(if var == old.var { "update" } else { "type_change" }, format!("a{w}.{}({i}, replace by {})", if k == 12 { "update_with" } else { "modify_with" }, show::nv(d, &new)));
        let n = S::make(&new);
        let mut saw: Vec<NV> = vec![];
        if k == 12 { ok("update_with", sut(|| all[w].a.update_with(NodeIndex(i), |x| { saw.push(S::read(&x)); n })))? }
        else { ok("modify_with", sut(|| all[w].a.modify_with(NodeIndex(i), |x| { saw.push(S::read(x)); *x = n })))? }
        if saw != vec![old.clone()] { return Err(format!("the closure for {i} saw {saw:?}, expected {old:?} once")) }
        all[w].live.insert(i, new);
      }
      14 => {
        let Some(i) = pick(&all[w].live, p.n()) else { continue };
        let mut v = all[w].live[&i].clone();
        v.uid = uid;
        log.add("get_mut", format!("a{w}.get_mut({i}) given uid {uid}"));
        ok("get_mut", sut(|| { if let Some(n) = all[w].a.get_mut(NodeIndex(i)) { S::assign(n, &v) } }))?;
        all[w].live.insert(i, v);
      }
      15 => {
        if all.len() < 3 { all.push(fresh()); log.add("new", format!("a{} created", all.len() - 1)); }
        else if all.len() > 1 {
          let o = all.remove((w + 1) % all.len());
          let w = w % all.len();
          log.add("merge", format!("a{w} merges another of {} nodes", o.live.len()));
          let t = &mut all[w];
          ok("merge", sut(|| t.a.merge(o.a)))?;
          t.live.extend(o.live);
          t.pending.extend(o.pending);
        }
      }
      16 => {
        let t = &mut all[w];
        log.add("iter_mut", format!("a{w}: every node changed through iter_mut"));
        for (_, v) in t.live.iter_mut() { v.uid += 1000 }
        let live = &t.live;
        ok("iter_mut", sut(|| for (i, n) in t.a.iter_mut() { if let Some(v) = live.get(&i.0) { S::assign(n, v) } }))?;
      }
      17 => {
        let o = all.remove(w);
        let total = o.live.len();
        log.add("rebuild", format!("a{w} rebuilt from its own into_iter"));
        let mut back = vec![];
        let got = ok("into_iter", sut(|| drain("into_iter()", o.a.into_iter(), total, |(i, n)| { let v = S::read(&n); back.push((i, n)); (i.0, v) })))??;
        same("into_iter()", &got, &o.live)?;
        let a = ok("new_from_iter", sut(|| <A<S> as CateArena>::new_from_iter(ids.clone(), back)))?;
        all.insert(w, One { a, live: o.live, pending: BTreeMap::new() });
      }
      _ => {
        // malformed: must panic; the arena is not used again
        let t = &all[w];
        let form = p.lt(8);
        let lv = pick(&t.live, p.n());
        let pd = t.pending.iter().nth(p.lt(t.pending.len().max(1))).map(|x| (*x.0, *x.1));
        let gone = seen.iter().filter(|i| !t.live.contains_key(i) && !t.pending.contains_key(i)).nth(p.lt(3)).copied().unwrap_or(usize::MAX - 5);
        let var = p.lt(nv);
        let v = node(d, var, uid, &mut p);
        let n = S::make(&v);
        let (what, i): (&str, usize) = match form {
          0 => match pd { Some((i, pv)) if pv != var => ("fill_back with another type", i), _ => continue },
          1 => match lv { Some(i) => ("fill_back of an occupied index", i), None => continue },
          2 => ("fill_back of an unknown index", gone),
          3 => match lv { Some(i) => ("fill_back_untyped of an occupied index", i), None => continue },
          4 => ("update_with of a missing node", pd.map_or(gone, |x| if p.lt(2) == 0 { x.0 } else { gone })),
          5 => ("modify_with of a missing node", pd.map_or(gone, |x| if p.lt(2) == 0 { x.0 } else { gone })),
          _ => match lv { Some(i) => ("new_from_iter with an index twice", i), None => continue },
        };
        log.add("malformed", format!("a{w}: {what} {i} {}", show::nv(d, &v)));
        let mut o = all.remove(w);
        let x = NodeIndex(i);
        let r = sut(|| match form {
          0..=2 => o.a.fill_back(x, n),
          3 => o.a.fill_back_untyped(x, n),
          4 => o.a.update_with(x, |y| y),
          5 => o.a.modify_with(x, |_| {}),
          _ => { let mut l: Vec<(NodeIndex, S::N)> = o.live.iter().map(|(i, v)| (NodeIndex(*i), S::make(v))).collect(); l.push((x, n)); let _ = <A<S> as CateArena>::new_from_iter(ids.clone(), l); }
        });
        if r.is_ok() { return Err(format!("{what} ({i}) was accepted")) }
        all.insert(w, fresh());
      }
    }
    for o in all.iter_mut() { look(o, &seen, &untyped)? }
  }
  Ok(())
}

/// The links of one node edited through the node interface, against the declared fields
pub fn edit<S: Schema>(ops: &[RawPart], log: &mut Log) -> Result<(), String> {
  let d = S::desc();
  let sem = Sem::new(d);
  // how the library names each link field
  let mut mirror = BTreeMap::new();
  for (v, vd) in d.variants.iter().enumerate() {
    for (f, l) in vd.links.iter().enumerate() {
      let mut x = NV::blank(d, v, 1);
      x.links[f] = match l.kind { Kind::D => LV::D(3), Kind::V => LV::V(vec![3]), Kind::S => LV::S([3].into()) };
      let n = S::make(&x);
      let s: Vec<_> = ok("iter_sources", sut(|| n.iter_sources().collect()))?;
      if s.len() != 1 || s[0].0 .0 != 3 { return Err(format!("a node of type {} whose only link is {} reports the sources {s:?}", vd.name, l.name)) }
      mirror.insert((v, f), ok("to_link_mirror_enum", sut(|| S::N::to_link_mirror_enum(s[0].1)))?);
    }
  }
  let set = |v: Vec<<S::N as NodeEnum>::LinkMirrorEnum>| v.into_iter().collect::<BTreeSet<_>>();
  let Some(first) = ops.first() else { return Ok(()) };
  let mut p = P { r: first, i: 0 };
  let var = p.lt(d.variants.len());
  let vd = &d.variants[var];
  let mut v = node(d, var, 1, &mut p);
  let mut n = S::make(&v);
  log.add("node", show::nv(d, &v));
  for raw in &ops[1..] {
    let mut p = P { r: raw, i: 0 };
    let k = p.lt(8);
    if vd.links.is_empty() { break }
    let f = p.lt(vd.links.len());
    let m = mirror[&(var, f)];
    let t = 1 + p.lt(8);
    let name = vd.links[f].name;
    match k {
      0..=2 => {
        log.add("add", format!("add_link({name}, {t})"));
        let r = sut(|| n.add_link(m, NodeIndex(t)));
        let want = match &mut v.links[f] {
          LV::D(x) if *x == 0 => { *x = t; Some(true) }
          LV::D(x) if *x == t => Some(false),
          LV::D(_) | LV::V(_) => None,
          LV::S(s) => Some(s.insert(t)),
        };
        match (r, want) { (Err(_), None) => {} (Ok(a), Some(b)) if a == b => {} (r, w) => return Err(format!("add_link({name}, {t}): {r:?}, expected {w:?} (None: a panic)")) }
      }
      3 | 4 => {
        log.add("remove", format!("remove_link({name}, {t})"));
        let r = sut(|| n.remove_link(m, NodeIndex(t)));
        let want = match &mut v.links[f] { LV::V(_) => None, l => Some(l.erase(t)) };
        match (r, want) { (Err(_), None) => {} (Ok(a), Some(b)) if a == b => {} (r, w) => return Err(format!("remove_link({name}, {t}): {r:?}, expected {w:?} (None: a panic)")) }
      }
      _ => {
        // replace one of the links
        let src: Vec<_> = ok("iter_sources", sut(|| n.iter_sources().collect()))?;
        let mine: Vec<_> = src.into_iter().filter(|s| S::N::to_link_mirror_enum(s.1) == m).collect();
        if mine.is_empty() { continue }
        let j = p.lt(mine.len());
        let (old, s) = mine[j];
        let new = p.lt(9);
        if new == old.0 { continue }
        log.add("modify", format!("modify_link({name}, {s:?}, {} -> {new})", old.0));
        let r = ok("modify_link", sut(|| n.modify_link(s, old, NodeIndex(new))))?;
        let mut added = new != 0;
        let before = v.links[f].clone();
        match &mut v.links[f] {
          LV::D(x) => *x = new,
          LV::S(s) => { s.remove(&old.0); if new != 0 { added = s.insert(new) } }
          LV::V(_) => {
            // exactly one slot which held the old link changes; sources are positions, so which one is the j-th
            let got = ok("read", sut(|| S::read(&n)))?;
            let LV::V(b) = &before else { unreachable!() };
            let LV::V(g) = &got.links[f] else { unreachable!() };
            let ch: Vec<usize> = (0..b.len()).filter(|i| g.get(*i) != Some(&b[*i])).collect();
            if g.len() != b.len() || ch.len() != 1 || b[ch[0]] != old.0 || g[ch[0]] != new { return Err(format!("modify_link({name}, {s:?}, {} -> {new}): {b:?} became {g:?}", old.0)) }
            v.links[f] = got.links[f].clone();
          }
        }
        if (r.removed, r.added) != (true, added) { return Err(format!("modify_link({name}, {s:?}, {} -> {new}) reports removed {}, added {}, expected true, {added}", old.0, r.removed, r.added)) }
        let want: BTreeSet<_> = sem.opp.get(&(var, f)).map_or(vec![], |o| o.iter().map(|l| mirror[l]).collect()).into_iter().collect();
        if set(r.bd_link_mirrors.clone()) != want { return Err(format!("modify_link({name}) reports the opposite links {:?}, declared {want:?}", r.bd_link_mirrors)) }
      }
    }
    let got = ok("read", sut(|| S::read(&n)))?;
    if got != v { return Err(format!("the node is now {}, expected {}", show::nv(d, &got), show::nv(d, &v))) }
    // everything the node says about its links
    ok("looking at the node", sut(|| {
      let mut pairs: BTreeSet<(usize, _)> = BTreeSet::new();
      for (g, l) in vd.links.iter().enumerate() {
        let gm = mirror[&(var, g)];
        let srt = |mut x: Vec<usize>| { if l.kind != Kind::V { x.sort() } x };
        let its: Vec<usize> = srt(n.iter_links(gm).map(|i| i.0).collect());
        if its != srt(v.links[g].targets()) { return Err(format!("iter_links({}) is {its:?}, expected {:?}", l.name, v.links[g].targets())) }
        let src: Vec<usize> = srt(n.iter_sources().filter(|s| S::N::to_link_mirror_enum(s.1) == gm).map(|s| s.0 .0).collect());
        if src != srt(v.links[g].targets()) { return Err(format!("iter_sources() gives {src:?} for {}, expected {:?}", l.name, v.links[g].targets())) }
        for y in 1..10 { if n.contains_link(gm, NodeIndex(y)) != v.links[g].contains(y) { return Err(format!("contains_link({}, {y}) is {}", l.name, n.contains_link(gm, NodeIndex(y)))) } }
        let want: BTreeSet<_> = sem.opp.get(&(var, g)).map_or(vec![], |o| o.iter().map(|l| mirror[l]).collect()).into_iter().collect();
        let got = set(n.get_bidiretional_link_mirrors_of(gm));
        if got != want { return Err(format!("the opposite links of {} are {got:?}, declared {want:?}", l.name)) }
        for y in v.links[g].targets() { for o in &want { pairs.insert((y, *o)); } }
      }
      let got: BTreeSet<(usize, _)> = n.get_bidiretional_links().into_iter().flat_map(|(ys, os)| ys.iter().flat_map(|y| os.iter().map(|o| (y.0, *o)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
      if got != pairs { return Err(format!("get_bidiretional_links() says {got:?}, expected {pairs:?}")) }
      for (l, m) in &mirror {
        if n.check_link(*m) != (l.0 == var) { return Err(format!("check_link({m:?}) on a {} is {}", vd.name, n.check_link(*m))) }
        for t in 0..d.variants.len() {
          let got = S::N::check_link_type(S::disc(t), *m).is_ok();
          if got != sem.allowed(*l, t) { return Err(format!("check_link_type({}, {m:?}) is {}", d.variants[t].name, if got { "accepted" } else { "refused" })) }
        }
      }
      let mine = set(n.match_bd_link_group(mirror.values().copied().collect()));
      let want: BTreeSet<_> = mirror.iter().filter(|x| x.0 .0 == var).map(|x| *x.1).collect();
      if mine != want { return Err(format!("match_bd_link_group keeps {mine:?}, expected {want:?}")) }
      Ok(())
    }))??;
  }
  Ok(())
}
