//! The library under test behind a schema-independent interface. Every call into the library is
//! guarded: a panic in it becomes an `Err(message)`.
use crate::core::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use ttgraph::serialize::*;
use ttgraph::*;

thread_local! {
  static IN_SUT: Cell<u32> = const { Cell::new(0) };
  static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    if IN_SUT.with(|c| c.get()) > 0 {
      let s = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
        .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
      let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      LAST.with(|l| *l.borrow_mut() = format!("{} [{}]", s, at));
    } else {
      old(info);
    }
  }));
}
pub type R<T> = Result<T, String>;
pub fn sut<T>(f: impl FnOnce() -> T) -> R<T> {
  IN_SUT.with(|c| c.set(c.get() + 1));
  let r = catch_unwind(AssertUnwindSafe(f));
  IN_SUT.with(|c| c.set(c.get() - 1));
  r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// One call of a user check during commit_checked
#[derive(Clone, Debug, PartialEq)]
pub struct CheckCall { pub kind: u8, pub name: String, pub x: usize, pub y: usize, pub from: NV, pub to: Option<NV> }
/// Which checks to register (kind 0 node, 1 link add, 2 link remove), and on which item each fails
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct CheckSpec { pub checks: Vec<(u8, String, Option<(usize, usize)>)>, pub decoys: Vec<(u8, String)> }

pub trait World {
  fn desc(&self) -> &'static SchemaDesc;
  fn new_ctx(&mut self, form: usize) -> usize;
  fn new_graph(&mut self, ctx: usize) -> usize;
  fn new_trans(&mut self, ctx: usize) -> usize;
  fn drop_graph(&mut self, g: usize);
  /// drops everything
  fn clear(&mut self, form: usize) -> R<()>;
  fn drop_trans(&mut self, t: usize, form: usize) -> R<()>;
  fn insert(&mut self, t: usize, v: &NV) -> R<usize>;
  fn extend(&mut self, t: usize, v: &[NV]) -> R<()>;
  fn alloc(&mut self, t: usize, var: usize, form: usize) -> R<usize>;
  fn alloc_untyped(&mut self, t: usize) -> R<usize>;
  fn fill(&mut self, t: usize, idx: usize, v: &NV, untyped: bool) -> R<()>;
  fn remove(&mut self, t: usize, idx: usize) -> R<()>;
  fn mutate(&mut self, t: usize, idx: usize, guard: Option<usize>, form: usize, f: NvFn) -> R<()>;
  fn update(&mut self, t: usize, idx: usize, guard: Option<usize>, form: usize, f: NvFn) -> R<()>;
  fn redirect(&mut self, t: usize, old: usize, new: usize, all: bool) -> R<()>;
  fn merge(&mut self, t: usize, g: usize) -> R<()>;
  fn is_empty(&self, t: usize) -> R<bool>;
  fn commit(&mut self, g: usize, t: usize) -> R<()>;
  fn commit_checked(&mut self, g: usize, t: usize, spec: &CheckSpec, ys: &[usize], log: Rc<RefCell<Vec<CheckCall>>>) -> R<()>;
  fn switch(&mut self, g: usize, ctx: usize) -> R<()>;
  /// `cut`: index, variant, field and target of a link which is taken out of the data
  fn roundtrip(&mut self, g: usize, form: usize, cut: Option<(usize, usize, usize, usize)>) -> R<usize>;
  fn read(&self, g: usize) -> R<Vec<(usize, NV)>>;
  fn get(&self, g: usize, idx: usize) -> R<Option<NV>>;
  fn views(&self, g: usize, probe: &[usize]) -> R<Result<(), String>>;
  fn into_views(&mut self, g: usize, take: Option<usize>) -> R<Result<(), String>>;
  fn check_backlinks(&self, g: usize) -> R<()>;
  fn check_integrity(&self, g: usize) -> R<()>;
}

pub struct WorldImpl<S: Schema> {
  pub ctxs: Vec<Context>,
  pub graphs: Vec<Option<Graph<S::N>>>,
  pub trans: Vec<Option<Transaction<'static, S::N>>>,
}
impl<S: Schema> WorldImpl<S> {
  pub fn new() -> Self { WorldImpl { ctxs: vec![], graphs: vec![], trans: vec![] } }
  fn g(&self, g: usize) -> &Graph<S::N> { self.graphs[g].as_ref().expect("harness: no such graph") }
  fn t(&mut self, t: usize) -> &mut Transaction<'static, S::N> { self.trans[t].as_mut().expect("harness: no such transaction") }
}

fn walk<'a, S: Schema, I>(what: &str, mut it: I, n: usize, err: &mut Vec<String>, exact: bool) -> Vec<(usize, NV)>
where I: Iterator<Item = (NodeIndex, &'a S::N)> {
  let mut out = vec![];
  loop {
    let left = n.wrapping_sub(out.len());
    let (lo, hi) = it.size_hint();
    if exact && (lo != left || hi != Some(left)) { err.push(format!("{what}: size_hint ({lo},{hi:?}) with {left} nodes left")); }
    if !exact && (lo > left || hi.map_or(false, |h| h < left)) { err.push(format!("{what}: size_hint ({lo},{hi:?}) excludes the {left} nodes left")); }
    match it.next() {
      Some((i, x)) => out.push((i.0, S::read(x))),
      None => break,
    }
    if out.len() > n + 4 { err.push(format!("{what}: yields more nodes than there are")); break; }
  }
  for _ in 0..3 { if it.next().is_some() { err.push(format!("{what}: yields after it was exhausted")); break; } }
  if exact && it.size_hint() != (0, Some(0)) { err.push(format!("{what}: size_hint {:?} after the end", it.size_hint())); }
  out
}
fn same(what: &str, mut a: Vec<(usize, NV)>, b: &[(usize, NV)], err: &mut Vec<String>) {
  a.sort_by_key(|x| x.0);
  if a != b { err.push(format!("{what}: {:?} but expected {:?}", a, b)); }
}

impl<S: Schema> World for WorldImpl<S> {
  fn desc(&self) -> &'static SchemaDesc { S::desc() }
  fn new_ctx(&mut self, form: usize) -> usize {
    self.ctxs.push(if form % 3 == 1 { Context::default() } else { Context::new() });
    self.ctxs.len() - 1
  }
  fn new_graph(&mut self, ctx: usize) -> usize { let g = Graph::new(&self.ctxs[ctx]); self.graphs.push(Some(g)); self.graphs.len() - 1 }
  fn new_trans(&mut self, ctx: usize) -> usize {
    // a clone of a context is the same context
    let c = if self.trans.len() % 2 == 1 { self.ctxs[ctx].clone() } else { self.ctxs[ctx].clone().clone() };
    self.trans.push(Some(Transaction::new(&c)));
    self.trans.len() - 1
  }
  fn drop_graph(&mut self, g: usize) { self.graphs[g] = None; }
  fn clear(&mut self, form: usize) -> R<()> {
    sut(|| match form % 3 {
      0 => { self.trans.clear(); self.graphs.clear(); self.ctxs.clear(); }
      1 => { self.graphs.clear(); self.ctxs.clear(); self.trans.clear(); }
      _ => { self.ctxs.clear(); for t in self.trans.drain(..).rev().flatten() { t.give_up() } for g in self.graphs.drain(..).rev() { drop(g) } }
    })
  }
  fn drop_trans(&mut self, t: usize, form: usize) -> R<()> {
    if let Some(t) = self.trans[t].take() { sut(|| if form % 2 == 0 { t.give_up() } else { drop(t) }) } else { Ok(()) }
  }
  fn insert(&mut self, t: usize, v: &NV) -> R<usize> { let n = S::make(v); let t = self.t(t); sut(|| t.insert(n).0) }
  fn extend(&mut self, t: usize, v: &[NV]) -> R<()> { let n: Vec<_> = v.iter().map(|v| S::make(v)).collect(); let t = self.t(t); sut(|| t.extend(n)) }
  fn alloc(&mut self, t: usize, var: usize, form: usize) -> R<usize> {
    let t = self.t(t);
    sut(|| if form % 2 == 0 { t.alloc(S::disc(var)).0 } else { S::alloc_node(t, var).0 })
  }
  fn alloc_untyped(&mut self, t: usize) -> R<usize> { let t = self.t(t); sut(|| t.alloc_untyped().0) }
  fn fill(&mut self, t: usize, idx: usize, v: &NV, untyped: bool) -> R<()> {
    let n = S::make(v); let t = self.t(t);
    sut(|| if untyped { t.fill_back_untyped(NodeIndex(idx), n) } else { t.fill_back(NodeIndex(idx), n) })
  }
  fn remove(&mut self, t: usize, idx: usize) -> R<()> { let t = self.t(t); sut(|| t.remove(NodeIndex(idx))) }
  fn mutate(&mut self, t: usize, idx: usize, guard: Option<usize>, form: usize, f: NvFn) -> R<()> {
    let t = self.t(t);
    sut(|| match guard {
      Some(var) => S::mut_typed(t, var, NodeIndex(idx), form, f),
      None => t.mutate(NodeIndex(idx), move |n| { let a = f(S::read(n)); if form % 2 == 0 { S::assign(n, &a) } else { *n = S::make(&a) } }),
    })
  }
  fn update(&mut self, t: usize, idx: usize, guard: Option<usize>, form: usize, f: NvFn) -> R<()> {
    let t = self.t(t);
    sut(|| match guard {
      Some(var) => S::update_typed(t, var, NodeIndex(idx), form, f),
      None => t.update(NodeIndex(idx), move |n| S::make(&f(S::read(&n)))),
    })
  }
  fn redirect(&mut self, t: usize, old: usize, new: usize, all: bool) -> R<()> {
    let t = self.t(t);
    sut(|| if all { t.redirect_all_links(NodeIndex(old), NodeIndex(new)) } else { t.redirect_links(NodeIndex(old), NodeIndex(new)) })
  }
  fn merge(&mut self, t: usize, g: usize) -> R<()> { let g = self.graphs[g].take().expect("harness: no such graph"); let t = self.t(t); sut(|| t.merge(g)) }
  fn is_empty(&self, t: usize) -> R<bool> { let t = self.trans[t].as_ref().unwrap(); sut(|| t.is_empty()) }
  fn commit(&mut self, g: usize, t: usize) -> R<()> {
    let t = self.trans[t].take().expect("harness: no such transaction");
    let g = self.graphs[g].as_mut().expect("harness: no such graph");
    sut(|| g.commit(t))
  }
  #[cfg(feature = "dbg")]
  fn commit_checked(&mut self, g: usize, t: usize, spec: &CheckSpec, ys: &[usize], log: Rc<RefCell<Vec<CheckCall>>>) -> R<()> {
    use ttgraph::check::GraphCheck;
    let t = self.trans[t].take().expect("harness: no such transaction");
    let g = self.graphs[g].as_mut().expect("harness: no such graph");
    sut(|| {
      let mut c = GraphCheck::<S::N>::new();
      // names registered twice are replaced, removed ones must not run
      for (k, n) in &spec.decoys {
        match k {
          0 => c.insert_node_check(n.clone(), |_, _| Err(())),
          1 => c.insert_link_add_check(n.clone(), |_, _, _, _| Err(())),
          _ => c.insert_link_remove_check(n.clone(), |_, _, _, _| Err(())),
        }
      }
      for ((k, n, fail), yi) in spec.checks.iter().zip(ys) {
        // the failing item is named by node identity (`fail`), its target also by index (`yi`)
        let (k, name, n, fail, log, yi) = (*k, n.clone(), n.clone(), *fail, log.clone(), *yi);
        let res = |bad: bool| if bad { Err(()) } else { Ok(()) };
        if k == 0 {
          c.insert_node_check(name, move |x, v| {
            log.borrow_mut().push(CheckCall { kind: 0, name: n.clone(), x: x.0, y: 0, from: S::read(v), to: None });
            res(fail.map_or(false, |f| f.0 as u64 == S::read(v).uid))
          });
        } else {
          let f = move |x: NodeIndex, y: NodeIndex, v: &S::N, w: Option<&S::N>| {
            log.borrow_mut().push(CheckCall { kind: k, name: n.clone(), x: x.0, y: y.0, from: S::read(v), to: w.map(|w| S::read(w)) });
            res(fail.map_or(false, |f| f.0 as u64 == S::read(v).uid && (y.0 == yi || w.map_or(false, |w| S::read(w).uid == f.1 as u64))))
          };
          if k == 1 { c.insert_link_add_check(name, f) } else { c.insert_link_remove_check(name, f) }
        }
      }
      for (k, n) in &spec.decoys {
        if spec.checks.iter().any(|c| c.0 == *k && c.1 == *n) { continue; }
        match k { 0 => c.remove_node_check(n), 1 => c.remove_link_add_check(n), _ => c.remove_link_remove_check(n) }
      }
      g.commit_checked(t, &c)
    })
  }
  #[cfg(not(feature = "dbg"))]
  fn commit_checked(&mut self, g: usize, t: usize, _spec: &CheckSpec, _ys: &[usize], _log: Rc<RefCell<Vec<CheckCall>>>) -> R<()> { self.commit(g, t) }
  fn switch(&mut self, g: usize, ctx: usize) -> R<()> {
    let old = self.graphs[g].take().expect("harness: no such graph");
    let c = &self.ctxs[ctx];
    let new = sut(|| old.switch_context(c))?;
    self.graphs[g] = Some(new);
    Ok(())
  }
  fn roundtrip(&mut self, g: usize, form: usize, cut: Option<(usize, usize, usize, usize)>) -> R<usize> {
    let old = self.graphs[g].take().expect("harness: no such graph");
    let (ctx, new) = sut(|| {
      let ser: GraphSerializer<S::N> = if let Some((i, var, f, y)) = cut {
        let mut v = serde_json::to_value(&old).unwrap();
        let d = &S::desc().variants[var];
        let nodes = v["nodes"].as_array_mut().expect("harness: no nodes in the data");
        let x = nodes.iter_mut().find(|x| x[0] == i).expect("harness: no such node in the data");
        let l = &mut x[1][d.name][d.links[f].name];
        match l {
          serde_json::Value::Array(a) => a.retain(|x| *x != y),
          serde_json::Value::Number(_) => *l = 0.into(),
          _ => panic!("harness: no such link in the data: {l}"),
        }
        serde_json::from_value(v).unwrap()
      } else { match form % 8 {
        0 => serde_json::from_str(&serde_json::to_string(&old).unwrap()).unwrap(),
        1 => GraphSerializer::from(old),
        2 => serde_json::from_str(&serde_json::to_string(&GraphSerializer::from(old)).unwrap()).unwrap(),
        3 => serde_json::from_value(serde_json::to_value(&old).unwrap()).unwrap(),
        4 => serde_json::from_slice(&serde_json::to_vec_pretty(&old).unwrap()).unwrap(),
        5 => bincode::deserialize(&bincode::serialize(&old).unwrap()).unwrap(),
        6 => bincode::deserialize(&bincode::serialize(&GraphSerializer::from(old)).unwrap()).unwrap(),
        _ => {
          let mut buf = vec![];
          ciborium::into_writer(&old, &mut buf).unwrap();
          ciborium::from_reader(&buf[..]).unwrap()
        }
      } };
      deserialize_graph(ser)
    })?;
    self.graphs[g] = Some(new);
    self.ctxs.push(ctx);
    Ok(self.ctxs.len() - 1)
  }
  fn read(&self, g: usize) -> R<Vec<(usize, NV)>> {
    let g = self.g(g);
    sut(|| { let mut v: Vec<_> = g.iter().map(|(i, n)| (i.0, S::read(n))).collect(); v.sort_by_key(|x| x.0); v })
  }
  fn get(&self, g: usize, idx: usize) -> R<Option<NV>> { let g = self.g(g); sut(|| g.get(NodeIndex(idx)).map(|n| S::read(n))) }
  fn views(&self, g: usize, probe: &[usize]) -> R<Result<(), String>> {
    let g = self.g(g);
    let d = S::desc();
    sut(|| {
      let mut err = vec![];
      let e = &mut err;
      // the reference set: lookup by index over every index that could be live
      let mut all: Vec<(usize, NV)> = probe.iter().filter_map(|i| g.get(NodeIndex(*i)).map(|n| (*i, S::read(n)))).collect();
      all.sort_by_key(|x| x.0);
      let n = all.len();
      if g.len() != n { e.push(format!("len {} but {} nodes can be looked up", g.len(), n)); }
      if g.is_empty() != (n == 0) { e.push(format!("is_empty {} with {} nodes", g.is_empty(), n)); }
      let it = g.iter();
      if it.len() != n { e.push(format!("iter().len() {} with {} nodes", it.len(), n)); }
      let mut half = g.iter();
      for _ in 0..n / 2 { half.next(); }
      let rest = half.clone();
      if half.count() != n - n / 2 || rest.len() != n - n / 2 { e.push("a cloned, half consumed iter() disagrees on what is left".to_string()); }
      same("iter()", walk::<S, _>("iter()", it, n, e, true), &all, e);
      // the other ways to run an iterator
      let keys = |v: &[(NodeIndex, &S::N)]| v.iter().map(|x| x.0 .0).collect::<Vec<_>>();
      let seq: Vec<(NodeIndex, &S::N)> = g.iter().collect();
      if g.iter().count() != n { e.push(format!("iter().count() {} with {n} nodes", g.iter().count())); }
      if g.iter().last().map(|x| x.0) != seq.last().map(|x| x.0) { e.push("iter().last() is not what next() yields last".to_string()); }
      for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
        if g.iter().nth(k).map(|x| x.0) != seq.get(k).map(|x| x.0) { e.push(format!("iter().nth({k}) is not what next() yields there")); }
        let rest: Vec<_> = g.iter().skip(k).collect();
        if keys(&rest) != keys(&seq)[k.min(seq.len())..] { e.push(format!("iter().skip({k}) is not the rest")); }
      }
      if keys(&g.iter().fold(vec![], |mut v, x| { v.push(x); v })) != keys(&seq) { e.push("iter().fold() disagrees with next()".to_string()); }
      // what is printed
      let lines = |t: String| t.lines().map(|l| l.to_string()).collect::<Vec<_>>();
      for (what, text, full) in [("Display", lines(format!("{}", g)), false), ("Debug", lines(format!("{:?}", g)), true)] {
        for (i, x) in &seq {
          let (a, b) = if full { (format!("{:?}", i), format!("{:?}", x)) } else { (format!("{}", i), format!("{}", x)) };
          let k = text.iter().filter(|l| l.contains(&b) && l.contains(&a)).count();
          if k != 1 { e.push(format!("{what} shows node {} {k} times", i.0)); }
        }
        if !full && text.iter().filter(|l| l.contains("<NV")).count() != n { e.push(format!("{what} shows other than the {n} nodes")); }
      }
      same("&graph", walk::<S, _>("&graph", g.into_iter(), n, e, true), &all, e);
      for (var, vd) in d.variants.iter().enumerate() {
        let exp: Vec<_> = all.iter().filter(|x| x.1.var == var).cloned().collect();
        let it = g.iter_type(S::disc(var));
        if it.len() != exp.len() { e.push(format!("iter_type({}).len() {} expected {}", vd.name, it.len(), exp.len())); }
        same(&format!("iter_type({})", vd.name), walk::<S, _>("iter_type", it, exp.len(), e, true), &exp, e);
        let seq: Vec<usize> = g.iter_type(S::disc(var)).map(|x| x.0 .0).collect();
        if g.iter_type(S::disc(var)).count() != exp.len() || g.iter_type(S::disc(var)).last().map(|x| x.0 .0) != seq.last().copied() { e.push(format!("iter_type({}): count() or last() disagrees with next()", vd.name)); }
        for k in [0, 1, exp.len() / 2, exp.len()] { if g.iter_type(S::disc(var)).nth(k).map(|x| x.0 .0) != seq.get(k).copied() { e.push(format!("iter_type({}).nth({k}) is not what next() yields there", vd.name)); } }
        same(&format!("iter_nodes!({})", vd.name), S::iter_typed(g, var), &exp, e);
        for i in probe {
          let got = S::get_typed(g, var, NodeIndex(*i));
          let want = exp.iter().find(|x| x.0 == *i).map(|x| x.1.clone());
          if got != want { e.push(format!("get_node!({}, {}) gives {:?} expected {:?}", vd.name, i, got, want)); }
        }
      }
      for (name, vs) in d.groups.iter() {
        let exp: Vec<_> = all.iter().filter(|x| vs.contains(&x.1.var)).cloned().collect();
        same(&format!("iter_group({})", name), walk::<S, _>("iter_group", g.iter_group(name), exp.len(), e, false), &exp, e);
      }
      if g.iter_group("no_such_group").next().is_some() { e.push("iter_group of an unknown group yields nodes".to_string()); }
      if g.get(NodeIndex::empty()).is_some() { e.push("the empty index denotes a node".to_string()); }
      if err.is_empty() { Ok(()) } else { Err(err.join("; ")) }
    })
  }
  fn into_views(&mut self, g: usize, take: Option<usize>) -> R<Result<(), String>> {
    let g = self.graphs[g].take().expect("harness: no such graph");
    sut(|| {
      let mut err = vec![];
      let mut all: Vec<(usize, NV)> = g.iter().map(|(i, n)| (i.0, S::read(n))).collect();
      all.sort_by_key(|x| x.0);
      let mut it = g.into_iter();
      if let Some(k) = take {
        // only some are taken, the iterator goes away, those taken stay
        let part: Vec<_> = it.by_ref().take(k).collect();
        if it.len() + part.len() != all.len() { err.push(format!("by value: len {} after taking {} of {}", it.len(), part.len(), all.len())); }
        drop(it);
        let part: Vec<(usize, NV)> = part.iter().map(|(i, n)| (i.0, S::read(n))).collect();
        if part.len() != k.min(all.len()) || part.iter().any(|x| !all.contains(x)) || part.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len() != part.len() { err.push(format!("by value: taking {k} gives {part:?} of {all:?}")); }
        return if err.is_empty() { Ok(()) } else { Err(err.join("; ")) };
      }
      let mut out = vec![];
      loop {
        if it.len() != all.len() - out.len().min(all.len()) { err.push(format!("by value: len {} with {} of {} taken", it.len(), out.len(), all.len())); }
        match it.next() { Some((i, n)) => out.push((i.0, S::read(&n))), None => break }
        if out.len() > all.len() + 4 { break; }
      }
      for _ in 0..3 { if it.next().is_some() { err.push("by value: yields after the end".to_string()); } }
      same("by value", out, &all, &mut err);
      if err.is_empty() { Ok(()) } else { Err(err.join("; ")) }
    })
  }
  fn check_backlinks(&self, g: usize) -> R<()> { let g = self.g(g); sut(|| g.check_backlinks()) }
  fn check_integrity(&self, g: usize) -> R<()> { let g = self.g(g); sut(|| g.check_integrity()) }
}
