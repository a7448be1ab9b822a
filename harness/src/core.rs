//! Schema descriptions, the neutral node value `NV`, and the glue every generated schema implements.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use ttgraph::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { D, V, S }
pub struct LinkDesc { pub name: &'static str, pub kind: Kind, pub groups: &'static [&'static str] }
pub struct DataDesc { pub name: &'static str, pub ty: usize }
pub struct VariantDesc {
  pub name: &'static str,
  pub links: &'static [LinkDesc],
  pub data: &'static [DataDesc],
  pub data_order: &'static [&'static str],
  pub groups: &'static [&'static str],
  pub phantom: &'static [&'static str],
}
pub type LinkId = (usize, usize);
pub struct SchemaDesc {
  pub name: &'static str,
  pub fam: char,
  pub variants: &'static [VariantDesc],
  pub groups: &'static [(&'static str, &'static [usize])],
  pub pairs: &'static [(LinkId, LinkId)],
  pub types: &'static [(LinkId, &'static [usize])],
}

/// A link field: direct, vector, set. The numbers are node indices in the library's world and node
/// identities (uid) in the model's world; 0 is the empty index in both.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum LV { D(usize), V(Vec<usize>), S(BTreeSet<usize>) }
impl LV {
  pub fn empty(k: Kind) -> LV {
    match k { Kind::D => LV::D(0), Kind::V => LV::V(vec![]), Kind::S => LV::S(BTreeSet::new()) }
  }
  /// non-empty targets, with multiplicity
  pub fn targets(&self) -> Vec<usize> {
    let v: Vec<usize> = match self { LV::D(x) => vec![*x], LV::V(v) => v.clone(), LV::S(s) => s.iter().copied().collect() };
    v.into_iter().filter(|x| *x != 0).collect()
  }
  pub fn contains(&self, t: usize) -> bool {
    match self { LV::D(x) => *x == t, LV::V(v) => v.contains(&t), LV::S(s) => s.contains(&t) }
  }
  pub fn map(&self, mut f: impl FnMut(usize) -> usize) -> LV {
    let mut g = |x: usize| if x == 0 { 0 } else { f(x) };
    match self {
      LV::D(x) => LV::D(g(*x)),
      LV::V(v) => LV::V(v.iter().map(|x| g(*x)).collect()),
      LV::S(s) => LV::S(s.iter().map(|x| g(*x)).collect()),
    }
  }
  /// erase links to `t`: a direct link or vector slot becomes empty, a set member disappears
  pub fn erase(&mut self, t: usize) -> bool {
    match self {
      LV::D(x) => if *x == t { *x = 0; true } else { false },
      LV::V(v) => { let mut c = false; for x in v.iter_mut() { if *x == t { *x = 0; c = true } } c }
      LV::S(s) => s.remove(&t),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct NV { pub var: usize, pub uid: u64, pub links: Vec<LV>, pub data: Vec<u64> }
impl NV {
  pub fn blank(d: &SchemaDesc, var: usize, uid: u64) -> NV {
    let v = &d.variants[var];
    NV { var, uid, links: v.links.iter().map(|l| LV::empty(l.kind)).collect(), data: v.data.iter().map(|_| 0).collect() }
  }
  pub fn map(&self, mut f: impl FnMut(usize) -> usize) -> NV {
    NV { var: self.var, uid: self.uid, links: self.links.iter().map(|l| l.map(&mut f)).collect(), data: self.data.clone() }
  }
}

pub trait LinkF { fn mk(v: &LV) -> Self; fn rd(&self) -> LV; }
fn bad<T>() -> T { unreachable!("link kind mismatch in the harness") }
impl LinkF for NodeIndex {
  fn mk(v: &LV) -> Self { match v { LV::D(x) => NodeIndex(*x), _ => bad() } }
  fn rd(&self) -> LV { LV::D(self.0) }
}
impl LinkF for Vec<NodeIndex> {
  fn mk(v: &LV) -> Self { match v { LV::V(x) => x.iter().map(|x| NodeIndex(*x)).collect(), _ => bad() } }
  fn rd(&self) -> LV { LV::V(self.iter().map(|x| x.0).collect()) }
}
macro_rules! set_link { ($($t:ty),*) => { $(impl LinkF for $t {
  fn mk(v: &LV) -> Self { match v { LV::S(x) => x.iter().map(|x| NodeIndex(*x)).collect(), _ => bad() } }
  fn rd(&self) -> LV { LV::S(self.iter().map(|x| x.0).collect()) }
})* } }
set_link!(HashSet<NodeIndex>, BTreeSet<NodeIndex>, ::ordermap::OrderSet<NodeIndex>, ::indexmap::IndexSet<NodeIndex>);

pub trait Dat { fn mk(v: u64) -> Self; fn rd(&self) -> u64; }
impl Dat for u64 { fn mk(v: u64) -> Self { v } fn rd(&self) -> u64 { *self } }
impl Dat for String { fn mk(v: u64) -> Self { if v == 0 { String::new() } else { format!("s\"{}\n\u{e9}", v) } } fn rd(&self) -> u64 { if self.is_empty() { 0 } else { self[2..].split('\n').next().unwrap().parse().unwrap_or(999) } } }
impl Dat for Option<u32> { fn mk(v: u64) -> Self { if v == 0 { None } else { Some(v as u32) } } fn rd(&self) -> u64 { self.map_or(0, |x| x as u64) } }
impl Dat for (u8, u16) { fn mk(v: u64) -> Self { (v as u8, (v * 3) as u16) } fn rd(&self) -> u64 { if self.1 as u64 == self.0 as u64 * 3 { self.0 as u64 } else { 999 } } }
impl Dat for [u8; 3] { fn mk(v: u64) -> Self { [v as u8, 7, (v / 2) as u8] } fn rd(&self) -> u64 { if self[1] == 7 && self[2] == self[0] / 2 { self[0] as u64 } else { 999 } } }
impl Dat for Vec<u32> { fn mk(v: u64) -> Self { (0..v % 5).map(|x| x as u32).chain([v as u32]).collect() } fn rd(&self) -> u64 { *self.last().unwrap_or(&999) as u64 } }
impl Dat for Box<i64> { fn mk(v: u64) -> Self { Box::new(-(v as i64)) } fn rd(&self) -> u64 { (-**self) as u64 } }
impl Dat for BTreeMap<u32, String> { fn mk(v: u64) -> Self { BTreeMap::from([(v as u32, "k".to_string())]) } fn rd(&self) -> u64 { *self.keys().next().unwrap_or(&999) as u64 } }
impl Dat for Option<NodeIndex> { fn mk(v: u64) -> Self { if v == 0 { None } else { Some(NodeIndex(v as usize)) } } fn rd(&self) -> u64 { self.map_or(0, |x| x.0 as u64) } }
impl Dat for Vec<usize> { fn mk(v: u64) -> Self { vec![v as usize; 2] } fn rd(&self) -> u64 { if self.len() == 2 && self[0] == self[1] { self[0] as u64 } else { 999 } } }
impl Dat for Tok { fn mk(v: u64) -> Self { Tok::new(v) } fn rd(&self) -> u64 { self.0 } }
impl Dat for HashSet<usize> { fn mk(v: u64) -> Self { HashSet::from([v as usize]) } fn rd(&self) -> u64 { *self.iter().next().unwrap_or(&999) as u64 } }
impl Dat for (NodeIndex, u8) { fn mk(v: u64) -> Self { (NodeIndex(v as usize), 9) } fn rd(&self) -> u64 { if self.1 == 9 { self.0 .0 as u64 } else { 999 } } }

thread_local! {
  /// how many tokens of each value exist on this thread (no entry: none)
  static LIVE: RefCell<BTreeMap<u64, isize>> = const { RefCell::new(BTreeMap::new()) };
}
fn count(v: u64, d: isize) {
  // (a token that outlives its thread's counters is not counted)
  let _ = LIVE.try_with(|l| { let mut l = l.borrow_mut(); let n = l.entry(v).or_insert(0); *n += d; if *n == 0 { l.remove(&v); } });
}
pub fn live_tokens() -> BTreeMap<u64, isize> { LIVE.with(|l| l.borrow().clone()) }
/// The identity every node carries, counted while it exists: tells which nodes (and closures) are held.
pub struct Tok(u64);
impl Tok { pub fn new(v: u64) -> Tok { count(v, 1); Tok(v) } }
impl Clone for Tok { fn clone(&self) -> Tok { Tok::new(self.0) } }
impl Drop for Tok { fn drop(&mut self) { count(self.0, -1) } }
impl Debug for Tok { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl Serialize for Tok { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
impl<'d> Deserialize<'d> for Tok { fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Tok, D::Error> { Ok(Tok::new(u64::deserialize(d)?)) } }

pub type NvFn = Box<dyn FnOnce(NV) -> NV>;

/// What a node type says about itself
#[derive(Debug, Clone, PartialEq)]
pub struct StaticRefl {
  pub link_names: Vec<String>,
  pub kinds: Vec<String>,
  pub data_names: Vec<String>,
  pub n_mirrors: usize,
  /// per link: how many link-or-groups it reports, and for each name asked whether it is among them
  pub log_counts: Vec<usize>,
  pub mirrors_distinct: bool,
  pub source_round_trip: bool,
}
pub fn static_refl<T: TypedNode>() -> StaticRefl {
  let ms = T::link_mirrors();
  StaticRefl {
    link_names: T::link_names().iter().map(|x| x.to_string()).collect(),
    kinds: T::link_types().iter().map(|x| format!("{:?}", x)).collect(),
    data_names: T::data_names().iter().map(|x| x.to_string()).collect(),
    n_mirrors: ms.len(),
    log_counts: ms.iter().map(|m| T::to_link_or_groups(*m).iter().collect::<HashSet<_>>().len()).collect(),
    mirrors_distinct: ms.iter().collect::<HashSet<_>>().len() == ms.len(),
    // (a slot of a vector has no single source)
    source_round_trip: ms.iter().zip(T::link_types()).filter(|(_, k)| format!("{:?}", k) != "Vec").all(|(m, _)| T::to_link_mirror(T::to_source(*m)) == *m),
  }
}
/// What a node says about the name `name`
#[derive(Debug, Clone, PartialEq)]
pub struct NodeRefl {
  pub by_name: Vec<usize>,
  pub by_group: Vec<usize>,
  /// per data type of the table below: the value behind the reference, if any
  pub data: Vec<Option<u64>>,
  pub uid: Option<u64>,
  pub wrong: bool,
  pub known_log: bool,
  /// which links (by position) report belonging to the link-or-group `name`
  pub members: Vec<usize>,
}
fn data_all<F: Fn(usize) -> Option<u64>>(f: F) -> Vec<Option<u64>> { (0..13).map(f).collect() }
macro_rules! data_table { ($k:expr, $x:expr, $name:expr, $call:ident) => { match $k {
  0 => $x.$call::<u64>($name).map(|v| v.rd()),
  1 => $x.$call::<String>($name).map(|v| v.rd()),
  2 => $x.$call::<Option<u32>>($name).map(|v| v.rd()),
  3 => $x.$call::<(u8, u16)>($name).map(|v| v.rd()),
  4 => $x.$call::<[u8; 3]>($name).map(|v| v.rd()),
  5 => $x.$call::<Vec<u32>>($name).map(|v| v.rd()),
  6 => $x.$call::<Box<i64>>($name).map(|v| v.rd()),
  7 => $x.$call::<BTreeMap<u32, String>>($name).map(|v| v.rd()),
  8 => $x.$call::<Option<NodeIndex>>($name).map(|v| v.rd()),
  9 => $x.$call::<Vec<usize>>($name).map(|v| v.rd()),
  10 => $x.$call::<HashSet<usize>>($name).map(|v| v.rd()),
  11 => $x.$call::<(NodeIndex, u8)>($name).map(|v| v.rd()),
  _ => $x.$call::<Tok>($name).map(|v| v.rd()),
} } }
struct NoSuch;
pub fn typed_refl<T: TypedNode>(x: &T, name: &'static str) -> NodeRefl {
  let log = T::get_link_or_group_by_name(name);
  NodeRefl {
    by_name: x.get_links_by_name(name).map(|i| i.0).collect(),
    by_group: x.get_links_by_group(name).iter().map(|i| i.0).collect(),
    data: data_all(|k| data_table!(k, x, name, data_ref_by_name)),
    uid: x.data_ref_by_name::<Tok>(name).map(|v| v.rd()),
    wrong: x.data_ref_by_name::<NoSuch>(name).is_some() || x.data_ref_by_name::<i8>(name).is_some(),
    known_log: log.is_some(),
    members: match log {
      Some(g) => T::link_mirrors().iter().enumerate().filter(|(_, m)| T::to_link_or_groups(**m).contains(&g)).map(|(i, _)| i).collect(),
      None => vec![],
    },
  }
}
/// The same questions asked of the enum
pub fn enum_refl<N: NodeEnum>(x: &N, name: &'static str) -> (Vec<usize>, Vec<usize>, Vec<Option<u64>>, bool) {
  (
    x.get_links_by_name(name).map(|i| i.0).collect(),
    x.get_links_by_group(name).iter().map(|i| i.0).collect(),
    data_all(|k| data_table!(k, x, name, data_ref_by_name)),
    x.in_group(name),
  )
}
/// Per link mirror: the links iterated, and the sources reported by iter_sources for it
#[derive(Debug, Clone, PartialEq)]
pub struct MirrorRefl { pub links: Vec<usize>, pub sources: Vec<usize>, pub contains_all: bool, pub contains_other: bool }
pub fn mirror_refl<T: TypedNode>(x: &T) -> Vec<MirrorRefl> {
  T::link_mirrors().iter().map(|m| {
    let links: Vec<usize> = x.iter_links(*m).map(|i| i.0).collect();
    let sources = x.iter_sources().filter(|(_, s)| T::to_link_mirror(*s) == *m).map(|(i, _)| i.0).collect();
    let contains_all = links.iter().all(|l| x.contains_link(*m, NodeIndex(*l)));
    let contains_other = x.contains_link(*m, NodeIndex(usize::MAX - 3));
    MirrorRefl { links, sources, contains_all, contains_other }
  }).collect()
}

pub trait Schema: 'static {
  type N: NodeEnum + Serialize + DeserializeOwned + Debug + std::fmt::Display + Clone + Send + 'static;
  fn desc() -> &'static SchemaDesc;
  fn make(v: &NV) -> Self::N;
  fn read(n: &Self::N) -> NV;
  fn assign(n: &mut Self::N, v: &NV);
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant;
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex;
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV>;
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)>;
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn);
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn);
  fn static_refl(var: usize) -> StaticRefl;
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl;
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl>;
}
#[allow(dead_code)]
fn _unused(_: &dyn Any) {}
