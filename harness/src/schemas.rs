// generated by tools/gen_schemas.py 1 24: do not edit

pub mod s00p {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S00PEpsilonNode {
  pub table: HashSet<usize>,
  pub prev_item: Vec<NodeIndex>,
  #[group(outs)]
  pub owner_of: ttgraph::NodeIndex,
  #[group(grp_b)]
  #[group(linkset)]
  #[group(outs)]
  pub uses: collections::BTreeSet<NodeIndex>,
  pub weight: Vec<usize>,
  pub uid: Tok,
  pub pair: [u8; 3],
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S00PFzNode {
  #[group(grp_b, linkset)]
  pub uses: BTreeSet<NodeIndex>,
  #[group(grp_b, outs)]
  pub next: Vec<ttgraph::NodeIndex>,
  pub name: u64,
  pub uid: Tok,
  pub weight: Option<u32>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S00PDeltaXNode {
  #[group(linkset)]
  pub prev_item: Vec::<NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(outs)]
pub struct S00PBetaNodeNode {
  #[group(grp_b, linkset)]
  pub prev_item: ::std::vec::Vec<NodeIndex>,
  pub uid: Tok,
  pub opt: Option<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S00PGammaRayNode {
  pub uid: Tok,
  #[group(grp_b)]
  pub uses: ttgraph::NodeIndex,
  #[group(grp_b, linkset, outs)]
  pub kids: vec::Vec<NodeIndex>,
  #[group(grp_b)]
  #[group(linkset)]
  #[group(outs)]
  pub left_most_link: HashSet<NodeIndex>,
  #[group(grp_b, linkset, outs)]
  pub owner_of: ::indexmap::IndexSet<NodeIndex>,
  #[group(linkset, outs)]
  pub ref_b: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S00PAlphaNode {
  pub uid: Tok,
  #[group(grp_b, linkset)]
  pub owner_of: collections::BTreeSet<NodeIndex>,
  #[group(linkset)]
  pub uses: indexmap::set::IndexSet<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS00P { Epsilon(S00PEpsilonNode), Fz(S00PFzNode), DeltaX(S00PDeltaXNode), BetaNode(S00PBetaNodeNode), GammaRay(S00PGammaRayNode), Alpha(S00PAlphaNode) }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s00p", fam: 'p', variants: &[
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "prev_item", kind: Kind::V, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::D, groups: &["outs"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b", "linkset", "outs"] }], data: &[DataDesc { name: "pair", ty: 4 }, DataDesc { name: "table", ty: 10 }, DataDesc { name: "weight", ty: 9 }], data_order: &["table", "weight", "uid", "pair"], groups: &["grp_b", "linkset", "outs"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b", "linkset"] }, LinkDesc { name: "next", kind: Kind::V, groups: &["grp_b", "outs"] }], data: &[DataDesc { name: "name", ty: 0 }, DataDesc { name: "weight", ty: 2 }], data_order: &["name", "uid", "weight"], groups: &["grp_b", "linkset", "outs"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "prev_item", kind: Kind::V, groups: &["linkset"] }], data: &[], data_order: &["uid"], groups: &["linkset"], phantom: &["grp_b"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "prev_item", kind: Kind::V, groups: &["grp_b", "linkset"] }], data: &[DataDesc { name: "opt", ty: 8 }], data_order: &["uid", "opt"], groups: &["grp_b", "linkset"], phantom: &["outs"] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "uses", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "kids", kind: Kind::V, groups: &["grp_b", "linkset", "outs"] }, LinkDesc { name: "left_most_link", kind: Kind::S, groups: &["grp_b", "linkset", "outs"] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["grp_b", "linkset", "outs"] }, LinkDesc { name: "ref_b", kind: Kind::D, groups: &["linkset", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "linkset", "outs"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "owner_of", kind: Kind::S, groups: &["grp_b", "linkset"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["linkset"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "linkset"], phantom: &[] },
], groups: &[],
  pairs: &[],
  types: &[] };
fn mk_0(v: &NV) -> S00PEpsilonNode { S00PEpsilonNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]), pair: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), weight: Dat::mk(v.data[2]), } }
fn rd_0(x: &S00PEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.owner_of.rd(), x.uses.rd()], data: vec![x.pair.rd(), x.table.rd(), x.weight.rd()] } }
fn wr_0(x: &mut S00PEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); } x.pair = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); x.weight = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S00PFzNode { S00PFzNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), next: LinkF::mk(&v.links[1]), name: Dat::mk(v.data[0]), weight: Dat::mk(v.data[1]), } }
fn rd_1(x: &S00PFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd(), x.next.rd()], data: vec![x.name.rd(), x.weight.rd()] } }
fn wr_1(x: &mut S00PFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } if x.next.rd() != v.links[1] { x.next = LinkF::mk(&v.links[1]); } x.name = Dat::mk(v.data[0]); x.weight = Dat::mk(v.data[1]); }
fn mk_2(v: &NV) -> S00PDeltaXNode { S00PDeltaXNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]),  } }
fn rd_2(x: &S00PDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd()], data: vec![] } }
fn wr_2(x: &mut S00PDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); }  }
fn mk_3(v: &NV) -> S00PBetaNodeNode { S00PBetaNodeNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), } }
fn rd_3(x: &S00PBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd()], data: vec![x.opt.rd()] } }
fn wr_3(x: &mut S00PBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); }
fn mk_4(v: &NV) -> S00PGammaRayNode { S00PGammaRayNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), left_most_link: LinkF::mk(&v.links[2]), owner_of: LinkF::mk(&v.links[3]), ref_b: LinkF::mk(&v.links[4]),  } }
fn rd_4(x: &S00PGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd(), x.kids.rd(), x.left_most_link.rd(), x.owner_of.rd(), x.ref_b.rd()], data: vec![] } }
fn wr_4(x: &mut S00PGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } if x.left_most_link.rd() != v.links[2] { x.left_most_link = LinkF::mk(&v.links[2]); } if x.owner_of.rd() != v.links[3] { x.owner_of = LinkF::mk(&v.links[3]); } if x.ref_b.rd() != v.links[4] { x.ref_b = LinkF::mk(&v.links[4]); }  }
fn mk_5(v: &NV) -> S00PAlphaNode { S00PAlphaNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]),  } }
fn rd_5(x: &S00PAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd(), x.uses.rd()], data: vec![] } }
fn wr_5(x: &mut S00PAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); }  }
impl std::fmt::Display for NS00P { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS00P;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS00P::Epsilon(mk_0(v)), 1 => NS00P::Fz(mk_1(v)), 2 => NS00P::DeltaX(mk_2(v)), 3 => NS00P::BetaNode(mk_3(v)), 4 => NS00P::GammaRay(mk_4(v)), 5 => NS00P::Alpha(mk_5(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS00P::Epsilon(x) => rd_0(x, 0), NS00P::Fz(x) => rd_1(x, 1), NS00P::DeltaX(x) => rd_2(x, 2), NS00P::BetaNode(x) => rd_3(x, 3), NS00P::GammaRay(x) => rd_4(x, 4), NS00P::Alpha(x) => rd_5(x, 5), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS00P::Epsilon(x), 0) => wr_0(x, v), (NS00P::Fz(x), 1) => wr_1(x, v), (NS00P::DeltaX(x), 2) => wr_2(x, v), (NS00P::BetaNode(x), 3) => wr_3(x, v), (NS00P::GammaRay(x), 4) => wr_4(x, v), (NS00P::Alpha(x), 5) => wr_5(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS00P::Epsilon), 1 => discriminant!(NS00P::Fz), 2 => discriminant!(NS00P::DeltaX), 3 => discriminant!(NS00P::BetaNode), 4 => discriminant!(NS00P::GammaRay), 5 => discriminant!(NS00P::Alpha), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS00P::Epsilon), 1 => alloc_node!(t, NS00P::Fz), 2 => alloc_node!(t, NS00P::DeltaX), 3 => alloc_node!(t, NS00P::BetaNode), 4 => alloc_node!(t, NS00P::GammaRay), 5 => alloc_node!(t, NS00P::Alpha), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS00P::Epsilon, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS00P::Fz, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS00P::DeltaX, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS00P::BetaNode, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS00P::GammaRay, idx).map(|x| rd_4(x, 4)), 5 => get_node!(g, NS00P::Alpha, idx).map(|x| rd_5(x, 5)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS00P::Epsilon).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS00P::Fz).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS00P::DeltaX).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS00P::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS00P::GammaRay).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), 5 => iter_nodes!(g, NS00P::Alpha).map(|(k, x)| (k.0, rd_5(x, 5))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS00P::Epsilon, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS00P::Epsilon, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS00P::Epsilon, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS00P::Fz, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS00P::Fz, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS00P::Fz, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS00P::DeltaX, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS00P::DeltaX, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS00P::DeltaX, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS00P::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS00P::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS00P::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS00P::GammaRay, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS00P::GammaRay, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS00P::GammaRay, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } (5, 0) => { mut_node!(t, NS00P::Alpha, idx, move |x| { let n = f(rd_5(x, 5)); wr_5(x, &n) });  } (5, 1) => { mut_node!(t, NS00P::Alpha, idx, |node| { let n = f(rd_5(node, 5)); wr_5(node, &n) });  } (5, 2) => { mut_node!(t, NS00P::Alpha, idx, y, { let n = f(rd_5(y, 5)); wr_5(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS00P::Epsilon, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS00P::Epsilon, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS00P::Epsilon, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS00P::Fz, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS00P::Fz, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS00P::Fz, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS00P::DeltaX, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS00P::DeltaX, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS00P::DeltaX, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS00P::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS00P::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS00P::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS00P::GammaRay, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS00P::GammaRay, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS00P::GammaRay, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } (5, 0) => { update_node!(t, NS00P::Alpha, idx, move |x| { let n = f(rd_5(&x, 5)); mk_5(&n) });  } (5, 1) => { update_node!(t, NS00P::Alpha, idx, |node| { let n = f(rd_5(&node, 5)); mk_5(&n) });  } (5, 2) => { update_node!(t, NS00P::Alpha, idx, y, { let n = f(rd_5(&y, 5)); mk_5(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S00PEpsilonNode>(), 1 => static_refl::<S00PFzNode>(), 2 => static_refl::<S00PDeltaXNode>(), 3 => static_refl::<S00PBetaNodeNode>(), 4 => static_refl::<S00PGammaRayNode>(), 5 => static_refl::<S00PAlphaNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS00P::Epsilon(x) => typed_refl(x, name), NS00P::Fz(x) => typed_refl(x, name), NS00P::DeltaX(x) => typed_refl(x, name), NS00P::BetaNode(x) => typed_refl(x, name), NS00P::GammaRay(x) => typed_refl(x, name), NS00P::Alpha(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS00P::Epsilon(x) => mirror_refl(x), NS00P::Fz(x) => mirror_refl(x), NS00P::DeltaX(x) => mirror_refl(x), NS00P::BetaNode(x) => mirror_refl(x), NS00P::GammaRay(x) => mirror_refl(x), NS00P::Alpha(x) => mirror_refl(x), } }
}
}

pub mod s01t {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S01TLongVariantNameNode {
  #[allow(dead_code)]
  #[group(linkset)]
  #[group(grp)]
  #[group(outs)]
  pub uses: Vec<ttgraph::NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
#[phantom_group(outs)]
pub struct S01TDeltaXNode {
  #[doc(hidden)]
  pub value: u64,
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
  #[allow(dead_code)]
  #[group(linkset)]
  pub zz: collections::HashSet<NodeIndex>,
  #[cfg_attr(all(), allow(unused))]
  #[group(linkset)]
  pub kids: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(linkset)]
pub struct S01TEpsilonNode {
  #[cfg_attr(all(), allow(unused))]
  #[group(outs)]
  pub uses: Vec<ttgraph::NodeIndex>,
  #[allow(unused)]
  pub name: String,
  #[doc(hidden)]
  pub uid: Tok,
  /// the field `table` of #[group(nowhere)]
  pub table: Box<i64>,
  #[allow(dead_code)]
  pub a: ::std::collections::BTreeSet<NodeIndex>,
  pub arr3: Option<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS01T { LongVariantName(S01TLongVariantNameNode), DeltaX(S01TDeltaXNode), Epsilon(S01TEpsilonNode) }
  group! { tg_x{LongVariantName, Epsilon, DeltaX}, tgtwo{LongVariantName, Epsilon, DeltaX}, tg_one{Epsilon, DeltaX} }
  link_type! { DeltaX.linkset: DeltaX, LongVariantName.grp: {tgtwo}, LongVariantName.outs: {DeltaX, Epsilon}, LongVariantName.outs: {LongVariantName} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s01t", fam: 't', variants: &[
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "uses", kind: Kind::V, groups: &["linkset", "grp", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "linkset", "outs"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "kids", kind: Kind::D, groups: &["linkset"] }], data: &[DataDesc { name: "value", ty: 0 }], data_order: &["value", "uid"], groups: &["linkset"], phantom: &["grp", "outs"] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "uses", kind: Kind::V, groups: &["outs"] }, LinkDesc { name: "a", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "arr3", ty: 8 }, DataDesc { name: "table", ty: 6 }, DataDesc { name: "name", ty: 1 }], data_order: &["name", "uid", "table", "arr3"], groups: &["outs"], phantom: &["linkset"] },
], groups: &[("tg_x", &[0, 2, 1]), ("tgtwo", &[0, 2, 1]), ("tg_one", &[2, 1])],
  pairs: &[],
  types: &[((0, 0), &[0]), ((0, 0), &[0, 1, 2]), ((0, 0), &[1, 2]), ((1, 0), &[1]), ((1, 1), &[1])] };
fn mk_0(v: &NV) -> S01TLongVariantNameNode { S01TLongVariantNameNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]),  } }
fn rd_0(x: &S01TLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd()], data: vec![] } }
fn wr_0(x: &mut S01TLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); }  }
fn mk_1(v: &NV) -> S01TDeltaXNode { S01TDeltaXNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), } }
fn rd_1(x: &S01TDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.kids.rd()], data: vec![x.value.rd()] } }
fn wr_1(x: &mut S01TDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S01TEpsilonNode { S01TEpsilonNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), arr3: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), name: Dat::mk(v.data[2]), } }
fn rd_2(x: &S01TEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd(), x.a.rd()], data: vec![x.arr3.rd(), x.table.rd(), x.name.rd()] } }
fn wr_2(x: &mut S01TEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } x.arr3 = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); x.name = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS01T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS01T;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS01T::LongVariantName(mk_0(v)), 1 => NS01T::DeltaX(mk_1(v)), 2 => NS01T::Epsilon(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS01T::LongVariantName(x) => rd_0(x, 0), NS01T::DeltaX(x) => rd_1(x, 1), NS01T::Epsilon(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS01T::LongVariantName(x), 0) => wr_0(x, v), (NS01T::DeltaX(x), 1) => wr_1(x, v), (NS01T::Epsilon(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS01T::LongVariantName), 1 => discriminant!(NS01T::DeltaX), 2 => discriminant!(NS01T::Epsilon), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS01T::LongVariantName), 1 => alloc_node!(t, NS01T::DeltaX), 2 => alloc_node!(t, NS01T::Epsilon), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS01T::LongVariantName, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS01T::DeltaX, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS01T::Epsilon, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS01T::LongVariantName).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS01T::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS01T::Epsilon).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS01T::LongVariantName, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS01T::LongVariantName, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS01T::LongVariantName, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS01T::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS01T::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS01T::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS01T::Epsilon, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS01T::Epsilon, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS01T::Epsilon, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS01T::LongVariantName, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS01T::LongVariantName, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS01T::LongVariantName, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS01T::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS01T::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS01T::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS01T::Epsilon, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS01T::Epsilon, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS01T::Epsilon, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S01TLongVariantNameNode>(), 1 => static_refl::<S01TDeltaXNode>(), 2 => static_refl::<S01TEpsilonNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS01T::LongVariantName(x) => typed_refl(x, name), NS01T::DeltaX(x) => typed_refl(x, name), NS01T::Epsilon(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS01T::LongVariantName(x) => mirror_refl(x), NS01T::DeltaX(x) => mirror_refl(x), NS01T::Epsilon(x) => mirror_refl(x), } }
}
}

pub mod s02b {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(linkset)]
pub struct S02BLoopNode {
  pub pair: BTreeMap<u32, String>,
  pub zz: indexmap::set::IndexSet<NodeIndex>,
  #[group(outs)]
  pub x1: ::std::collections::BTreeSet<NodeIndex>,
  pub uid: Tok,
  pub meta_data: HashSet<usize>,
  pub value: HashSet<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S02BSuperNode {
  pub uid: Tok,
  pub value: Box<i64>,
  #[group(outs, linkset)]
  pub left_most_link: NodeIndex,
  #[group(outs)]
  #[group(linkset)]
  pub a: ordermap::OrderSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S02BCNode {
  #[group(outs)]
  pub in_: NodeIndex,
  pub opt: Vec<usize>,
  pub uid: Tok,
  pub table: Option<u32>,
  pub meta_data: u64,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS02B { Loop(S02BLoopNode), Super(S02BSuperNode), C(S02BCNode) }
  bidirectional! { Loop.x1 <-> Super.linkset }
  group! { tg_all{C, Loop, Super} }
  bidirectional! { Super.linkset <-> Super.linkset }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s02b", fam: 'b', variants: &[
  VariantDesc { name: "Loop", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["outs"] }], data: &[DataDesc { name: "value", ty: 10 }, DataDesc { name: "meta_data", ty: 10 }, DataDesc { name: "pair", ty: 7 }], data_order: &["pair", "uid", "meta_data", "value"], groups: &["outs"], phantom: &["linkset"] },
  VariantDesc { name: "Super", links: &[LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["outs", "linkset"] }, LinkDesc { name: "a", kind: Kind::S, groups: &["outs", "linkset"] }], data: &[DataDesc { name: "value", ty: 6 }], data_order: &["uid", "value"], groups: &["linkset", "outs"], phantom: &[] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "in_", kind: Kind::D, groups: &["outs"] }], data: &[DataDesc { name: "opt", ty: 9 }, DataDesc { name: "meta_data", ty: 0 }, DataDesc { name: "table", ty: 2 }], data_order: &["opt", "uid", "table", "meta_data"], groups: &["outs"], phantom: &[] },
], groups: &[("tg_all", &[2, 0, 1])],
  pairs: &[((0, 1), (1, 0)), ((0, 1), (1, 1)), ((1, 0), (0, 1)), ((1, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((1, 1), (1, 0)), ((1, 1), (1, 1))],
  types: &[] };
fn mk_0(v: &NV) -> S02BLoopNode { S02BLoopNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), meta_data: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_0(x: &S02BLoopNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.x1.rd()], data: vec![x.value.rd(), x.meta_data.rd(), x.pair.rd()] } }
fn wr_0(x: &mut S02BLoopNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); x.meta_data = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S02BSuperNode { S02BSuperNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), } }
fn rd_1(x: &S02BSuperNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.a.rd()], data: vec![x.value.rd()] } }
fn wr_1(x: &mut S02BSuperNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S02BCNode { S02BCNode { uid: Tok::mk(v.uid), in_: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), meta_data: Dat::mk(v.data[1]), table: Dat::mk(v.data[2]), } }
fn rd_2(x: &S02BCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_.rd()], data: vec![x.opt.rd(), x.meta_data.rd(), x.table.rd()] } }
fn wr_2(x: &mut S02BCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_.rd() != v.links[0] { x.in_ = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); x.meta_data = Dat::mk(v.data[1]); x.table = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS02B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS02B;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS02B::Loop(mk_0(v)), 1 => NS02B::Super(mk_1(v)), 2 => NS02B::C(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS02B::Loop(x) => rd_0(x, 0), NS02B::Super(x) => rd_1(x, 1), NS02B::C(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS02B::Loop(x), 0) => wr_0(x, v), (NS02B::Super(x), 1) => wr_1(x, v), (NS02B::C(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS02B::Loop), 1 => discriminant!(NS02B::Super), 2 => discriminant!(NS02B::C), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS02B::Loop), 1 => alloc_node!(t, NS02B::Super), 2 => alloc_node!(t, NS02B::C), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS02B::Loop, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS02B::Super, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS02B::C, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS02B::Loop).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS02B::Super).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS02B::C).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS02B::Loop, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS02B::Loop, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS02B::Loop, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS02B::Super, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS02B::Super, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS02B::Super, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS02B::C, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS02B::C, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS02B::C, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS02B::Loop, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS02B::Loop, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS02B::Loop, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS02B::Super, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS02B::Super, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS02B::Super, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS02B::C, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS02B::C, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS02B::C, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S02BLoopNode>(), 1 => static_refl::<S02BSuperNode>(), 2 => static_refl::<S02BCNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS02B::Loop(x) => typed_refl(x, name), NS02B::Super(x) => typed_refl(x, name), NS02B::C(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS02B::Loop(x) => mirror_refl(x), NS02B::Super(x) => mirror_refl(x), NS02B::C(x) => mirror_refl(x), } }
}
}

pub mod s03g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S03GFzNode {
  #[group(grp, outs)]
  pub owner_of: ttgraph::NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S03GBetaNodeNode {
  #[group(grp)]
  #[group(outs)]
  pub zz: ::indexmap::set::IndexSet<NodeIndex>,
  pub in_edges: ttgraph::NodeIndex,
  pub meta_data: Vec<u32>,
  #[group(outs)]
  pub tos: std::vec::Vec<NodeIndex>,
  #[group(grp)]
  #[group(outs)]
  pub a: NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S03GLongVariantNameNode {
  pub uid: Tok,
  #[group(grp)]
  pub zz: OrderSet<NodeIndex>,
  pub prev_item: ::std::collections::HashSet<ttgraph::NodeIndex>,
  #[group(grp, outs)]
  pub x1: ::ordermap::OrderSet<NodeIndex>,
  #[group(outs)]
  pub next: NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS03G { Fz(super::s03g::S03GFzNode), BetaNode(self::S03GBetaNodeNode), LongVariantName(crate::schemas::s03g::S03GLongVariantNameNode) }
  bidirectional! { Fz.outs <-> tg_x.x1, tg_x.outs <-> LongVariantName.outs, tg_x.next <-> LongVariantName.next }
  bidirectional! { tg_x.prev_item <-> tgtwo.grp }
  link_type! { tg_x.next: {Fz, LongVariantName}, BetaNode.a: {Fz, BetaNode}, BetaNode.tos: LongVariantName, LongVariantName.x1: {tg_one, LongVariantName}, BetaNode.grp: tgtwo, BetaNode.grp: {LongVariantName, Fz}, }
  group! { tgtwo{BetaNode, Fz, LongVariantName}, tg_one{Fz, LongVariantName}, tg_x{LongVariantName} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s03g", fam: 'g', variants: &[
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "owner_of", kind: Kind::D, groups: &["grp", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "outs"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp", "outs"] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &[] }, LinkDesc { name: "tos", kind: Kind::V, groups: &["outs"] }, LinkDesc { name: "a", kind: Kind::D, groups: &["grp", "outs"] }], data: &[DataDesc { name: "meta_data", ty: 5 }], data_order: &["meta_data", "uid"], groups: &["grp", "outs"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["grp", "outs"] }, LinkDesc { name: "next", kind: Kind::D, groups: &["outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "outs"], phantom: &[] },
], groups: &[("tgtwo", &[1, 0, 2]), ("tg_one", &[0, 2]), ("tg_x", &[2])],
  pairs: &[((0, 0), (2, 1)), ((0, 0), (2, 2)), ((1, 0), (2, 1)), ((1, 3), (2, 1)), ((2, 0), (2, 1)), ((2, 1), (0, 0)), ((2, 1), (1, 0)), ((2, 1), (1, 3)), ((2, 1), (2, 0)), ((2, 1), (2, 2)), ((2, 2), (0, 0)), ((2, 2), (2, 1)), ((2, 2), (2, 2)), ((2, 2), (2, 3)), ((2, 3), (2, 2)), ((2, 3), (2, 3))],
  types: &[((1, 0), &[0, 1, 2]), ((1, 0), &[0, 2]), ((1, 2), &[2]), ((1, 3), &[0, 1]), ((1, 3), &[0, 1, 2]), ((1, 3), &[0, 2]), ((2, 2), &[0, 2]), ((2, 3), &[0, 2])] };
fn mk_0(v: &NV) -> S03GFzNode { S03GFzNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]),  } }
fn rd_0(x: &S03GFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd()], data: vec![] } }
fn wr_0(x: &mut S03GFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); }  }
fn mk_1(v: &NV) -> S03GBetaNodeNode { S03GBetaNodeNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), in_edges: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), meta_data: Dat::mk(v.data[0]), } }
fn rd_1(x: &S03GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.in_edges.rd(), x.tos.rd(), x.a.rd()], data: vec![x.meta_data.rd()] } }
fn wr_1(x: &mut S03GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.in_edges.rd() != v.links[1] { x.in_edges = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } x.meta_data = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S03GLongVariantNameNode { S03GLongVariantNameNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]), next: LinkF::mk(&v.links[3]),  } }
fn rd_2(x: &S03GLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.prev_item.rd(), x.x1.rd(), x.next.rd()], data: vec![] } }
fn wr_2(x: &mut S03GLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); } if x.next.rd() != v.links[3] { x.next = LinkF::mk(&v.links[3]); }  }
impl std::fmt::Display for NS03G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS03G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS03G::Fz(mk_0(v)), 1 => NS03G::BetaNode(mk_1(v)), 2 => NS03G::LongVariantName(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS03G::Fz(x) => rd_0(x, 0), NS03G::BetaNode(x) => rd_1(x, 1), NS03G::LongVariantName(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS03G::Fz(x), 0) => wr_0(x, v), (NS03G::BetaNode(x), 1) => wr_1(x, v), (NS03G::LongVariantName(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS03G::Fz), 1 => discriminant!(NS03G::BetaNode), 2 => discriminant!(NS03G::LongVariantName), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS03G::Fz), 1 => alloc_node!(t, NS03G::BetaNode), 2 => alloc_node!(t, NS03G::LongVariantName), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS03G::Fz, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS03G::BetaNode, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS03G::LongVariantName, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS03G::Fz).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS03G::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS03G::LongVariantName).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS03G::Fz, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS03G::Fz, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS03G::Fz, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS03G::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS03G::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS03G::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS03G::LongVariantName, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS03G::LongVariantName, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS03G::LongVariantName, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS03G::Fz, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS03G::Fz, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS03G::Fz, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS03G::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS03G::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS03G::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS03G::LongVariantName, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS03G::LongVariantName, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS03G::LongVariantName, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S03GFzNode>(), 1 => static_refl::<S03GBetaNodeNode>(), 2 => static_refl::<S03GLongVariantNameNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS03G::Fz(x) => typed_refl(x, name), NS03G::BetaNode(x) => typed_refl(x, name), NS03G::LongVariantName(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS03G::Fz(x) => mirror_refl(x), NS03G::BetaNode(x) => mirror_refl(x), NS03G::LongVariantName(x) => mirror_refl(x), } }
}
}

pub mod s03x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S03XFzNode {
  pub uid: Tok,
  #[group(grp, outs)]
  pub owner_of: ttgraph::NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S03XBetaNodeNode {
  pub meta_data: Vec<u32>,
  #[group(grp)]
  #[group(outs)]
  pub zz: ::indexmap::set::IndexSet<NodeIndex>,
  pub in_edges: ttgraph::NodeIndex,
  pub uid: Tok,
  #[group(outs)]
  pub tos: std::vec::Vec<NodeIndex>,
  #[group(grp, outs)]
  pub a: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S03XLongVariantNameNode {
  #[group(grp)]
  pub zz: OrderSet<NodeIndex>,
  pub uid: Tok,
  pub prev_item: ::std::collections::HashSet<ttgraph::NodeIndex>,
  #[group(grp)]
  #[group(outs)]
  pub x1: ::ordermap::OrderSet<NodeIndex>,
  #[group(outs)]
  pub next: NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS03X { Fz(super::s03x::S03XFzNode), BetaNode(self::S03XBetaNodeNode), LongVariantName(crate::schemas::s03x::S03XLongVariantNameNode) }
  link_type! { BetaNode.zz: {Fz, LongVariantName}, BetaNode.tos: LongVariantName }
  group! { tgtwo{BetaNode, Fz, LongVariantName}, tg_one{Fz, LongVariantName} }
  group! { tg_x{LongVariantName}, }
  link_type! { BetaNode.a: {Fz}, LongVariantName.x1: {Fz, LongVariantName}, LongVariantName.next: {Fz, LongVariantName} }
  bidirectional! { Fz.owner_of <-> LongVariantName.prev_item, Fz.owner_of <-> LongVariantName.x1, BetaNode.zz <-> LongVariantName.prev_item, BetaNode.a <-> LongVariantName.prev_item, LongVariantName.zz <-> LongVariantName.prev_item, LongVariantName.prev_item <-> LongVariantName.x1, LongVariantName.x1 <-> LongVariantName.x1, LongVariantName.x1 <-> LongVariantName.next, LongVariantName.next <-> LongVariantName.next }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s03x", fam: 'x', variants: &[
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "owner_of", kind: Kind::D, groups: &["grp", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "outs"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp", "outs"] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &[] }, LinkDesc { name: "tos", kind: Kind::V, groups: &["outs"] }, LinkDesc { name: "a", kind: Kind::D, groups: &["grp", "outs"] }], data: &[DataDesc { name: "meta_data", ty: 5 }], data_order: &["meta_data", "uid"], groups: &["grp", "outs"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["grp", "outs"] }, LinkDesc { name: "next", kind: Kind::D, groups: &["outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "outs"], phantom: &[] },
], groups: &[("tgtwo", &[1, 0, 2]), ("tg_one", &[0, 2]), ("tg_x", &[2])],
  pairs: &[((0, 0), (2, 1)), ((0, 0), (2, 2)), ((1, 0), (2, 1)), ((1, 3), (2, 1)), ((2, 0), (2, 1)), ((2, 1), (0, 0)), ((2, 1), (1, 0)), ((2, 1), (1, 3)), ((2, 1), (2, 0)), ((2, 1), (2, 2)), ((2, 2), (0, 0)), ((2, 2), (2, 1)), ((2, 2), (2, 2)), ((2, 2), (2, 3)), ((2, 3), (2, 2)), ((2, 3), (2, 3))],
  types: &[((1, 0), &[0, 2]), ((1, 2), &[2]), ((1, 3), &[0]), ((2, 2), &[0, 2]), ((2, 3), &[0, 2])] };
fn mk_0(v: &NV) -> S03XFzNode { S03XFzNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]),  } }
fn rd_0(x: &S03XFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd()], data: vec![] } }
fn wr_0(x: &mut S03XFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); }  }
fn mk_1(v: &NV) -> S03XBetaNodeNode { S03XBetaNodeNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), in_edges: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), meta_data: Dat::mk(v.data[0]), } }
fn rd_1(x: &S03XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.in_edges.rd(), x.tos.rd(), x.a.rd()], data: vec![x.meta_data.rd()] } }
fn wr_1(x: &mut S03XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.in_edges.rd() != v.links[1] { x.in_edges = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } x.meta_data = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S03XLongVariantNameNode { S03XLongVariantNameNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]), next: LinkF::mk(&v.links[3]),  } }
fn rd_2(x: &S03XLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.prev_item.rd(), x.x1.rd(), x.next.rd()], data: vec![] } }
fn wr_2(x: &mut S03XLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); } if x.next.rd() != v.links[3] { x.next = LinkF::mk(&v.links[3]); }  }
impl std::fmt::Display for NS03X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS03X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS03X::Fz(mk_0(v)), 1 => NS03X::BetaNode(mk_1(v)), 2 => NS03X::LongVariantName(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS03X::Fz(x) => rd_0(x, 0), NS03X::BetaNode(x) => rd_1(x, 1), NS03X::LongVariantName(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS03X::Fz(x), 0) => wr_0(x, v), (NS03X::BetaNode(x), 1) => wr_1(x, v), (NS03X::LongVariantName(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS03X::Fz), 1 => discriminant!(NS03X::BetaNode), 2 => discriminant!(NS03X::LongVariantName), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS03X::Fz), 1 => alloc_node!(t, NS03X::BetaNode), 2 => alloc_node!(t, NS03X::LongVariantName), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS03X::Fz, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS03X::BetaNode, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS03X::LongVariantName, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS03X::Fz).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS03X::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS03X::LongVariantName).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS03X::Fz, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS03X::Fz, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS03X::Fz, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS03X::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS03X::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS03X::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS03X::LongVariantName, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS03X::LongVariantName, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS03X::LongVariantName, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS03X::Fz, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS03X::Fz, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS03X::Fz, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS03X::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS03X::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS03X::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS03X::LongVariantName, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS03X::LongVariantName, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS03X::LongVariantName, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S03XFzNode>(), 1 => static_refl::<S03XBetaNodeNode>(), 2 => static_refl::<S03XLongVariantNameNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS03X::Fz(x) => typed_refl(x, name), NS03X::BetaNode(x) => typed_refl(x, name), NS03X::LongVariantName(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS03X::Fz(x) => mirror_refl(x), NS03X::BetaNode(x) => mirror_refl(x), NS03X::LongVariantName(x) => mirror_refl(x), } }
}
}

pub mod s04m {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(linkset)]
pub struct S04MBetaNodeNode {
  #[allow(dead_code)]
  #[group(grp_b)]
  pub prev_item: NodeIndex,
  pub uid: Tok,
  #[allow(unused)]
  pub weight: HashSet<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S04MFzNode {
  #[allow(unused)]
  pub pair: Vec<u32>,
  #[doc(hidden)]
  pub left_most_link: BTreeSet<NodeIndex>,
  /// the field `name` of #[group(nowhere)]
  pub name: Option<NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
  #[cfg_attr(all(), allow(unused))]
  pub tos: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S04MGammaRayNode {
  #[allow(dead_code)]
  pub x1: collections::BTreeSet<NodeIndex>,
  #[cfg_attr(all(), allow(unused))]
  #[group(grp_b)]
  pub prev_item: ttgraph::NodeIndex,
  #[allow(unused)]
  pub pair: Box<i64>,
  #[group(linkset, grp_b)]
  #[doc(hidden)]
  pub zz: std::collections::HashSet<NodeIndex>,
  /// the field `peer` of #[group(nowhere)]
  #[group(linkset)]
  pub peer: BTreeSet<NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
  pub meta_data: (u8, u16),
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S04MDeltaXNode {
  /// the field `tos` of #[group(nowhere)]
  #[group(grp_b)]
  pub tos: BTreeSet<NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
  #[cfg_attr(all(), allow(unused))]
  #[group(linkset)]
  pub owner_of: std::collections::HashSet<NodeIndex>,
  #[group(grp_b)]
  #[allow(unused)]
  pub kids: collections::HashSet<NodeIndex>,
  #[group(grp_b)]
  #[doc(hidden)]
  pub next: indexmap::IndexSet<ttgraph::NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS04M { BetaNode(S04MBetaNodeNode), Fz(S04MFzNode), GammaRay(S04MGammaRayNode), DeltaX(S04MDeltaXNode) }
  bidirectional! { tgtwo.grp_b <-> tg_x.grp_b, tg_x.grp_b <-> DeltaX.owner_of, tg_one.prev_item <-> tg_one.grp_b, tg_x.left_most_link <-> tg_one.peer }
  group! { tg_one{GammaRay}, tg_x{Fz}, tgtwo{Fz, DeltaX}, }
  link_type! { GammaRay.grp_b: {tg_x}, tgtwo.grp_b: {Fz, tg_one, BetaNode}, tg_one.prev_item: tgtwo, DeltaX.tos: tgtwo, DeltaX.tos: {DeltaX, BetaNode, Fz} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s04m", fam: 'm', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp_b"] }], data: &[DataDesc { name: "weight", ty: 10 }], data_order: &["uid", "weight"], groups: &["grp_b"], phantom: &["linkset"] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "name", ty: 8 }, DataDesc { name: "pair", ty: 5 }], data_order: &["pair", "name", "uid"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "zz", kind: Kind::S, groups: &["linkset", "grp_b"] }, LinkDesc { name: "peer", kind: Kind::S, groups: &["linkset"] }], data: &[DataDesc { name: "meta_data", ty: 3 }, DataDesc { name: "pair", ty: 6 }], data_order: &["pair", "uid", "meta_data"], groups: &["grp_b", "linkset"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "tos", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "kids", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "linkset"], phantom: &[] },
], groups: &[("tg_one", &[2]), ("tg_x", &[1]), ("tgtwo", &[1, 3])],
  pairs: &[((1, 0), (2, 3)), ((2, 1), (2, 1)), ((2, 1), (2, 2)), ((2, 2), (2, 1)), ((2, 3), (1, 0))],
  types: &[((2, 1), &[1]), ((2, 1), &[1, 3]), ((2, 2), &[1]), ((3, 0), &[0, 1, 2]), ((3, 0), &[0, 1, 3]), ((3, 0), &[1, 3]), ((3, 2), &[0, 1, 2]), ((3, 3), &[0, 1, 2])] };
fn mk_0(v: &NV) -> S04MBetaNodeNode { S04MBetaNodeNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), weight: Dat::mk(v.data[0]), } }
fn rd_0(x: &S04MBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd()], data: vec![x.weight.rd()] } }
fn wr_0(x: &mut S04MBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } x.weight = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S04MFzNode { S04MFzNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), name: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_1(x: &S04MFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.tos.rd()], data: vec![x.name.rd(), x.pair.rd()] } }
fn wr_1(x: &mut S04MFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } x.name = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_2(v: &NV) -> S04MGammaRayNode { S04MGammaRayNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), zz: LinkF::mk(&v.links[2]), peer: LinkF::mk(&v.links[3]), meta_data: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_2(x: &S04MGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.prev_item.rd(), x.zz.rd(), x.peer.rd()], data: vec![x.meta_data.rd(), x.pair.rd()] } }
fn wr_2(x: &mut S04MGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } if x.zz.rd() != v.links[2] { x.zz = LinkF::mk(&v.links[2]); } if x.peer.rd() != v.links[3] { x.peer = LinkF::mk(&v.links[3]); } x.meta_data = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S04MDeltaXNode { S04MDeltaXNode { uid: Tok::mk(v.uid), tos: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), kids: LinkF::mk(&v.links[2]), next: LinkF::mk(&v.links[3]),  } }
fn rd_3(x: &S04MDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.tos.rd(), x.owner_of.rd(), x.kids.rd(), x.next.rd()], data: vec![] } }
fn wr_3(x: &mut S04MDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.tos.rd() != v.links[0] { x.tos = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } if x.kids.rd() != v.links[2] { x.kids = LinkF::mk(&v.links[2]); } if x.next.rd() != v.links[3] { x.next = LinkF::mk(&v.links[3]); }  }
impl std::fmt::Display for NS04M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS04M;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS04M::BetaNode(mk_0(v)), 1 => NS04M::Fz(mk_1(v)), 2 => NS04M::GammaRay(mk_2(v)), 3 => NS04M::DeltaX(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS04M::BetaNode(x) => rd_0(x, 0), NS04M::Fz(x) => rd_1(x, 1), NS04M::GammaRay(x) => rd_2(x, 2), NS04M::DeltaX(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS04M::BetaNode(x), 0) => wr_0(x, v), (NS04M::Fz(x), 1) => wr_1(x, v), (NS04M::GammaRay(x), 2) => wr_2(x, v), (NS04M::DeltaX(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS04M::BetaNode), 1 => discriminant!(NS04M::Fz), 2 => discriminant!(NS04M::GammaRay), 3 => discriminant!(NS04M::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS04M::BetaNode), 1 => alloc_node!(t, NS04M::Fz), 2 => alloc_node!(t, NS04M::GammaRay), 3 => alloc_node!(t, NS04M::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS04M::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS04M::Fz, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS04M::GammaRay, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS04M::DeltaX, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS04M::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS04M::Fz).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS04M::GammaRay).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS04M::DeltaX).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS04M::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS04M::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS04M::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS04M::Fz, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS04M::Fz, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS04M::Fz, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS04M::GammaRay, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS04M::GammaRay, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS04M::GammaRay, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS04M::DeltaX, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS04M::DeltaX, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS04M::DeltaX, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS04M::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS04M::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS04M::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS04M::Fz, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS04M::Fz, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS04M::Fz, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS04M::GammaRay, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS04M::GammaRay, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS04M::GammaRay, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS04M::DeltaX, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS04M::DeltaX, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS04M::DeltaX, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S04MBetaNodeNode>(), 1 => static_refl::<S04MFzNode>(), 2 => static_refl::<S04MGammaRayNode>(), 3 => static_refl::<S04MDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS04M::BetaNode(x) => typed_refl(x, name), NS04M::Fz(x) => typed_refl(x, name), NS04M::GammaRay(x) => typed_refl(x, name), NS04M::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS04M::BetaNode(x) => mirror_refl(x), NS04M::Fz(x) => mirror_refl(x), NS04M::GammaRay(x) => mirror_refl(x), NS04M::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s05p {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S05PLongVariantNameNode {
  pub left_most_link: HashSet::<NodeIndex>,
  pub uid: Tok,
  pub x1: Vec::<NodeIndex>,
  pub owner_of: vec::Vec<NodeIndex>,
  pub uses: Vec<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S05PAlphaNode {
  pub uid: Tok,
  pub in_edges: std::vec::Vec<NodeIndex>,
  pub x1: indexmap::IndexSet<ttgraph::NodeIndex>,
  pub uses: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S05PBetaNodeNode {
  pub uid: Tok,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS05P { LongVariantName(S05PLongVariantNameNode), Alpha(S05PAlphaNode), Epsilon(S05PAlphaNode), GammaRay(S05PLongVariantNameNode), BetaNode(S05PBetaNodeNode) }
  group! { tg_all{LongVariantName, Epsilon, BetaNode, Alpha, GammaRay}, tg_x{Epsilon, LongVariantName} }
  group! { tgtwo{LongVariantName, Alpha, GammaRay, Epsilon} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s05p", fam: 'p', variants: &[
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::V, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::V, groups: &[] }, LinkDesc { name: "uses", kind: Kind::V, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "in_edges", kind: Kind::V, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "uses", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "in_edges", kind: Kind::V, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "uses", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::V, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::V, groups: &[] }, LinkDesc { name: "uses", kind: Kind::V, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
], groups: &[("tg_all", &[0, 2, 4, 1, 3]), ("tg_x", &[2, 0]), ("tgtwo", &[0, 1, 3, 2])],
  pairs: &[],
  types: &[] };
fn mk_0(v: &NV) -> S05PLongVariantNameNode { S05PLongVariantNameNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), owner_of: LinkF::mk(&v.links[2]), uses: LinkF::mk(&v.links[3]),  } }
fn rd_0(x: &S05PLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.x1.rd(), x.owner_of.rd(), x.uses.rd()], data: vec![] } }
fn wr_0(x: &mut S05PLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.owner_of.rd() != v.links[2] { x.owner_of = LinkF::mk(&v.links[2]); } if x.uses.rd() != v.links[3] { x.uses = LinkF::mk(&v.links[3]); }  }
fn mk_1(v: &NV) -> S05PAlphaNode { S05PAlphaNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]),  } }
fn rd_1(x: &S05PAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.x1.rd(), x.uses.rd()], data: vec![] } }
fn wr_1(x: &mut S05PAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); }  }
fn mk_2(v: &NV) -> S05PBetaNodeNode { S05PBetaNodeNode { uid: Tok::mk(v.uid),   } }
fn rd_2(x: &S05PBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![], data: vec![] } }
fn wr_2(x: &mut S05PBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid);   }
impl std::fmt::Display for NS05P { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS05P;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS05P::LongVariantName(mk_0(v)), 1 => NS05P::Alpha(mk_1(v)), 2 => NS05P::Epsilon(mk_1(v)), 3 => NS05P::GammaRay(mk_0(v)), 4 => NS05P::BetaNode(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS05P::LongVariantName(x) => rd_0(x, 0), NS05P::Alpha(x) => rd_1(x, 1), NS05P::Epsilon(x) => rd_1(x, 2), NS05P::GammaRay(x) => rd_0(x, 3), NS05P::BetaNode(x) => rd_2(x, 4), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS05P::LongVariantName(x), 0) => wr_0(x, v), (NS05P::Alpha(x), 1) => wr_1(x, v), (NS05P::Epsilon(x), 2) => wr_1(x, v), (NS05P::GammaRay(x), 3) => wr_0(x, v), (NS05P::BetaNode(x), 4) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS05P::LongVariantName), 1 => discriminant!(NS05P::Alpha), 2 => discriminant!(NS05P::Epsilon), 3 => discriminant!(NS05P::GammaRay), 4 => discriminant!(NS05P::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS05P::LongVariantName), 1 => alloc_node!(t, NS05P::Alpha), 2 => alloc_node!(t, NS05P::Epsilon), 3 => alloc_node!(t, NS05P::GammaRay), 4 => alloc_node!(t, NS05P::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS05P::LongVariantName, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS05P::Alpha, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS05P::Epsilon, idx).map(|x| rd_1(x, 2)), 3 => get_node!(g, NS05P::GammaRay, idx).map(|x| rd_0(x, 3)), 4 => get_node!(g, NS05P::BetaNode, idx).map(|x| rd_2(x, 4)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS05P::LongVariantName).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS05P::Alpha).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS05P::Epsilon).map(|(k, x)| (k.0, rd_1(x, 2))).collect(), 3 => iter_nodes!(g, NS05P::GammaRay).map(|(k, x)| (k.0, rd_0(x, 3))).collect(), 4 => iter_nodes!(g, NS05P::BetaNode).map(|(k, x)| (k.0, rd_2(x, 4))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS05P::LongVariantName, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS05P::LongVariantName, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS05P::LongVariantName, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS05P::Alpha, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS05P::Alpha, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS05P::Alpha, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS05P::Epsilon, idx, move |x| { let n = f(rd_1(x, 2)); wr_1(x, &n) });  } (2, 1) => { mut_node!(t, NS05P::Epsilon, idx, |node| { let n = f(rd_1(node, 2)); wr_1(node, &n) });  } (2, 2) => { mut_node!(t, NS05P::Epsilon, idx, y, { let n = f(rd_1(y, 2)); wr_1(y, &n) });  } (3, 0) => { mut_node!(t, NS05P::GammaRay, idx, move |x| { let n = f(rd_0(x, 3)); wr_0(x, &n) });  } (3, 1) => { mut_node!(t, NS05P::GammaRay, idx, |node| { let n = f(rd_0(node, 3)); wr_0(node, &n) });  } (3, 2) => { mut_node!(t, NS05P::GammaRay, idx, y, { let n = f(rd_0(y, 3)); wr_0(y, &n) });  } (4, 0) => { mut_node!(t, NS05P::BetaNode, idx, move |x| { let n = f(rd_2(x, 4)); wr_2(x, &n) });  } (4, 1) => { mut_node!(t, NS05P::BetaNode, idx, |node| { let n = f(rd_2(node, 4)); wr_2(node, &n) });  } (4, 2) => { mut_node!(t, NS05P::BetaNode, idx, y, { let n = f(rd_2(y, 4)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS05P::LongVariantName, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS05P::LongVariantName, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS05P::LongVariantName, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS05P::Alpha, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS05P::Alpha, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS05P::Alpha, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS05P::Epsilon, idx, move |x| { let n = f(rd_1(&x, 2)); mk_1(&n) });  } (2, 1) => { update_node!(t, NS05P::Epsilon, idx, |node| { let n = f(rd_1(&node, 2)); mk_1(&n) });  } (2, 2) => { update_node!(t, NS05P::Epsilon, idx, y, { let n = f(rd_1(&y, 2)); mk_1(&n) });  } (3, 0) => { update_node!(t, NS05P::GammaRay, idx, move |x| { let n = f(rd_0(&x, 3)); mk_0(&n) });  } (3, 1) => { update_node!(t, NS05P::GammaRay, idx, |node| { let n = f(rd_0(&node, 3)); mk_0(&n) });  } (3, 2) => { update_node!(t, NS05P::GammaRay, idx, y, { let n = f(rd_0(&y, 3)); mk_0(&n) });  } (4, 0) => { update_node!(t, NS05P::BetaNode, idx, move |x| { let n = f(rd_2(&x, 4)); mk_2(&n) });  } (4, 1) => { update_node!(t, NS05P::BetaNode, idx, |node| { let n = f(rd_2(&node, 4)); mk_2(&n) });  } (4, 2) => { update_node!(t, NS05P::BetaNode, idx, y, { let n = f(rd_2(&y, 4)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S05PLongVariantNameNode>(), 1 => static_refl::<S05PAlphaNode>(), 2 => static_refl::<S05PAlphaNode>(), 3 => static_refl::<S05PLongVariantNameNode>(), 4 => static_refl::<S05PBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS05P::LongVariantName(x) => typed_refl(x, name), NS05P::Alpha(x) => typed_refl(x, name), NS05P::Epsilon(x) => typed_refl(x, name), NS05P::GammaRay(x) => typed_refl(x, name), NS05P::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS05P::LongVariantName(x) => mirror_refl(x), NS05P::Alpha(x) => mirror_refl(x), NS05P::Epsilon(x) => mirror_refl(x), NS05P::GammaRay(x) => mirror_refl(x), NS05P::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s06b {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S06BBetaNodeNode {
  #[group(outs)]
  pub prev_item: ordermap::set::OrderSet<NodeIndex>,
  pub uid: Tok,
  #[group(outs)]
  #[group(grp)]
  #[group(grp_b)]
  pub left_most_link: ttgraph::NodeIndex,
  #[group(outs, grp_b)]
  pub next: ttgraph::NodeIndex,
  pub value: (u8, u16),
  pub ref_b: ttgraph::NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S06BFzNode {
  pub uid: Tok,
  #[group(grp_b)]
  pub prev_item: ttgraph::NodeIndex,
  #[group(outs)]
  pub kids: ::std::collections::HashSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S06BGammaRayNode {
  pub uid: Tok,
  pub arr3: Box<i64>,
  #[group(outs, grp_b)]
  pub in_edges: IndexSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S06BCNode {
  pub uid: Tok,
  #[group(outs)]
  pub a: NodeIndex,
  #[group(outs)]
  pub next: ::indexmap::IndexSet<NodeIndex>,
  #[group(grp_b)]
  pub prev_item: ttgraph::NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS06B { BetaNode(S06BBetaNodeNode), Fz(S06BFzNode), GammaRay(S06BGammaRayNode), C(S06BCNode) }
  group! { tg_all{BetaNode}, }
  bidirectional! { GammaRay.outs <-> GammaRay.outs, BetaNode.grp_b <-> GammaRay.grp, Fz.outs <-> GammaRay.grp }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s06b", fam: 'b', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "prev_item", kind: Kind::S, groups: &["outs"] }, LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["outs", "grp", "grp_b"] }, LinkDesc { name: "next", kind: Kind::D, groups: &["outs", "grp_b"] }, LinkDesc { name: "ref_b", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "value", ty: 3 }], data_order: &["uid", "value"], groups: &["grp", "grp_b", "outs"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "kids", kind: Kind::S, groups: &["outs"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "outs"], phantom: &[] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "in_edges", kind: Kind::S, groups: &["outs", "grp_b"] }], data: &[DataDesc { name: "arr3", ty: 6 }], data_order: &["uid", "arr3"], groups: &["grp_b", "outs"], phantom: &["grp"] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "a", kind: Kind::D, groups: &["outs"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["outs"] }, LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp_b"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "outs"], phantom: &["grp"] },
], groups: &[("tg_all", &[0])],
  pairs: &[((2, 0), (2, 0))],
  types: &[] };
fn mk_0(v: &NV) -> S06BBetaNodeNode { S06BBetaNodeNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), left_most_link: LinkF::mk(&v.links[1]), next: LinkF::mk(&v.links[2]), ref_b: LinkF::mk(&v.links[3]), value: Dat::mk(v.data[0]), } }
fn rd_0(x: &S06BBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.left_most_link.rd(), x.next.rd(), x.ref_b.rd()], data: vec![x.value.rd()] } }
fn wr_0(x: &mut S06BBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.left_most_link.rd() != v.links[1] { x.left_most_link = LinkF::mk(&v.links[1]); } if x.next.rd() != v.links[2] { x.next = LinkF::mk(&v.links[2]); } if x.ref_b.rd() != v.links[3] { x.ref_b = LinkF::mk(&v.links[3]); } x.value = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S06BFzNode { S06BFzNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]),  } }
fn rd_1(x: &S06BFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.kids.rd()], data: vec![] } }
fn wr_1(x: &mut S06BFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); }  }
fn mk_2(v: &NV) -> S06BGammaRayNode { S06BGammaRayNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), arr3: Dat::mk(v.data[0]), } }
fn rd_2(x: &S06BGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd()], data: vec![x.arr3.rd()] } }
fn wr_2(x: &mut S06BGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } x.arr3 = Dat::mk(v.data[0]); }
fn mk_3(v: &NV) -> S06BCNode { S06BCNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), next: LinkF::mk(&v.links[1]), prev_item: LinkF::mk(&v.links[2]),  } }
fn rd_3(x: &S06BCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.next.rd(), x.prev_item.rd()], data: vec![] } }
fn wr_3(x: &mut S06BCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.next.rd() != v.links[1] { x.next = LinkF::mk(&v.links[1]); } if x.prev_item.rd() != v.links[2] { x.prev_item = LinkF::mk(&v.links[2]); }  }
impl std::fmt::Display for NS06B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS06B;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS06B::BetaNode(mk_0(v)), 1 => NS06B::Fz(mk_1(v)), 2 => NS06B::GammaRay(mk_2(v)), 3 => NS06B::C(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS06B::BetaNode(x) => rd_0(x, 0), NS06B::Fz(x) => rd_1(x, 1), NS06B::GammaRay(x) => rd_2(x, 2), NS06B::C(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS06B::BetaNode(x), 0) => wr_0(x, v), (NS06B::Fz(x), 1) => wr_1(x, v), (NS06B::GammaRay(x), 2) => wr_2(x, v), (NS06B::C(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS06B::BetaNode), 1 => discriminant!(NS06B::Fz), 2 => discriminant!(NS06B::GammaRay), 3 => discriminant!(NS06B::C), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS06B::BetaNode), 1 => alloc_node!(t, NS06B::Fz), 2 => alloc_node!(t, NS06B::GammaRay), 3 => alloc_node!(t, NS06B::C), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS06B::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS06B::Fz, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS06B::GammaRay, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS06B::C, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS06B::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS06B::Fz).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS06B::GammaRay).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS06B::C).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS06B::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS06B::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS06B::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS06B::Fz, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS06B::Fz, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS06B::Fz, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS06B::GammaRay, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS06B::GammaRay, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS06B::GammaRay, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS06B::C, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS06B::C, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS06B::C, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS06B::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS06B::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS06B::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS06B::Fz, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS06B::Fz, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS06B::Fz, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS06B::GammaRay, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS06B::GammaRay, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS06B::GammaRay, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS06B::C, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS06B::C, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS06B::C, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S06BBetaNodeNode>(), 1 => static_refl::<S06BFzNode>(), 2 => static_refl::<S06BGammaRayNode>(), 3 => static_refl::<S06BCNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS06B::BetaNode(x) => typed_refl(x, name), NS06B::Fz(x) => typed_refl(x, name), NS06B::GammaRay(x) => typed_refl(x, name), NS06B::C(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS06B::BetaNode(x) => mirror_refl(x), NS06B::Fz(x) => mirror_refl(x), NS06B::GammaRay(x) => mirror_refl(x), NS06B::C(x) => mirror_refl(x), } }
}
}

pub mod s07t {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S07TLoopNode {
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
  #[allow(dead_code)]
  pub opt: Vec<usize>,
  #[cfg_attr(all(), allow(unused))]
  #[group(grp)]
  pub in_edges: ttgraph::NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S07TVecNode {
  #[cfg_attr(all(), allow(unused))]
  #[group(grp_b)]
  pub zz: collections::HashSet<NodeIndex>,
  #[allow(unused)]
  pub uid: Tok,
  #[doc(hidden)]
  pub value: Option<u32>,
  /// the field `prev_item` of #[group(nowhere)]
  #[group(grp)]
  pub prev_item: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S07TCNode {
  #[allow(dead_code)]
  pub uid: Tok,
  pub opt: Vec<usize>,
  #[allow(unused)]
  pub table: Option<NodeIndex>,
  #[group(grp_b)]
  #[doc(hidden)]
  pub prev_item: std::vec::Vec<NodeIndex>,
  /// the field `node_index` of #[group(nowhere)]
  pub node_index: NodeIndex,
  #[allow(dead_code)]
  #[group(grp)]
  pub in_edges: indexmap::set::IndexSet<NodeIndex>,
  #[cfg_attr(all(), allow(unused))]
  pub in_: Vec<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S07TTypeNode {
  /// the field `x1` of #[group(nowhere)]
  #[group(grp, grp_b)]
  pub x1: indexmap::IndexSet<ttgraph::NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
  pub table: HashSet<usize>,
  #[group(grp_b)]
  #[allow(unused)]
  pub a: ttgraph::NodeIndex,
  #[group(grp_b)]
  #[doc(hidden)]
  pub next: ::indexmap::IndexSet<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS07T { Loop(S07TLoopNode), Vec(S07TVecNode), C(S07TCNode), Type(S07TTypeNode) }
  link_type! { Vec.grp: {Type, C}, Type.grp: Loop, C.in_edges: {Loop, C}, Vec.zz: {C, Loop, tg_x} }
  link_type! { Loop.grp: {Vec, C} }
  group! { tgtwo{Type, C}, tg_all{Type, Vec, C}, tg_x{Vec}, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s07t", fam: 't', variants: &[
  VariantDesc { name: "Loop", links: &[LinkDesc { name: "in_edges", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "opt", ty: 9 }], data_order: &["uid", "opt"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "Vec", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "value", ty: 2 }], data_order: &["uid", "value"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "prev_item", kind: Kind::V, groups: &["grp_b"] }, LinkDesc { name: "node_index", kind: Kind::D, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "in_", kind: Kind::V, groups: &[] }], data: &[DataDesc { name: "opt", ty: 9 }, DataDesc { name: "table", ty: 8 }], data_order: &["uid", "opt", "table"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "Type", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["grp", "grp_b"] }, LinkDesc { name: "a", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "table", ty: 10 }], data_order: &["uid", "table"], groups: &["grp", "grp_b"], phantom: &[] },
], groups: &[("tgtwo", &[3, 2]), ("tg_all", &[3, 1, 2]), ("tg_x", &[1])],
  pairs: &[],
  types: &[((0, 0), &[1, 2]), ((1, 0), &[0, 1, 2]), ((1, 1), &[2, 3]), ((2, 2), &[0, 2]), ((3, 0), &[0])] };
fn mk_0(v: &NV) -> S07TLoopNode { S07TLoopNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), } }
fn rd_0(x: &S07TLoopNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd()], data: vec![x.opt.rd()] } }
fn wr_0(x: &mut S07TLoopNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S07TVecNode { S07TVecNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), } }
fn rd_1(x: &S07TVecNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.prev_item.rd()], data: vec![x.value.rd()] } }
fn wr_1(x: &mut S07TVecNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S07TCNode { S07TCNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), node_index: LinkF::mk(&v.links[1]), in_edges: LinkF::mk(&v.links[2]), in_: LinkF::mk(&v.links[3]), opt: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), } }
fn rd_2(x: &S07TCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.node_index.rd(), x.in_edges.rd(), x.in_.rd()], data: vec![x.opt.rd(), x.table.rd()] } }
fn wr_2(x: &mut S07TCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.node_index.rd() != v.links[1] { x.node_index = LinkF::mk(&v.links[1]); } if x.in_edges.rd() != v.links[2] { x.in_edges = LinkF::mk(&v.links[2]); } if x.in_.rd() != v.links[3] { x.in_ = LinkF::mk(&v.links[3]); } x.opt = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S07TTypeNode { S07TTypeNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), next: LinkF::mk(&v.links[2]), table: Dat::mk(v.data[0]), } }
fn rd_3(x: &S07TTypeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.a.rd(), x.next.rd()], data: vec![x.table.rd()] } }
fn wr_3(x: &mut S07TTypeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } if x.next.rd() != v.links[2] { x.next = LinkF::mk(&v.links[2]); } x.table = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS07T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS07T;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS07T::Loop(mk_0(v)), 1 => NS07T::Vec(mk_1(v)), 2 => NS07T::C(mk_2(v)), 3 => NS07T::Type(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS07T::Loop(x) => rd_0(x, 0), NS07T::Vec(x) => rd_1(x, 1), NS07T::C(x) => rd_2(x, 2), NS07T::Type(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS07T::Loop(x), 0) => wr_0(x, v), (NS07T::Vec(x), 1) => wr_1(x, v), (NS07T::C(x), 2) => wr_2(x, v), (NS07T::Type(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS07T::Loop), 1 => discriminant!(NS07T::Vec), 2 => discriminant!(NS07T::C), 3 => discriminant!(NS07T::Type), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS07T::Loop), 1 => alloc_node!(t, NS07T::Vec), 2 => alloc_node!(t, NS07T::C), 3 => alloc_node!(t, NS07T::Type), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS07T::Loop, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS07T::Vec, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS07T::C, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS07T::Type, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS07T::Loop).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS07T::Vec).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS07T::C).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS07T::Type).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS07T::Loop, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS07T::Loop, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS07T::Loop, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS07T::Vec, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS07T::Vec, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS07T::Vec, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS07T::C, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS07T::C, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS07T::C, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS07T::Type, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS07T::Type, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS07T::Type, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS07T::Loop, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS07T::Loop, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS07T::Loop, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS07T::Vec, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS07T::Vec, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS07T::Vec, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS07T::C, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS07T::C, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS07T::C, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS07T::Type, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS07T::Type, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS07T::Type, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S07TLoopNode>(), 1 => static_refl::<S07TVecNode>(), 2 => static_refl::<S07TCNode>(), 3 => static_refl::<S07TTypeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS07T::Loop(x) => typed_refl(x, name), NS07T::Vec(x) => typed_refl(x, name), NS07T::C(x) => typed_refl(x, name), NS07T::Type(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS07T::Loop(x) => mirror_refl(x), NS07T::Vec(x) => mirror_refl(x), NS07T::C(x) => mirror_refl(x), NS07T::Type(x) => mirror_refl(x), } }
}
}

pub mod s08g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08GCNode {
  pub zz: ttgraph::NodeIndex,
  #[group(grp_b)]
  pub tos: collections::BTreeSet<NodeIndex>,
  pub opt: Option<u32>,
  pub prev_item: BTreeSet<NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08GFzNode {
  pub weight: String,
  pub arr3: u64,
  pub next: IndexSet<NodeIndex>,
  pub table: Vec<u32>,
  pub uid: Tok,
  #[group(grp_b)]
  pub in_edges: NodeIndex,
  #[group(grp_b)]
  pub peer: ttgraph::NodeIndex,
  #[group(grp_b)]
  pub a: std::collections::BTreeSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S08GBetaNodeNode {
  pub ref_b: NodeIndex,
  pub table: u64,
  pub name: HashSet<usize>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08GLongVariantNameNode {
  pub value: Vec<usize>,
  pub left_most_link: HashSet<NodeIndex>,
  pub x1: std::vec::Vec<NodeIndex>,
  #[group(grp_b)]
  pub in_edges: ordermap::OrderSet<NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S08GAlphaNode {
  pub zz: ttgraph::NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08GDeltaXNode {
  pub a: NodeIndex,
  pub x1: ::ordermap::OrderSet<NodeIndex>,
  pub uid: Tok,
  pub weight: BTreeMap<u32, String>,
  pub owner_of: Vec<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub zz: ::ordermap::OrderSet<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS08G { C(self::S08GCNode), Fz(crate::schemas::s08g::S08GFzNode), BetaNode(S08GBetaNodeNode), LongVariantName(super::s08g::S08GLongVariantNameNode), Alpha(self::S08GAlphaNode), DeltaX(crate::schemas::s08g::S08GDeltaXNode) }
  bidirectional! { Fz.peer <-> Fz.grp_b, C.grp_b <-> tgtwo.grp_b, }
  link_type! { DeltaX.grp_b: {BetaNode, DeltaX, C, LongVariantName}, Fz.a: {BetaNode, Alpha, Fz}, Fz.in_edges: tgtwo }
  group! { tgtwo{Fz, LongVariantName, BetaNode, C, DeltaX} }
  bidirectional! { tgtwo.grp_b <-> C.grp_b }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s08g", fam: 'g', variants: &[
  VariantDesc { name: "C", links: &[LinkDesc { name: "zz", kind: Kind::D, groups: &[] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "opt", ty: 2 }], data_order: &["opt", "uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "next", kind: Kind::S, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "weight", ty: 1 }, DataDesc { name: "arr3", ty: 0 }, DataDesc { name: "table", ty: 5 }], data_order: &["weight", "arr3", "table", "uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "ref_b", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "name", ty: 10 }, DataDesc { name: "table", ty: 0 }], data_order: &["table", "name", "uid"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::V, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "value", ty: 9 }], data_order: &["value", "uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "zz", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "a", kind: Kind::D, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::V, groups: &[] }, LinkDesc { name: "zz", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "weight", ty: 7 }], data_order: &["uid", "weight"], groups: &["grp_b"], phantom: &[] },
], groups: &[("tgtwo", &[1, 3, 2, 0, 5])],
  pairs: &[((0, 1), (0, 1)), ((0, 1), (1, 1)), ((0, 1), (1, 2)), ((0, 1), (1, 3)), ((0, 1), (3, 2)), ((0, 1), (5, 3)), ((1, 1), (0, 1)), ((1, 1), (1, 2)), ((1, 2), (0, 1)), ((1, 2), (1, 1)), ((1, 2), (1, 2)), ((1, 2), (1, 3)), ((1, 3), (0, 1)), ((1, 3), (1, 2)), ((3, 2), (0, 1)), ((5, 3), (0, 1))],
  types: &[((1, 1), &[0, 1, 2, 3, 5]), ((1, 3), &[1, 2, 4]), ((5, 3), &[0, 2, 3, 5])] };
fn mk_0(v: &NV) -> S08GCNode { S08GCNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), prev_item: LinkF::mk(&v.links[2]), opt: Dat::mk(v.data[0]), } }
fn rd_0(x: &S08GCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.tos.rd(), x.prev_item.rd()], data: vec![x.opt.rd()] } }
fn wr_0(x: &mut S08GCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } if x.prev_item.rd() != v.links[2] { x.prev_item = LinkF::mk(&v.links[2]); } x.opt = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S08GFzNode { S08GFzNode { uid: Tok::mk(v.uid), next: LinkF::mk(&v.links[0]), in_edges: LinkF::mk(&v.links[1]), peer: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), table: Dat::mk(v.data[2]), } }
fn rd_1(x: &S08GFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.next.rd(), x.in_edges.rd(), x.peer.rd(), x.a.rd()], data: vec![x.weight.rd(), x.arr3.rd(), x.table.rd()] } }
fn wr_1(x: &mut S08GFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.next.rd() != v.links[0] { x.next = LinkF::mk(&v.links[0]); } if x.in_edges.rd() != v.links[1] { x.in_edges = LinkF::mk(&v.links[1]); } if x.peer.rd() != v.links[2] { x.peer = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.table = Dat::mk(v.data[2]); }
fn mk_2(v: &NV) -> S08GBetaNodeNode { S08GBetaNodeNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), name: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), } }
fn rd_2(x: &S08GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.name.rd(), x.table.rd()] } }
fn wr_2(x: &mut S08GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.name = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S08GLongVariantNameNode { S08GLongVariantNameNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), in_edges: LinkF::mk(&v.links[2]), value: Dat::mk(v.data[0]), } }
fn rd_3(x: &S08GLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.x1.rd(), x.in_edges.rd()], data: vec![x.value.rd()] } }
fn wr_3(x: &mut S08GLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.in_edges.rd() != v.links[2] { x.in_edges = LinkF::mk(&v.links[2]); } x.value = Dat::mk(v.data[0]); }
fn mk_4(v: &NV) -> S08GAlphaNode { S08GAlphaNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]),  } }
fn rd_4(x: &S08GAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd()], data: vec![] } }
fn wr_4(x: &mut S08GAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); }  }
fn mk_5(v: &NV) -> S08GDeltaXNode { S08GDeltaXNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), owner_of: LinkF::mk(&v.links[2]), zz: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), } }
fn rd_5(x: &S08GDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.x1.rd(), x.owner_of.rd(), x.zz.rd()], data: vec![x.weight.rd()] } }
fn wr_5(x: &mut S08GDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.owner_of.rd() != v.links[2] { x.owner_of = LinkF::mk(&v.links[2]); } if x.zz.rd() != v.links[3] { x.zz = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS08G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS08G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS08G::C(mk_0(v)), 1 => NS08G::Fz(mk_1(v)), 2 => NS08G::BetaNode(mk_2(v)), 3 => NS08G::LongVariantName(mk_3(v)), 4 => NS08G::Alpha(mk_4(v)), 5 => NS08G::DeltaX(mk_5(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS08G::C(x) => rd_0(x, 0), NS08G::Fz(x) => rd_1(x, 1), NS08G::BetaNode(x) => rd_2(x, 2), NS08G::LongVariantName(x) => rd_3(x, 3), NS08G::Alpha(x) => rd_4(x, 4), NS08G::DeltaX(x) => rd_5(x, 5), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS08G::C(x), 0) => wr_0(x, v), (NS08G::Fz(x), 1) => wr_1(x, v), (NS08G::BetaNode(x), 2) => wr_2(x, v), (NS08G::LongVariantName(x), 3) => wr_3(x, v), (NS08G::Alpha(x), 4) => wr_4(x, v), (NS08G::DeltaX(x), 5) => wr_5(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS08G::C), 1 => discriminant!(NS08G::Fz), 2 => discriminant!(NS08G::BetaNode), 3 => discriminant!(NS08G::LongVariantName), 4 => discriminant!(NS08G::Alpha), 5 => discriminant!(NS08G::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS08G::C), 1 => alloc_node!(t, NS08G::Fz), 2 => alloc_node!(t, NS08G::BetaNode), 3 => alloc_node!(t, NS08G::LongVariantName), 4 => alloc_node!(t, NS08G::Alpha), 5 => alloc_node!(t, NS08G::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS08G::C, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS08G::Fz, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS08G::BetaNode, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS08G::LongVariantName, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS08G::Alpha, idx).map(|x| rd_4(x, 4)), 5 => get_node!(g, NS08G::DeltaX, idx).map(|x| rd_5(x, 5)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS08G::C).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS08G::Fz).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS08G::BetaNode).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS08G::LongVariantName).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS08G::Alpha).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), 5 => iter_nodes!(g, NS08G::DeltaX).map(|(k, x)| (k.0, rd_5(x, 5))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS08G::C, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS08G::C, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS08G::C, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS08G::Fz, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS08G::Fz, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS08G::Fz, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS08G::BetaNode, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS08G::BetaNode, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS08G::BetaNode, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS08G::LongVariantName, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS08G::LongVariantName, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS08G::LongVariantName, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS08G::Alpha, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS08G::Alpha, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS08G::Alpha, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } (5, 0) => { mut_node!(t, NS08G::DeltaX, idx, move |x| { let n = f(rd_5(x, 5)); wr_5(x, &n) });  } (5, 1) => { mut_node!(t, NS08G::DeltaX, idx, |node| { let n = f(rd_5(node, 5)); wr_5(node, &n) });  } (5, 2) => { mut_node!(t, NS08G::DeltaX, idx, y, { let n = f(rd_5(y, 5)); wr_5(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS08G::C, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS08G::C, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS08G::C, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS08G::Fz, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS08G::Fz, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS08G::Fz, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS08G::BetaNode, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS08G::BetaNode, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS08G::BetaNode, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS08G::LongVariantName, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS08G::LongVariantName, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS08G::LongVariantName, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS08G::Alpha, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS08G::Alpha, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS08G::Alpha, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } (5, 0) => { update_node!(t, NS08G::DeltaX, idx, move |x| { let n = f(rd_5(&x, 5)); mk_5(&n) });  } (5, 1) => { update_node!(t, NS08G::DeltaX, idx, |node| { let n = f(rd_5(&node, 5)); mk_5(&n) });  } (5, 2) => { update_node!(t, NS08G::DeltaX, idx, y, { let n = f(rd_5(&y, 5)); mk_5(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S08GCNode>(), 1 => static_refl::<S08GFzNode>(), 2 => static_refl::<S08GBetaNodeNode>(), 3 => static_refl::<S08GLongVariantNameNode>(), 4 => static_refl::<S08GAlphaNode>(), 5 => static_refl::<S08GDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS08G::C(x) => typed_refl(x, name), NS08G::Fz(x) => typed_refl(x, name), NS08G::BetaNode(x) => typed_refl(x, name), NS08G::LongVariantName(x) => typed_refl(x, name), NS08G::Alpha(x) => typed_refl(x, name), NS08G::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS08G::C(x) => mirror_refl(x), NS08G::Fz(x) => mirror_refl(x), NS08G::BetaNode(x) => mirror_refl(x), NS08G::LongVariantName(x) => mirror_refl(x), NS08G::Alpha(x) => mirror_refl(x), NS08G::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s08x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08XCNode {
  pub uid: Tok,
  pub opt: Option<u32>,
  pub zz: ttgraph::NodeIndex,
  #[group(grp_b)]
  pub tos: collections::BTreeSet<NodeIndex>,
  pub prev_item: BTreeSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08XFzNode {
  pub uid: Tok,
  pub next: IndexSet<NodeIndex>,
  #[group(grp_b)]
  pub in_edges: NodeIndex,
  pub table: Vec<u32>,
  pub arr3: u64,
  #[group(grp_b)]
  pub peer: ttgraph::NodeIndex,
  pub weight: String,
  #[group(grp_b)]
  pub a: std::collections::BTreeSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S08XBetaNodeNode {
  pub table: u64,
  pub ref_b: NodeIndex,
  pub name: HashSet<usize>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08XLongVariantNameNode {
  pub uid: Tok,
  pub value: Vec<usize>,
  pub left_most_link: HashSet<NodeIndex>,
  pub x1: std::vec::Vec<NodeIndex>,
  #[group(grp_b)]
  pub in_edges: ordermap::OrderSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S08XAlphaNode {
  pub zz: ttgraph::NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S08XDeltaXNode {
  pub weight: BTreeMap<u32, String>,
  pub a: NodeIndex,
  pub uid: Tok,
  pub x1: ::ordermap::OrderSet<NodeIndex>,
  pub owner_of: Vec<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub zz: ::ordermap::OrderSet<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS08X { C(self::S08XCNode), Fz(crate::schemas::s08x::S08XFzNode), BetaNode(S08XBetaNodeNode), LongVariantName(super::s08x::S08XLongVariantNameNode), Alpha(self::S08XAlphaNode), DeltaX(crate::schemas::s08x::S08XDeltaXNode) }
  bidirectional! { Fz.peer <-> Fz.a }
  link_type! { Fz.a: {Fz, BetaNode, Alpha}, DeltaX.zz: {C, BetaNode, LongVariantName, DeltaX} }
  link_type! { Fz.in_edges: {C, Fz, BetaNode, LongVariantName, DeltaX}, }
  group! { tgtwo{Fz, LongVariantName, BetaNode, C, DeltaX} }
  bidirectional! { C.tos <-> C.tos, C.tos <-> Fz.in_edges, C.tos <-> Fz.peer, C.tos <-> Fz.a, C.tos <-> LongVariantName.in_edges, C.tos <-> DeltaX.zz, Fz.in_edges <-> Fz.peer, Fz.peer <-> Fz.peer }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s08x", fam: 'x', variants: &[
  VariantDesc { name: "C", links: &[LinkDesc { name: "zz", kind: Kind::D, groups: &[] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "opt", ty: 2 }], data_order: &["uid", "opt"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "next", kind: Kind::S, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "weight", ty: 1 }, DataDesc { name: "arr3", ty: 0 }, DataDesc { name: "table", ty: 5 }], data_order: &["uid", "table", "arr3", "weight"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "ref_b", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "name", ty: 10 }, DataDesc { name: "table", ty: 0 }], data_order: &["table", "name", "uid"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::V, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "value", ty: 9 }], data_order: &["uid", "value"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "zz", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "a", kind: Kind::D, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::V, groups: &[] }, LinkDesc { name: "zz", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "weight", ty: 7 }], data_order: &["weight", "uid"], groups: &["grp_b"], phantom: &[] },
], groups: &[("tgtwo", &[1, 3, 2, 0, 5])],
  pairs: &[((0, 1), (0, 1)), ((0, 1), (1, 1)), ((0, 1), (1, 2)), ((0, 1), (1, 3)), ((0, 1), (3, 2)), ((0, 1), (5, 3)), ((1, 1), (0, 1)), ((1, 1), (1, 2)), ((1, 2), (0, 1)), ((1, 2), (1, 1)), ((1, 2), (1, 2)), ((1, 2), (1, 3)), ((1, 3), (0, 1)), ((1, 3), (1, 2)), ((3, 2), (0, 1)), ((5, 3), (0, 1))],
  types: &[((1, 1), &[0, 1, 2, 3, 5]), ((1, 3), &[1, 2, 4]), ((5, 3), &[0, 2, 3, 5])] };
fn mk_0(v: &NV) -> S08XCNode { S08XCNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), prev_item: LinkF::mk(&v.links[2]), opt: Dat::mk(v.data[0]), } }
fn rd_0(x: &S08XCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.tos.rd(), x.prev_item.rd()], data: vec![x.opt.rd()] } }
fn wr_0(x: &mut S08XCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } if x.prev_item.rd() != v.links[2] { x.prev_item = LinkF::mk(&v.links[2]); } x.opt = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S08XFzNode { S08XFzNode { uid: Tok::mk(v.uid), next: LinkF::mk(&v.links[0]), in_edges: LinkF::mk(&v.links[1]), peer: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), table: Dat::mk(v.data[2]), } }
fn rd_1(x: &S08XFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.next.rd(), x.in_edges.rd(), x.peer.rd(), x.a.rd()], data: vec![x.weight.rd(), x.arr3.rd(), x.table.rd()] } }
fn wr_1(x: &mut S08XFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.next.rd() != v.links[0] { x.next = LinkF::mk(&v.links[0]); } if x.in_edges.rd() != v.links[1] { x.in_edges = LinkF::mk(&v.links[1]); } if x.peer.rd() != v.links[2] { x.peer = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.table = Dat::mk(v.data[2]); }
fn mk_2(v: &NV) -> S08XBetaNodeNode { S08XBetaNodeNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), name: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), } }
fn rd_2(x: &S08XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.name.rd(), x.table.rd()] } }
fn wr_2(x: &mut S08XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.name = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S08XLongVariantNameNode { S08XLongVariantNameNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), in_edges: LinkF::mk(&v.links[2]), value: Dat::mk(v.data[0]), } }
fn rd_3(x: &S08XLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.x1.rd(), x.in_edges.rd()], data: vec![x.value.rd()] } }
fn wr_3(x: &mut S08XLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.in_edges.rd() != v.links[2] { x.in_edges = LinkF::mk(&v.links[2]); } x.value = Dat::mk(v.data[0]); }
fn mk_4(v: &NV) -> S08XAlphaNode { S08XAlphaNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]),  } }
fn rd_4(x: &S08XAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd()], data: vec![] } }
fn wr_4(x: &mut S08XAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); }  }
fn mk_5(v: &NV) -> S08XDeltaXNode { S08XDeltaXNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), owner_of: LinkF::mk(&v.links[2]), zz: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), } }
fn rd_5(x: &S08XDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.x1.rd(), x.owner_of.rd(), x.zz.rd()], data: vec![x.weight.rd()] } }
fn wr_5(x: &mut S08XDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.owner_of.rd() != v.links[2] { x.owner_of = LinkF::mk(&v.links[2]); } if x.zz.rd() != v.links[3] { x.zz = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS08X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS08X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS08X::C(mk_0(v)), 1 => NS08X::Fz(mk_1(v)), 2 => NS08X::BetaNode(mk_2(v)), 3 => NS08X::LongVariantName(mk_3(v)), 4 => NS08X::Alpha(mk_4(v)), 5 => NS08X::DeltaX(mk_5(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS08X::C(x) => rd_0(x, 0), NS08X::Fz(x) => rd_1(x, 1), NS08X::BetaNode(x) => rd_2(x, 2), NS08X::LongVariantName(x) => rd_3(x, 3), NS08X::Alpha(x) => rd_4(x, 4), NS08X::DeltaX(x) => rd_5(x, 5), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS08X::C(x), 0) => wr_0(x, v), (NS08X::Fz(x), 1) => wr_1(x, v), (NS08X::BetaNode(x), 2) => wr_2(x, v), (NS08X::LongVariantName(x), 3) => wr_3(x, v), (NS08X::Alpha(x), 4) => wr_4(x, v), (NS08X::DeltaX(x), 5) => wr_5(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS08X::C), 1 => discriminant!(NS08X::Fz), 2 => discriminant!(NS08X::BetaNode), 3 => discriminant!(NS08X::LongVariantName), 4 => discriminant!(NS08X::Alpha), 5 => discriminant!(NS08X::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS08X::C), 1 => alloc_node!(t, NS08X::Fz), 2 => alloc_node!(t, NS08X::BetaNode), 3 => alloc_node!(t, NS08X::LongVariantName), 4 => alloc_node!(t, NS08X::Alpha), 5 => alloc_node!(t, NS08X::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS08X::C, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS08X::Fz, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS08X::BetaNode, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS08X::LongVariantName, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS08X::Alpha, idx).map(|x| rd_4(x, 4)), 5 => get_node!(g, NS08X::DeltaX, idx).map(|x| rd_5(x, 5)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS08X::C).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS08X::Fz).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS08X::BetaNode).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS08X::LongVariantName).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS08X::Alpha).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), 5 => iter_nodes!(g, NS08X::DeltaX).map(|(k, x)| (k.0, rd_5(x, 5))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS08X::C, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS08X::C, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS08X::C, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS08X::Fz, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS08X::Fz, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS08X::Fz, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS08X::BetaNode, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS08X::BetaNode, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS08X::BetaNode, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS08X::LongVariantName, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS08X::LongVariantName, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS08X::LongVariantName, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS08X::Alpha, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS08X::Alpha, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS08X::Alpha, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } (5, 0) => { mut_node!(t, NS08X::DeltaX, idx, move |x| { let n = f(rd_5(x, 5)); wr_5(x, &n) });  } (5, 1) => { mut_node!(t, NS08X::DeltaX, idx, |node| { let n = f(rd_5(node, 5)); wr_5(node, &n) });  } (5, 2) => { mut_node!(t, NS08X::DeltaX, idx, y, { let n = f(rd_5(y, 5)); wr_5(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS08X::C, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS08X::C, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS08X::C, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS08X::Fz, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS08X::Fz, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS08X::Fz, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS08X::BetaNode, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS08X::BetaNode, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS08X::BetaNode, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS08X::LongVariantName, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS08X::LongVariantName, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS08X::LongVariantName, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS08X::Alpha, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS08X::Alpha, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS08X::Alpha, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } (5, 0) => { update_node!(t, NS08X::DeltaX, idx, move |x| { let n = f(rd_5(&x, 5)); mk_5(&n) });  } (5, 1) => { update_node!(t, NS08X::DeltaX, idx, |node| { let n = f(rd_5(&node, 5)); mk_5(&n) });  } (5, 2) => { update_node!(t, NS08X::DeltaX, idx, y, { let n = f(rd_5(&y, 5)); mk_5(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S08XCNode>(), 1 => static_refl::<S08XFzNode>(), 2 => static_refl::<S08XBetaNodeNode>(), 3 => static_refl::<S08XLongVariantNameNode>(), 4 => static_refl::<S08XAlphaNode>(), 5 => static_refl::<S08XDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS08X::C(x) => typed_refl(x, name), NS08X::Fz(x) => typed_refl(x, name), NS08X::BetaNode(x) => typed_refl(x, name), NS08X::LongVariantName(x) => typed_refl(x, name), NS08X::Alpha(x) => typed_refl(x, name), NS08X::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS08X::C(x) => mirror_refl(x), NS08X::Fz(x) => mirror_refl(x), NS08X::BetaNode(x) => mirror_refl(x), NS08X::LongVariantName(x) => mirror_refl(x), NS08X::Alpha(x) => mirror_refl(x), NS08X::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s09b {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S09BAlphaNode {
  pub next: ttgraph::NodeIndex,
  pub uid: Tok,
  pub peer: OrderSet<NodeIndex>,
  pub ref_b: vec::Vec<NodeIndex>,
  pub left_most_link: vec::Vec<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S09BEpsilonNode {
  pub x1: NodeIndex,
  pub uid: Tok,
  pub prev_item: Vec<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S09BFzNode {
  pub x1: ttgraph::NodeIndex,
  pub name: u64,
  pub uid: Tok,
  pub table: BTreeMap<u32, String>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS09B { Alpha(S09BAlphaNode), Epsilon(S09BEpsilonNode), Fz(S09BFzNode) }
  group! { tg_all{Alpha, Epsilon}, }
  bidirectional! { Fz.x1 <-> Epsilon.x1, Fz.x1 <-> Fz.x1, Fz.x1 <-> Epsilon.x1, Alpha.next <-> Alpha.next }
  group! { tgtwo{Fz, Epsilon} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s09b", fam: 'b', variants: &[
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "next", kind: Kind::D, groups: &[] }, LinkDesc { name: "peer", kind: Kind::S, groups: &[] }, LinkDesc { name: "ref_b", kind: Kind::V, groups: &[] }, LinkDesc { name: "left_most_link", kind: Kind::V, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "x1", kind: Kind::D, groups: &[] }, LinkDesc { name: "prev_item", kind: Kind::V, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "x1", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "table", ty: 7 }, DataDesc { name: "name", ty: 0 }], data_order: &["name", "uid", "table"], groups: &[], phantom: &[] },
], groups: &[("tg_all", &[0, 1]), ("tgtwo", &[2, 1])],
  pairs: &[((0, 0), (0, 0)), ((1, 0), (2, 0)), ((2, 0), (1, 0)), ((2, 0), (2, 0))],
  types: &[] };
fn mk_0(v: &NV) -> S09BAlphaNode { S09BAlphaNode { uid: Tok::mk(v.uid), next: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), ref_b: LinkF::mk(&v.links[2]), left_most_link: LinkF::mk(&v.links[3]),  } }
fn rd_0(x: &S09BAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.next.rd(), x.peer.rd(), x.ref_b.rd(), x.left_most_link.rd()], data: vec![] } }
fn wr_0(x: &mut S09BAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.next.rd() != v.links[0] { x.next = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } if x.ref_b.rd() != v.links[2] { x.ref_b = LinkF::mk(&v.links[2]); } if x.left_most_link.rd() != v.links[3] { x.left_most_link = LinkF::mk(&v.links[3]); }  }
fn mk_1(v: &NV) -> S09BEpsilonNode { S09BEpsilonNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]),  } }
fn rd_1(x: &S09BEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.prev_item.rd()], data: vec![] } }
fn wr_1(x: &mut S09BEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); }  }
fn mk_2(v: &NV) -> S09BFzNode { S09BFzNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), table: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), } }
fn rd_2(x: &S09BFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd()], data: vec![x.table.rd(), x.name.rd()] } }
fn wr_2(x: &mut S09BFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } x.table = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); }
impl std::fmt::Display for NS09B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS09B;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS09B::Alpha(mk_0(v)), 1 => NS09B::Epsilon(mk_1(v)), 2 => NS09B::Fz(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS09B::Alpha(x) => rd_0(x, 0), NS09B::Epsilon(x) => rd_1(x, 1), NS09B::Fz(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS09B::Alpha(x), 0) => wr_0(x, v), (NS09B::Epsilon(x), 1) => wr_1(x, v), (NS09B::Fz(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS09B::Alpha), 1 => discriminant!(NS09B::Epsilon), 2 => discriminant!(NS09B::Fz), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS09B::Alpha), 1 => alloc_node!(t, NS09B::Epsilon), 2 => alloc_node!(t, NS09B::Fz), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS09B::Alpha, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS09B::Epsilon, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS09B::Fz, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS09B::Alpha).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS09B::Epsilon).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS09B::Fz).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS09B::Alpha, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS09B::Alpha, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS09B::Alpha, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS09B::Epsilon, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS09B::Epsilon, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS09B::Epsilon, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS09B::Fz, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS09B::Fz, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS09B::Fz, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS09B::Alpha, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS09B::Alpha, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS09B::Alpha, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS09B::Epsilon, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS09B::Epsilon, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS09B::Epsilon, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS09B::Fz, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS09B::Fz, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS09B::Fz, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S09BAlphaNode>(), 1 => static_refl::<S09BEpsilonNode>(), 2 => static_refl::<S09BFzNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS09B::Alpha(x) => typed_refl(x, name), NS09B::Epsilon(x) => typed_refl(x, name), NS09B::Fz(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS09B::Alpha(x) => mirror_refl(x), NS09B::Epsilon(x) => mirror_refl(x), NS09B::Fz(x) => mirror_refl(x), } }
}
}

pub mod s10m {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S10MAlphaNode {
  #[doc(hidden)]
  pub pair: String,
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
  #[allow(dead_code)]
  pub arr3: (NodeIndex, u8),
  pub meta_data: [u8; 3],
  #[group(linkset)]
  #[allow(unused)]
  pub next: collections::HashSet<NodeIndex>,
  #[doc(hidden)]
  pub tos: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S10MLongVariantNameNode {
  #[group(linkset)]
  #[doc(hidden)]
  pub x1: ::ordermap::set::OrderSet<NodeIndex>,
  /// the field `ref_b` of #[group(nowhere)]
  pub ref_b: NodeIndex,
  #[allow(dead_code)]
  pub meta_data: (u8, u16),
  #[cfg_attr(all(), allow(unused))]
  pub tos: BTreeSet<NodeIndex>,
  #[allow(unused)]
  pub uid: Tok,
  #[doc(hidden)]
  pub table: (NodeIndex, u8),
  /// the field `pair` of #[group(nowhere)]
  pub pair: [u8; 3],
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S10MBetaNodeNode {
  #[allow(unused)]
  pub pair: HashSet<usize>,
  #[doc(hidden)]
  pub tos: NodeIndex,
  /// the field `zz` of #[group(nowhere)]
  #[group(linkset)]
  pub zz: ttgraph::NodeIndex,
  #[allow(dead_code)]
  pub uid: Tok,
  pub value: u64,
  #[allow(unused)]
  pub name: Vec<u32>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS10M { Alpha(S10MAlphaNode), LongVariantName(S10MLongVariantNameNode), BetaNode(S10MBetaNodeNode) }
  link_type! { tg_x.tos: LongVariantName, BetaNode.linkset: {Alpha, BetaNode}, LongVariantName.ref_b: {tg_x}, BetaNode.zz: {BetaNode, LongVariantName}, }
  link_type! { BetaNode.zz: Alpha, }
  bidirectional! { tg_x.linkset <-> LongVariantName.x1, }
  bidirectional! { tg_x.tos <-> LongVariantName.linkset, tg_x.tos <-> Alpha.linkset, }
  group! { tg_x{BetaNode, Alpha, LongVariantName} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s10m", fam: 'm', variants: &[
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "next", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "tos", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "pair", ty: 1 }, DataDesc { name: "arr3", ty: 11 }, DataDesc { name: "meta_data", ty: 4 }], data_order: &["pair", "uid", "arr3", "meta_data"], groups: &["linkset"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "ref_b", kind: Kind::D, groups: &[] }, LinkDesc { name: "tos", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "table", ty: 11 }, DataDesc { name: "meta_data", ty: 3 }, DataDesc { name: "pair", ty: 4 }], data_order: &["meta_data", "uid", "table", "pair"], groups: &["linkset"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "tos", kind: Kind::D, groups: &[] }, LinkDesc { name: "zz", kind: Kind::D, groups: &["linkset"] }], data: &[DataDesc { name: "name", ty: 5 }, DataDesc { name: "value", ty: 0 }, DataDesc { name: "pair", ty: 10 }], data_order: &["pair", "uid", "value", "name"], groups: &["linkset"], phantom: &[] },
], groups: &[("tg_x", &[2, 0, 1])],
  pairs: &[((0, 0), (0, 1)), ((0, 0), (1, 0)), ((0, 0), (1, 2)), ((0, 0), (2, 0)), ((0, 1), (0, 0)), ((0, 1), (1, 0)), ((1, 0), (0, 0)), ((1, 0), (0, 1)), ((1, 0), (1, 0)), ((1, 0), (1, 2)), ((1, 0), (2, 0)), ((1, 0), (2, 1)), ((1, 2), (0, 0)), ((1, 2), (1, 0)), ((2, 0), (0, 0)), ((2, 0), (1, 0)), ((2, 1), (1, 0))],
  types: &[((0, 1), &[1]), ((1, 1), &[0, 1, 2]), ((1, 2), &[1]), ((2, 0), &[1]), ((2, 1), &[0]), ((2, 1), &[0, 2]), ((2, 1), &[1, 2])] };
fn mk_0(v: &NV) -> S10MAlphaNode { S10MAlphaNode { uid: Tok::mk(v.uid), next: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), pair: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), meta_data: Dat::mk(v.data[2]), } }
fn rd_0(x: &S10MAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.next.rd(), x.tos.rd()], data: vec![x.pair.rd(), x.arr3.rd(), x.meta_data.rd()] } }
fn wr_0(x: &mut S10MAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.next.rd() != v.links[0] { x.next = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } x.pair = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.meta_data = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S10MLongVariantNameNode { S10MLongVariantNameNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), ref_b: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]), table: Dat::mk(v.data[0]), meta_data: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_1(x: &S10MLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.ref_b.rd(), x.tos.rd()], data: vec![x.table.rd(), x.meta_data.rd(), x.pair.rd()] } }
fn wr_1(x: &mut S10MLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.ref_b.rd() != v.links[1] { x.ref_b = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); } x.table = Dat::mk(v.data[0]); x.meta_data = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
fn mk_2(v: &NV) -> S10MBetaNodeNode { S10MBetaNodeNode { uid: Tok::mk(v.uid), tos: LinkF::mk(&v.links[0]), zz: LinkF::mk(&v.links[1]), name: Dat::mk(v.data[0]), value: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_2(x: &S10MBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.tos.rd(), x.zz.rd()], data: vec![x.name.rd(), x.value.rd(), x.pair.rd()] } }
fn wr_2(x: &mut S10MBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.tos.rd() != v.links[0] { x.tos = LinkF::mk(&v.links[0]); } if x.zz.rd() != v.links[1] { x.zz = LinkF::mk(&v.links[1]); } x.name = Dat::mk(v.data[0]); x.value = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS10M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS10M;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS10M::Alpha(mk_0(v)), 1 => NS10M::LongVariantName(mk_1(v)), 2 => NS10M::BetaNode(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS10M::Alpha(x) => rd_0(x, 0), NS10M::LongVariantName(x) => rd_1(x, 1), NS10M::BetaNode(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS10M::Alpha(x), 0) => wr_0(x, v), (NS10M::LongVariantName(x), 1) => wr_1(x, v), (NS10M::BetaNode(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS10M::Alpha), 1 => discriminant!(NS10M::LongVariantName), 2 => discriminant!(NS10M::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS10M::Alpha), 1 => alloc_node!(t, NS10M::LongVariantName), 2 => alloc_node!(t, NS10M::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS10M::Alpha, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS10M::LongVariantName, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS10M::BetaNode, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS10M::Alpha).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS10M::LongVariantName).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS10M::BetaNode).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS10M::Alpha, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS10M::Alpha, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS10M::Alpha, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS10M::LongVariantName, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS10M::LongVariantName, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS10M::LongVariantName, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS10M::BetaNode, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS10M::BetaNode, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS10M::BetaNode, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS10M::Alpha, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS10M::Alpha, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS10M::Alpha, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS10M::LongVariantName, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS10M::LongVariantName, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS10M::LongVariantName, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS10M::BetaNode, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS10M::BetaNode, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS10M::BetaNode, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S10MAlphaNode>(), 1 => static_refl::<S10MLongVariantNameNode>(), 2 => static_refl::<S10MBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS10M::Alpha(x) => typed_refl(x, name), NS10M::LongVariantName(x) => typed_refl(x, name), NS10M::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS10M::Alpha(x) => mirror_refl(x), NS10M::LongVariantName(x) => mirror_refl(x), NS10M::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s11g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S11GBetaNodeNode {
  pub zz: collections::HashSet<NodeIndex>,
  pub uid: Tok,
  pub prev_item: IndexSet<NodeIndex>,
  #[group(grp)]
  pub uses: ttgraph::NodeIndex,
  pub tos: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S11GDeltaXNode {
  pub uid: Tok,
  pub kids: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub table: Option<NodeIndex>,
  #[group(grp)]
  pub tos: NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS11G { BetaNode(S11GBetaNodeNode), DeltaX(S11GDeltaXNode) }
  group! { tg_one{DeltaX, BetaNode}, tg_x{BetaNode, DeltaX} }
  link_type! { tg_x.tos: {tg_x}, tg_one.grp: {tg_one} }
  bidirectional! { tg_x.tos <-> tg_all.tos, tg_all.tos <-> tg_one.grp }
  bidirectional! { tg_one.grp <-> tg_one.tos }
  group! { tg_all{DeltaX} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s11g", fam: 'g', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &[] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "uses", kind: Kind::D, groups: &["grp"] }, LinkDesc { name: "tos", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "kids", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 8 }], data_order: &["uid", "table"], groups: &["grp"], phantom: &[] },
], groups: &[("tg_one", &[1, 0]), ("tg_x", &[0, 1]), ("tg_all", &[1])],
  pairs: &[((0, 2), (0, 3)), ((0, 2), (1, 1)), ((0, 3), (0, 2)), ((0, 3), (1, 1)), ((1, 1), (0, 2)), ((1, 1), (0, 3)), ((1, 1), (1, 1))],
  types: &[((0, 2), &[0, 1]), ((0, 3), &[0, 1]), ((1, 1), &[0, 1]), ((1, 1), &[0, 1])] };
fn mk_0(v: &NV) -> S11GBetaNodeNode { S11GBetaNodeNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]), tos: LinkF::mk(&v.links[3]),  } }
fn rd_0(x: &S11GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.prev_item.rd(), x.uses.rd(), x.tos.rd()], data: vec![] } }
fn wr_0(x: &mut S11GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); } if x.tos.rd() != v.links[3] { x.tos = LinkF::mk(&v.links[3]); }  }
fn mk_1(v: &NV) -> S11GDeltaXNode { S11GDeltaXNode { uid: Tok::mk(v.uid), kids: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), table: Dat::mk(v.data[0]), } }
fn rd_1(x: &S11GDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.kids.rd(), x.tos.rd()], data: vec![x.table.rd()] } }
fn wr_1(x: &mut S11GDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.kids.rd() != v.links[0] { x.kids = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } x.table = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS11G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS11G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS11G::BetaNode(mk_0(v)), 1 => NS11G::DeltaX(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS11G::BetaNode(x) => rd_0(x, 0), NS11G::DeltaX(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS11G::BetaNode(x), 0) => wr_0(x, v), (NS11G::DeltaX(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS11G::BetaNode), 1 => discriminant!(NS11G::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS11G::BetaNode), 1 => alloc_node!(t, NS11G::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS11G::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS11G::DeltaX, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS11G::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS11G::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS11G::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS11G::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS11G::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS11G::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS11G::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS11G::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS11G::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS11G::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS11G::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS11G::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS11G::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS11G::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S11GBetaNodeNode>(), 1 => static_refl::<S11GDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS11G::BetaNode(x) => typed_refl(x, name), NS11G::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS11G::BetaNode(x) => mirror_refl(x), NS11G::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s11x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S11XBetaNodeNode {
  pub uid: Tok,
  pub zz: collections::HashSet<NodeIndex>,
  pub prev_item: IndexSet<NodeIndex>,
  #[group(grp)]
  pub uses: ttgraph::NodeIndex,
  pub tos: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S11XDeltaXNode {
  pub kids: std::collections::BTreeSet<ttgraph::NodeIndex>,
  #[group(grp)]
  pub tos: NodeIndex,
  pub uid: Tok,
  pub table: Option<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS11X { BetaNode(S11XBetaNodeNode), DeltaX(S11XDeltaXNode) }
  bidirectional! { BetaNode.uses <-> BetaNode.tos, }
  link_type! { BetaNode.uses: {BetaNode, DeltaX}, BetaNode.tos: {BetaNode, DeltaX}, DeltaX.tos: {BetaNode, DeltaX} }
  group! { tg_one{DeltaX, BetaNode}, tg_x{BetaNode, DeltaX}, tg_all{DeltaX} }
  bidirectional! { BetaNode.uses <-> DeltaX.tos, BetaNode.tos <-> DeltaX.tos, DeltaX.tos <-> DeltaX.tos }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s11x", fam: 'x', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &[] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "uses", kind: Kind::D, groups: &["grp"] }, LinkDesc { name: "tos", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "kids", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 8 }], data_order: &["uid", "table"], groups: &["grp"], phantom: &[] },
], groups: &[("tg_one", &[1, 0]), ("tg_x", &[0, 1]), ("tg_all", &[1])],
  pairs: &[((0, 2), (0, 3)), ((0, 2), (1, 1)), ((0, 3), (0, 2)), ((0, 3), (1, 1)), ((1, 1), (0, 2)), ((1, 1), (0, 3)), ((1, 1), (1, 1))],
  types: &[((0, 2), &[0, 1]), ((0, 3), &[0, 1]), ((1, 1), &[0, 1])] };
fn mk_0(v: &NV) -> S11XBetaNodeNode { S11XBetaNodeNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]), tos: LinkF::mk(&v.links[3]),  } }
fn rd_0(x: &S11XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.prev_item.rd(), x.uses.rd(), x.tos.rd()], data: vec![] } }
fn wr_0(x: &mut S11XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); } if x.tos.rd() != v.links[3] { x.tos = LinkF::mk(&v.links[3]); }  }
fn mk_1(v: &NV) -> S11XDeltaXNode { S11XDeltaXNode { uid: Tok::mk(v.uid), kids: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), table: Dat::mk(v.data[0]), } }
fn rd_1(x: &S11XDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.kids.rd(), x.tos.rd()], data: vec![x.table.rd()] } }
fn wr_1(x: &mut S11XDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.kids.rd() != v.links[0] { x.kids = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } x.table = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS11X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS11X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS11X::BetaNode(mk_0(v)), 1 => NS11X::DeltaX(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS11X::BetaNode(x) => rd_0(x, 0), NS11X::DeltaX(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS11X::BetaNode(x), 0) => wr_0(x, v), (NS11X::DeltaX(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS11X::BetaNode), 1 => discriminant!(NS11X::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS11X::BetaNode), 1 => alloc_node!(t, NS11X::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS11X::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS11X::DeltaX, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS11X::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS11X::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS11X::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS11X::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS11X::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS11X::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS11X::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS11X::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS11X::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS11X::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS11X::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS11X::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS11X::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS11X::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S11XBetaNodeNode>(), 1 => static_refl::<S11XDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS11X::BetaNode(x) => typed_refl(x, name), NS11X::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS11X::BetaNode(x) => mirror_refl(x), NS11X::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s12p {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(outs)]
pub struct S12PIfNode {
  pub opt: u64,
  pub name: (NodeIndex, u8),
  pub uid: Tok,
  pub arr3: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S12PLongVariantNameNode {
  pub opt: u64,
  #[group(outs)]
  pub owner_of: ::std::collections::HashSet<ttgraph::NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S12PCNode {
  #[group(grp)]
  pub zz: Vec::<NodeIndex>,
  #[group(grp, outs, grp_b)]
  pub in_: ttgraph::NodeIndex,
  pub uid: Tok,
  pub value: Option<u32>,
  pub arr3: String,
  pub table: Vec<u32>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS12P { If(S12PIfNode), LongVariantName(S12PLongVariantNameNode), C(S12PCNode) }
  group! { tg_one{If} }
  group! { tgtwo{If, C}, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s12p", fam: 'p', variants: &[
  VariantDesc { name: "If", links: &[], data: &[DataDesc { name: "opt", ty: 0 }, DataDesc { name: "name", ty: 11 }, DataDesc { name: "arr3", ty: 0 }], data_order: &["opt", "name", "uid", "arr3"], groups: &[], phantom: &["outs"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "owner_of", kind: Kind::S, groups: &["outs"] }], data: &[DataDesc { name: "opt", ty: 0 }], data_order: &["opt", "uid"], groups: &["outs"], phantom: &["grp_b"] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "zz", kind: Kind::V, groups: &["grp"] }, LinkDesc { name: "in_", kind: Kind::D, groups: &["grp", "outs", "grp_b"] }], data: &[DataDesc { name: "value", ty: 2 }, DataDesc { name: "arr3", ty: 1 }, DataDesc { name: "table", ty: 5 }], data_order: &["uid", "value", "arr3", "table"], groups: &["grp", "grp_b", "outs"], phantom: &[] },
], groups: &[("tgtwo", &[0, 2]), ("tg_one", &[0])],
  pairs: &[],
  types: &[] };
fn mk_0(v: &NV) -> S12PIfNode { S12PIfNode { uid: Tok::mk(v.uid),  opt: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), arr3: Dat::mk(v.data[2]), } }
fn rd_0(x: &S12PIfNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![], data: vec![x.opt.rd(), x.name.rd(), x.arr3.rd()] } }
fn wr_0(x: &mut S12PIfNode, v: &NV) { x.uid = Tok::mk(v.uid);  x.opt = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); x.arr3 = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S12PLongVariantNameNode { S12PLongVariantNameNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), } }
fn rd_1(x: &S12PLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd()], data: vec![x.opt.rd()] } }
fn wr_1(x: &mut S12PLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S12PCNode { S12PCNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), in_: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), table: Dat::mk(v.data[2]), } }
fn rd_2(x: &S12PCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.in_.rd()], data: vec![x.value.rd(), x.arr3.rd(), x.table.rd()] } }
fn wr_2(x: &mut S12PCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.in_.rd() != v.links[1] { x.in_ = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.table = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS12P { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS12P;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS12P::If(mk_0(v)), 1 => NS12P::LongVariantName(mk_1(v)), 2 => NS12P::C(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS12P::If(x) => rd_0(x, 0), NS12P::LongVariantName(x) => rd_1(x, 1), NS12P::C(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS12P::If(x), 0) => wr_0(x, v), (NS12P::LongVariantName(x), 1) => wr_1(x, v), (NS12P::C(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS12P::If), 1 => discriminant!(NS12P::LongVariantName), 2 => discriminant!(NS12P::C), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS12P::If), 1 => alloc_node!(t, NS12P::LongVariantName), 2 => alloc_node!(t, NS12P::C), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS12P::If, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS12P::LongVariantName, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS12P::C, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS12P::If).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS12P::LongVariantName).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS12P::C).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS12P::If, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS12P::If, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS12P::If, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS12P::LongVariantName, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS12P::LongVariantName, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS12P::LongVariantName, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS12P::C, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS12P::C, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS12P::C, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS12P::If, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS12P::If, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS12P::If, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS12P::LongVariantName, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS12P::LongVariantName, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS12P::LongVariantName, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS12P::C, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS12P::C, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS12P::C, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S12PIfNode>(), 1 => static_refl::<S12PLongVariantNameNode>(), 2 => static_refl::<S12PCNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS12P::If(x) => typed_refl(x, name), NS12P::LongVariantName(x) => typed_refl(x, name), NS12P::C(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS12P::If(x) => mirror_refl(x), NS12P::LongVariantName(x) => mirror_refl(x), NS12P::C(x) => mirror_refl(x), } }
}
}

pub mod s13t {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S13TCNode {
  #[allow(unused)]
  pub meta_data: [u8; 3],
  #[group(grp_b)]
  #[doc(hidden)]
  pub ref_b: indexmap::set::IndexSet<NodeIndex>,
  /// the field `uses` of #[group(nowhere)]
  #[group(grp_b)]
  #[group(grp)]
  pub uses: ::indexmap::IndexSet<NodeIndex>,
  #[allow(dead_code)]
  #[group(grp_b, grp)]
  pub peer: Vec<NodeIndex>,
  pub opt: Option<NodeIndex>,
  #[allow(unused)]
  pub arr3: (u8, u16),
  #[doc(hidden)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S13TDeltaXNode {
  #[allow(unused)]
  pub uid: Tok,
  #[group(grp_b, grp)]
  #[doc(hidden)]
  pub ref_b: ttgraph::NodeIndex,
  /// the field `value` of #[group(nowhere)]
  pub value: [u8; 3],
  #[allow(dead_code)]
  pub name: HashSet<usize>,
  pub pair: [u8; 3],
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S13TAlphaNode {
  /// the field `zz` of #[group(nowhere)]
  #[group(grp)]
  pub zz: ::ordermap::set::OrderSet<NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S13TLongVariantNameNode {
  /// the field `name` of #[group(nowhere)]
  pub name: Vec<usize>,
  #[allow(dead_code)]
  pub uid: Tok,
  pub meta_data: (NodeIndex, u8),
  #[group(grp_b)]
  #[allow(unused)]
  pub owner_of: ttgraph::NodeIndex,
  #[group(grp_b, grp)]
  #[doc(hidden)]
  pub x1: Vec<ttgraph::NodeIndex>,
  /// the field `zz` of #[group(nowhere)]
  #[group(grp_b)]
  pub zz: ttgraph::NodeIndex,
  #[allow(dead_code)]
  pub peer: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S13TGammaRayNode {
  #[doc(hidden)]
  pub value: [u8; 3],
  /// the field `left_most_link` of #[group(nowhere)]
  #[group(grp_b, grp)]
  pub left_most_link: std::vec::Vec<NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
  #[cfg_attr(all(), allow(unused))]
  #[group(grp_b)]
  pub next: NodeIndex,
  #[group(grp)]
  #[allow(unused)]
  pub x1: indexmap::set::IndexSet<NodeIndex>,
  #[doc(hidden)]
  pub opt: String,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S13TFzNode {
  #[allow(dead_code)]
  pub uid: Tok,
  pub table: [u8; 3],
  #[allow(unused)]
  pub zz: NodeIndex,
  #[group(grp_b)]
  #[doc(hidden)]
  pub uses: NodeIndex,
  /// the field `ref_b` of #[group(nowhere)]
  #[group(grp)]
  pub ref_b: NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS13T { C(crate::schemas::s13t::S13TCNode), DeltaX(S13TDeltaXNode), Alpha(super::s13t::S13TAlphaNode), LongVariantName(self::S13TLongVariantNameNode), GammaRay(crate::schemas::s13t::S13TGammaRayNode), Fz(S13TFzNode) }
  link_type! { GammaRay.grp: {DeltaX, Alpha, GammaRay, LongVariantName}, DeltaX.ref_b: {tg_x, LongVariantName, GammaRay} }
  group! { tg_x{Fz, C, Alpha, DeltaX}, tg_all{DeltaX}, tgtwo{C, Alpha, Fz, DeltaX, LongVariantName, GammaRay} }
  link_type! { GammaRay.grp: {GammaRay} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s13t", fam: 't', variants: &[
  VariantDesc { name: "C", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b", "grp"] }, LinkDesc { name: "peer", kind: Kind::V, groups: &["grp_b", "grp"] }], data: &[DataDesc { name: "meta_data", ty: 4 }, DataDesc { name: "arr3", ty: 3 }, DataDesc { name: "opt", ty: 8 }], data_order: &["meta_data", "opt", "arr3", "uid"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "ref_b", kind: Kind::D, groups: &["grp_b", "grp"] }], data: &[DataDesc { name: "pair", ty: 4 }, DataDesc { name: "name", ty: 10 }, DataDesc { name: "value", ty: 4 }], data_order: &["uid", "value", "name", "pair"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp"] }], data: &[], data_order: &["uid"], groups: &["grp"], phantom: &["grp_b"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "owner_of", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "x1", kind: Kind::V, groups: &["grp_b", "grp"] }, LinkDesc { name: "zz", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "meta_data", ty: 11 }, DataDesc { name: "name", ty: 9 }], data_order: &["name", "uid", "meta_data"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "left_most_link", kind: Kind::V, groups: &["grp_b", "grp"] }, LinkDesc { name: "next", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "opt", ty: 1 }, DataDesc { name: "value", ty: 4 }], data_order: &["value", "uid", "opt"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "zz", kind: Kind::D, groups: &[] }, LinkDesc { name: "uses", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "ref_b", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 4 }], data_order: &["uid", "table"], groups: &["grp", "grp_b"], phantom: &[] },
], groups: &[("tg_x", &[5, 0, 2, 1]), ("tg_all", &[1]), ("tgtwo", &[0, 2, 5, 1, 3, 4])],
  pairs: &[],
  types: &[((1, 0), &[0, 1, 2, 3, 4, 5]), ((4, 0), &[1, 2, 3, 4]), ((4, 0), &[4]), ((4, 2), &[1, 2, 3, 4]), ((4, 2), &[4])] };
fn mk_0(v: &NV) -> S13TCNode { S13TCNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), peer: LinkF::mk(&v.links[2]), meta_data: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), opt: Dat::mk(v.data[2]), } }
fn rd_0(x: &S13TCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd(), x.uses.rd(), x.peer.rd()], data: vec![x.meta_data.rd(), x.arr3.rd(), x.opt.rd()] } }
fn wr_0(x: &mut S13TCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.peer.rd() != v.links[2] { x.peer = LinkF::mk(&v.links[2]); } x.meta_data = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.opt = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S13TDeltaXNode { S13TDeltaXNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), pair: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), value: Dat::mk(v.data[2]), } }
fn rd_1(x: &S13TDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.pair.rd(), x.name.rd(), x.value.rd()] } }
fn wr_1(x: &mut S13TDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.pair = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); x.value = Dat::mk(v.data[2]); }
fn mk_2(v: &NV) -> S13TAlphaNode { S13TAlphaNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]),  } }
fn rd_2(x: &S13TAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd()], data: vec![] } }
fn wr_2(x: &mut S13TAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); }  }
fn mk_3(v: &NV) -> S13TLongVariantNameNode { S13TLongVariantNameNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), zz: LinkF::mk(&v.links[2]), peer: LinkF::mk(&v.links[3]), meta_data: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), } }
fn rd_3(x: &S13TLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd(), x.x1.rd(), x.zz.rd(), x.peer.rd()], data: vec![x.meta_data.rd(), x.name.rd()] } }
fn wr_3(x: &mut S13TLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.zz.rd() != v.links[2] { x.zz = LinkF::mk(&v.links[2]); } if x.peer.rd() != v.links[3] { x.peer = LinkF::mk(&v.links[3]); } x.meta_data = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); }
fn mk_4(v: &NV) -> S13TGammaRayNode { S13TGammaRayNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), next: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]), opt: Dat::mk(v.data[0]), value: Dat::mk(v.data[1]), } }
fn rd_4(x: &S13TGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.next.rd(), x.x1.rd()], data: vec![x.opt.rd(), x.value.rd()] } }
fn wr_4(x: &mut S13TGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.next.rd() != v.links[1] { x.next = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); } x.opt = Dat::mk(v.data[0]); x.value = Dat::mk(v.data[1]); }
fn mk_5(v: &NV) -> S13TFzNode { S13TFzNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), ref_b: LinkF::mk(&v.links[2]), table: Dat::mk(v.data[0]), } }
fn rd_5(x: &S13TFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.uses.rd(), x.ref_b.rd()], data: vec![x.table.rd()] } }
fn wr_5(x: &mut S13TFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.ref_b.rd() != v.links[2] { x.ref_b = LinkF::mk(&v.links[2]); } x.table = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS13T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS13T;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS13T::C(mk_0(v)), 1 => NS13T::DeltaX(mk_1(v)), 2 => NS13T::Alpha(mk_2(v)), 3 => NS13T::LongVariantName(mk_3(v)), 4 => NS13T::GammaRay(mk_4(v)), 5 => NS13T::Fz(mk_5(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS13T::C(x) => rd_0(x, 0), NS13T::DeltaX(x) => rd_1(x, 1), NS13T::Alpha(x) => rd_2(x, 2), NS13T::LongVariantName(x) => rd_3(x, 3), NS13T::GammaRay(x) => rd_4(x, 4), NS13T::Fz(x) => rd_5(x, 5), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS13T::C(x), 0) => wr_0(x, v), (NS13T::DeltaX(x), 1) => wr_1(x, v), (NS13T::Alpha(x), 2) => wr_2(x, v), (NS13T::LongVariantName(x), 3) => wr_3(x, v), (NS13T::GammaRay(x), 4) => wr_4(x, v), (NS13T::Fz(x), 5) => wr_5(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS13T::C), 1 => discriminant!(NS13T::DeltaX), 2 => discriminant!(NS13T::Alpha), 3 => discriminant!(NS13T::LongVariantName), 4 => discriminant!(NS13T::GammaRay), 5 => discriminant!(NS13T::Fz), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS13T::C), 1 => alloc_node!(t, NS13T::DeltaX), 2 => alloc_node!(t, NS13T::Alpha), 3 => alloc_node!(t, NS13T::LongVariantName), 4 => alloc_node!(t, NS13T::GammaRay), 5 => alloc_node!(t, NS13T::Fz), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS13T::C, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS13T::DeltaX, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS13T::Alpha, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS13T::LongVariantName, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS13T::GammaRay, idx).map(|x| rd_4(x, 4)), 5 => get_node!(g, NS13T::Fz, idx).map(|x| rd_5(x, 5)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS13T::C).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS13T::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS13T::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS13T::LongVariantName).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS13T::GammaRay).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), 5 => iter_nodes!(g, NS13T::Fz).map(|(k, x)| (k.0, rd_5(x, 5))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS13T::C, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS13T::C, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS13T::C, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS13T::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS13T::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS13T::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS13T::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS13T::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS13T::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS13T::LongVariantName, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS13T::LongVariantName, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS13T::LongVariantName, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS13T::GammaRay, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS13T::GammaRay, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS13T::GammaRay, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } (5, 0) => { mut_node!(t, NS13T::Fz, idx, move |x| { let n = f(rd_5(x, 5)); wr_5(x, &n) });  } (5, 1) => { mut_node!(t, NS13T::Fz, idx, |node| { let n = f(rd_5(node, 5)); wr_5(node, &n) });  } (5, 2) => { mut_node!(t, NS13T::Fz, idx, y, { let n = f(rd_5(y, 5)); wr_5(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS13T::C, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS13T::C, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS13T::C, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS13T::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS13T::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS13T::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS13T::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS13T::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS13T::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS13T::LongVariantName, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS13T::LongVariantName, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS13T::LongVariantName, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS13T::GammaRay, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS13T::GammaRay, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS13T::GammaRay, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } (5, 0) => { update_node!(t, NS13T::Fz, idx, move |x| { let n = f(rd_5(&x, 5)); mk_5(&n) });  } (5, 1) => { update_node!(t, NS13T::Fz, idx, |node| { let n = f(rd_5(&node, 5)); mk_5(&n) });  } (5, 2) => { update_node!(t, NS13T::Fz, idx, y, { let n = f(rd_5(&y, 5)); mk_5(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S13TCNode>(), 1 => static_refl::<S13TDeltaXNode>(), 2 => static_refl::<S13TAlphaNode>(), 3 => static_refl::<S13TLongVariantNameNode>(), 4 => static_refl::<S13TGammaRayNode>(), 5 => static_refl::<S13TFzNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS13T::C(x) => typed_refl(x, name), NS13T::DeltaX(x) => typed_refl(x, name), NS13T::Alpha(x) => typed_refl(x, name), NS13T::LongVariantName(x) => typed_refl(x, name), NS13T::GammaRay(x) => typed_refl(x, name), NS13T::Fz(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS13T::C(x) => mirror_refl(x), NS13T::DeltaX(x) => mirror_refl(x), NS13T::Alpha(x) => mirror_refl(x), NS13T::LongVariantName(x) => mirror_refl(x), NS13T::GammaRay(x) => mirror_refl(x), NS13T::Fz(x) => mirror_refl(x), } }
}
}

pub mod s14b {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S14BEpsilonNode {
  pub arr3: (u8, u16),
  #[group(grp)]
  #[group(grp_b)]
  pub left_most_link: ::std::collections::HashSet<ttgraph::NodeIndex>,
  pub uid: Tok,
  #[group(linkset, grp, grp_b)]
  pub owner_of: ttgraph::NodeIndex,
  #[group(grp, grp_b)]
  pub peer: ttgraph::NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S14BBetaNodeNode {
  pub uid: Tok,
  #[group(linkset)]
  #[group(grp_b)]
  pub x1: ::std::collections::BTreeSet<NodeIndex>,
  #[group(linkset)]
  pub tos: collections::BTreeSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S14BAlphaNode {
  pub pair: String,
  #[group(grp)]
  pub ref_b: ttgraph::NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S14BCNode {
  #[group(grp)]
  pub zz: Vec::<NodeIndex>,
  #[group(linkset, grp)]
  pub peer: ttgraph::NodeIndex,
  pub uid: Tok,
  pub meta_data: HashSet<usize>,
  pub pair: BTreeMap<u32, String>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(linkset)]
pub struct S14BLongVariantNameNode {
  pub uid: Tok,
  pub value: u64,
  #[group(grp_b)]
  pub x1: ttgraph::NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS14B { Epsilon(S14BEpsilonNode), BetaNode(S14BBetaNodeNode), Alpha(S14BAlphaNode), C(S14BCNode), LongVariantName(S14BLongVariantNameNode) }
  bidirectional! { C.linkset <-> Epsilon.linkset, Alpha.grp <-> BetaNode.linkset }
  group! { tg_one{Epsilon, C, Alpha, BetaNode, LongVariantName}, tg_x{LongVariantName, Epsilon, Alpha, C}, tg_all{C, Epsilon, LongVariantName, BetaNode}, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s14b", fam: 'b', variants: &[
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &["grp", "grp_b"] }, LinkDesc { name: "owner_of", kind: Kind::D, groups: &["linkset", "grp", "grp_b"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["grp", "grp_b"] }], data: &[DataDesc { name: "arr3", ty: 3 }], data_order: &["arr3", "uid"], groups: &["grp", "grp_b", "linkset"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["linkset", "grp_b"] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["linkset"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "linkset"], phantom: &["grp"] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "ref_b", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "pair", ty: 1 }], data_order: &["pair", "uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "zz", kind: Kind::V, groups: &["grp"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["linkset", "grp"] }], data: &[DataDesc { name: "meta_data", ty: 10 }, DataDesc { name: "pair", ty: 7 }], data_order: &["uid", "meta_data", "pair"], groups: &["grp", "linkset"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "x1", kind: Kind::D, groups: &["grp_b"] }], data: &[DataDesc { name: "value", ty: 0 }], data_order: &["uid", "value"], groups: &["grp_b"], phantom: &["linkset"] },
], groups: &[("tg_one", &[0, 3, 2, 1, 4]), ("tg_x", &[4, 0, 2, 3]), ("tg_all", &[3, 0, 4, 1])],
  pairs: &[((0, 1), (3, 1)), ((1, 0), (2, 0)), ((1, 1), (2, 0)), ((2, 0), (1, 0)), ((2, 0), (1, 1)), ((3, 1), (0, 1))],
  types: &[] };
fn mk_0(v: &NV) -> S14BEpsilonNode { S14BEpsilonNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), peer: LinkF::mk(&v.links[2]), arr3: Dat::mk(v.data[0]), } }
fn rd_0(x: &S14BEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.owner_of.rd(), x.peer.rd()], data: vec![x.arr3.rd()] } }
fn wr_0(x: &mut S14BEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } if x.peer.rd() != v.links[2] { x.peer = LinkF::mk(&v.links[2]); } x.arr3 = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S14BBetaNodeNode { S14BBetaNodeNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]),  } }
fn rd_1(x: &S14BBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.tos.rd()], data: vec![] } }
fn wr_1(x: &mut S14BBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); }  }
fn mk_2(v: &NV) -> S14BAlphaNode { S14BAlphaNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), pair: Dat::mk(v.data[0]), } }
fn rd_2(x: &S14BAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.pair.rd()] } }
fn wr_2(x: &mut S14BAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.pair = Dat::mk(v.data[0]); }
fn mk_3(v: &NV) -> S14BCNode { S14BCNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), meta_data: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_3(x: &S14BCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.peer.rd()], data: vec![x.meta_data.rd(), x.pair.rd()] } }
fn wr_3(x: &mut S14BCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } x.meta_data = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_4(v: &NV) -> S14BLongVariantNameNode { S14BLongVariantNameNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), value: Dat::mk(v.data[0]), } }
fn rd_4(x: &S14BLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd()], data: vec![x.value.rd()] } }
fn wr_4(x: &mut S14BLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } x.value = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS14B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS14B;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS14B::Epsilon(mk_0(v)), 1 => NS14B::BetaNode(mk_1(v)), 2 => NS14B::Alpha(mk_2(v)), 3 => NS14B::C(mk_3(v)), 4 => NS14B::LongVariantName(mk_4(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS14B::Epsilon(x) => rd_0(x, 0), NS14B::BetaNode(x) => rd_1(x, 1), NS14B::Alpha(x) => rd_2(x, 2), NS14B::C(x) => rd_3(x, 3), NS14B::LongVariantName(x) => rd_4(x, 4), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS14B::Epsilon(x), 0) => wr_0(x, v), (NS14B::BetaNode(x), 1) => wr_1(x, v), (NS14B::Alpha(x), 2) => wr_2(x, v), (NS14B::C(x), 3) => wr_3(x, v), (NS14B::LongVariantName(x), 4) => wr_4(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS14B::Epsilon), 1 => discriminant!(NS14B::BetaNode), 2 => discriminant!(NS14B::Alpha), 3 => discriminant!(NS14B::C), 4 => discriminant!(NS14B::LongVariantName), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS14B::Epsilon), 1 => alloc_node!(t, NS14B::BetaNode), 2 => alloc_node!(t, NS14B::Alpha), 3 => alloc_node!(t, NS14B::C), 4 => alloc_node!(t, NS14B::LongVariantName), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS14B::Epsilon, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS14B::BetaNode, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS14B::Alpha, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS14B::C, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS14B::LongVariantName, idx).map(|x| rd_4(x, 4)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS14B::Epsilon).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS14B::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS14B::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS14B::C).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS14B::LongVariantName).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS14B::Epsilon, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS14B::Epsilon, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS14B::Epsilon, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS14B::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS14B::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS14B::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS14B::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS14B::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS14B::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS14B::C, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS14B::C, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS14B::C, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS14B::LongVariantName, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS14B::LongVariantName, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS14B::LongVariantName, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS14B::Epsilon, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS14B::Epsilon, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS14B::Epsilon, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS14B::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS14B::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS14B::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS14B::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS14B::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS14B::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS14B::C, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS14B::C, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS14B::C, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS14B::LongVariantName, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS14B::LongVariantName, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS14B::LongVariantName, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S14BEpsilonNode>(), 1 => static_refl::<S14BBetaNodeNode>(), 2 => static_refl::<S14BAlphaNode>(), 3 => static_refl::<S14BCNode>(), 4 => static_refl::<S14BLongVariantNameNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS14B::Epsilon(x) => typed_refl(x, name), NS14B::BetaNode(x) => typed_refl(x, name), NS14B::Alpha(x) => typed_refl(x, name), NS14B::C(x) => typed_refl(x, name), NS14B::LongVariantName(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS14B::Epsilon(x) => mirror_refl(x), NS14B::BetaNode(x) => mirror_refl(x), NS14B::Alpha(x) => mirror_refl(x), NS14B::C(x) => mirror_refl(x), NS14B::LongVariantName(x) => mirror_refl(x), } }
}
}

pub mod s15g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S15GFzNode {
  #[group(grp)]
  #[group(linkset)]
  pub prev_item: ttgraph::NodeIndex,
  pub value: Vec<usize>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp, grp_b)]
pub struct S15GEpsilonNode {
  #[group(linkset)]
  pub x1: ::indexmap::IndexSet<NodeIndex>,
  pub meta_data: HashSet<usize>,
  pub uid: Tok,
  #[group(linkset)]
  pub owner_of: std::collections::BTreeSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S15GLongVariantNameNode {
  pub weight: Vec<usize>,
  pub uid: Tok,
  pub arr3: Vec<usize>,
  #[group(linkset)]
  #[group(grp_b)]
  pub owner_of: std::collections::HashSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S15GBetaNodeNode {
  #[group(grp)]
  #[group(grp_b)]
  pub a: NodeIndex,
  pub uid: Tok,
  pub x1: BTreeSet<NodeIndex>,
  pub pair: [u8; 3],
  pub weight: BTreeMap<u32, String>,
  pub uses: BTreeSet<NodeIndex>,
  #[group(linkset)]
  #[group(grp_b)]
  pub peer: ttgraph::NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS15G { Fz(S15GFzNode), Epsilon(S15GEpsilonNode), LongVariantName(S15GLongVariantNameNode), BetaNode(S15GBetaNodeNode) }
  link_type! { tgtwo.grp_b: tg_x, tgtwo.grp_b: {LongVariantName, BetaNode, Epsilon}, LongVariantName.grp: {Epsilon, BetaNode, tgtwo}, BetaNode.peer: tgtwo }
  group! { tgtwo{BetaNode, Fz, Epsilon}, tg_x{LongVariantName, BetaNode, Epsilon, Fz} }
  bidirectional! { tg_x.grp_b <-> tgtwo.linkset, tg_x.linkset <-> Epsilon.grp_b, BetaNode.linkset <-> tgtwo.grp }
  bidirectional! { Epsilon.grp <-> tgtwo.linkset, tgtwo.linkset <-> tg_x.grp_b, }
  link_type! { tg_x.linkset: {LongVariantName, BetaNode, Fz}, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s15g", fam: 'g', variants: &[
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp", "linkset"] }], data: &[DataDesc { name: "value", ty: 9 }], data_order: &["value", "uid"], groups: &["grp", "linkset"], phantom: &["grp_b"] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["linkset"] }], data: &[DataDesc { name: "meta_data", ty: 10 }], data_order: &["meta_data", "uid"], groups: &["linkset"], phantom: &["grp", "grp_b"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "owner_of", kind: Kind::S, groups: &["linkset", "grp_b"] }], data: &[DataDesc { name: "arr3", ty: 9 }, DataDesc { name: "weight", ty: 9 }], data_order: &["weight", "uid", "arr3"], groups: &["grp_b", "linkset"], phantom: &["grp"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "a", kind: Kind::D, groups: &["grp", "grp_b"] }, LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "uses", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["linkset", "grp_b"] }], data: &[DataDesc { name: "weight", ty: 7 }, DataDesc { name: "pair", ty: 4 }], data_order: &["uid", "pair", "weight"], groups: &["grp", "grp_b", "linkset"], phantom: &[] },
], groups: &[("tgtwo", &[3, 0, 1]), ("tg_x", &[2, 3, 1, 0])],
  pairs: &[((0, 0), (2, 0)), ((0, 0), (3, 0)), ((0, 0), (3, 3)), ((1, 0), (2, 0)), ((1, 0), (3, 0)), ((1, 0), (3, 3)), ((1, 1), (2, 0)), ((1, 1), (3, 0)), ((1, 1), (3, 3)), ((2, 0), (0, 0)), ((2, 0), (1, 0)), ((2, 0), (1, 1)), ((2, 0), (3, 3)), ((3, 0), (0, 0)), ((3, 0), (1, 0)), ((3, 0), (1, 1)), ((3, 0), (3, 3)), ((3, 3), (0, 0)), ((3, 3), (1, 0)), ((3, 3), (1, 1)), ((3, 3), (2, 0)), ((3, 3), (3, 0)), ((3, 3), (3, 3))],
  types: &[((0, 0), &[0, 2, 3]), ((1, 0), &[0, 2, 3]), ((1, 1), &[0, 2, 3]), ((2, 0), &[0, 2, 3]), ((3, 0), &[0, 1, 2, 3]), ((3, 0), &[1, 2, 3]), ((3, 3), &[0, 1, 2, 3]), ((3, 3), &[0, 1, 3]), ((3, 3), &[0, 2, 3]), ((3, 3), &[1, 2, 3])] };
fn mk_0(v: &NV) -> S15GFzNode { S15GFzNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), value: Dat::mk(v.data[0]), } }
fn rd_0(x: &S15GFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd()], data: vec![x.value.rd()] } }
fn wr_0(x: &mut S15GFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } x.value = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S15GEpsilonNode { S15GEpsilonNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), meta_data: Dat::mk(v.data[0]), } }
fn rd_1(x: &S15GEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.owner_of.rd()], data: vec![x.meta_data.rd()] } }
fn wr_1(x: &mut S15GEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } x.meta_data = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S15GLongVariantNameNode { S15GLongVariantNameNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), arr3: Dat::mk(v.data[0]), weight: Dat::mk(v.data[1]), } }
fn rd_2(x: &S15GLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd()], data: vec![x.arr3.rd(), x.weight.rd()] } }
fn wr_2(x: &mut S15GLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } x.arr3 = Dat::mk(v.data[0]); x.weight = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S15GBetaNodeNode { S15GBetaNodeNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]), peer: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_3(x: &S15GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.x1.rd(), x.uses.rd(), x.peer.rd()], data: vec![x.weight.rd(), x.pair.rd()] } }
fn wr_3(x: &mut S15GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); } if x.peer.rd() != v.links[3] { x.peer = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
impl std::fmt::Display for NS15G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS15G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS15G::Fz(mk_0(v)), 1 => NS15G::Epsilon(mk_1(v)), 2 => NS15G::LongVariantName(mk_2(v)), 3 => NS15G::BetaNode(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS15G::Fz(x) => rd_0(x, 0), NS15G::Epsilon(x) => rd_1(x, 1), NS15G::LongVariantName(x) => rd_2(x, 2), NS15G::BetaNode(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS15G::Fz(x), 0) => wr_0(x, v), (NS15G::Epsilon(x), 1) => wr_1(x, v), (NS15G::LongVariantName(x), 2) => wr_2(x, v), (NS15G::BetaNode(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS15G::Fz), 1 => discriminant!(NS15G::Epsilon), 2 => discriminant!(NS15G::LongVariantName), 3 => discriminant!(NS15G::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS15G::Fz), 1 => alloc_node!(t, NS15G::Epsilon), 2 => alloc_node!(t, NS15G::LongVariantName), 3 => alloc_node!(t, NS15G::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS15G::Fz, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS15G::Epsilon, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS15G::LongVariantName, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS15G::BetaNode, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS15G::Fz).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS15G::Epsilon).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS15G::LongVariantName).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS15G::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS15G::Fz, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS15G::Fz, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS15G::Fz, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS15G::Epsilon, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS15G::Epsilon, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS15G::Epsilon, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS15G::LongVariantName, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS15G::LongVariantName, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS15G::LongVariantName, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS15G::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS15G::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS15G::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS15G::Fz, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS15G::Fz, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS15G::Fz, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS15G::Epsilon, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS15G::Epsilon, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS15G::Epsilon, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS15G::LongVariantName, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS15G::LongVariantName, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS15G::LongVariantName, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS15G::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS15G::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS15G::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S15GFzNode>(), 1 => static_refl::<S15GEpsilonNode>(), 2 => static_refl::<S15GLongVariantNameNode>(), 3 => static_refl::<S15GBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS15G::Fz(x) => typed_refl(x, name), NS15G::Epsilon(x) => typed_refl(x, name), NS15G::LongVariantName(x) => typed_refl(x, name), NS15G::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS15G::Fz(x) => mirror_refl(x), NS15G::Epsilon(x) => mirror_refl(x), NS15G::LongVariantName(x) => mirror_refl(x), NS15G::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s15x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S15XFzNode {
  #[group(grp, linkset)]
  pub prev_item: ttgraph::NodeIndex,
  pub value: Vec<usize>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp, grp_b)]
pub struct S15XEpsilonNode {
  #[group(linkset)]
  pub x1: ::indexmap::IndexSet<NodeIndex>,
  #[group(linkset)]
  pub owner_of: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub meta_data: HashSet<usize>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S15XLongVariantNameNode {
  pub arr3: Vec<usize>,
  #[group(linkset)]
  #[group(grp_b)]
  pub owner_of: std::collections::HashSet<NodeIndex>,
  pub uid: Tok,
  pub weight: Vec<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S15XBetaNodeNode {
  pub pair: [u8; 3],
  #[group(grp, grp_b)]
  pub a: NodeIndex,
  pub x1: BTreeSet<NodeIndex>,
  pub uses: BTreeSet<NodeIndex>,
  #[group(linkset, grp_b)]
  pub peer: ttgraph::NodeIndex,
  pub weight: BTreeMap<u32, String>,
  pub uid: Tok,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS15X { Fz(S15XFzNode), Epsilon(S15XEpsilonNode), LongVariantName(S15XLongVariantNameNode), BetaNode(S15XBetaNodeNode) }
  bidirectional! { Epsilon.owner_of <-> LongVariantName.owner_of, Epsilon.owner_of <-> BetaNode.a, Epsilon.owner_of <-> BetaNode.peer, LongVariantName.owner_of <-> BetaNode.peer, BetaNode.a <-> BetaNode.peer, BetaNode.peer <-> BetaNode.peer }
  group! { tgtwo{BetaNode, Fz, Epsilon}, tg_x{LongVariantName, BetaNode, Epsilon, Fz} }
  link_type! { Fz.prev_item: {Fz, LongVariantName, BetaNode}, Epsilon.x1: {Fz, LongVariantName, BetaNode}, Epsilon.owner_of: {Fz, LongVariantName, BetaNode}, LongVariantName.owner_of: {Fz, LongVariantName, BetaNode}, BetaNode.a: {Epsilon, LongVariantName, BetaNode}, BetaNode.peer: BetaNode, }
  bidirectional! { Fz.prev_item <-> LongVariantName.owner_of, Fz.prev_item <-> BetaNode.a, Fz.prev_item <-> BetaNode.peer, Epsilon.x1 <-> LongVariantName.owner_of, Epsilon.x1 <-> BetaNode.a, Epsilon.x1 <-> BetaNode.peer }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s15x", fam: 'x', variants: &[
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "prev_item", kind: Kind::D, groups: &["grp", "linkset"] }], data: &[DataDesc { name: "value", ty: 9 }], data_order: &["value", "uid"], groups: &["grp", "linkset"], phantom: &["grp_b"] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["linkset"] }], data: &[DataDesc { name: "meta_data", ty: 10 }], data_order: &["meta_data", "uid"], groups: &["linkset"], phantom: &["grp", "grp_b"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "owner_of", kind: Kind::S, groups: &["linkset", "grp_b"] }], data: &[DataDesc { name: "arr3", ty: 9 }, DataDesc { name: "weight", ty: 9 }], data_order: &["arr3", "uid", "weight"], groups: &["grp_b", "linkset"], phantom: &["grp"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "a", kind: Kind::D, groups: &["grp", "grp_b"] }, LinkDesc { name: "x1", kind: Kind::S, groups: &[] }, LinkDesc { name: "uses", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["linkset", "grp_b"] }], data: &[DataDesc { name: "weight", ty: 7 }, DataDesc { name: "pair", ty: 4 }], data_order: &["pair", "weight", "uid"], groups: &["grp", "grp_b", "linkset"], phantom: &[] },
], groups: &[("tgtwo", &[3, 0, 1]), ("tg_x", &[2, 3, 1, 0])],
  pairs: &[((0, 0), (2, 0)), ((0, 0), (3, 0)), ((0, 0), (3, 3)), ((1, 0), (2, 0)), ((1, 0), (3, 0)), ((1, 0), (3, 3)), ((1, 1), (2, 0)), ((1, 1), (3, 0)), ((1, 1), (3, 3)), ((2, 0), (0, 0)), ((2, 0), (1, 0)), ((2, 0), (1, 1)), ((2, 0), (3, 3)), ((3, 0), (0, 0)), ((3, 0), (1, 0)), ((3, 0), (1, 1)), ((3, 0), (3, 3)), ((3, 3), (0, 0)), ((3, 3), (1, 0)), ((3, 3), (1, 1)), ((3, 3), (2, 0)), ((3, 3), (3, 0)), ((3, 3), (3, 3))],
  types: &[((0, 0), &[0, 2, 3]), ((1, 0), &[0, 2, 3]), ((1, 1), &[0, 2, 3]), ((2, 0), &[0, 2, 3]), ((3, 0), &[1, 2, 3]), ((3, 3), &[3])] };
fn mk_0(v: &NV) -> S15XFzNode { S15XFzNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), value: Dat::mk(v.data[0]), } }
fn rd_0(x: &S15XFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd()], data: vec![x.value.rd()] } }
fn wr_0(x: &mut S15XFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } x.value = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S15XEpsilonNode { S15XEpsilonNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), meta_data: Dat::mk(v.data[0]), } }
fn rd_1(x: &S15XEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.owner_of.rd()], data: vec![x.meta_data.rd()] } }
fn wr_1(x: &mut S15XEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } x.meta_data = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S15XLongVariantNameNode { S15XLongVariantNameNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), arr3: Dat::mk(v.data[0]), weight: Dat::mk(v.data[1]), } }
fn rd_2(x: &S15XLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd()], data: vec![x.arr3.rd(), x.weight.rd()] } }
fn wr_2(x: &mut S15XLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } x.arr3 = Dat::mk(v.data[0]); x.weight = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S15XBetaNodeNode { S15XBetaNodeNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]), peer: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_3(x: &S15XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.x1.rd(), x.uses.rd(), x.peer.rd()], data: vec![x.weight.rd(), x.pair.rd()] } }
fn wr_3(x: &mut S15XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); } if x.peer.rd() != v.links[3] { x.peer = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
impl std::fmt::Display for NS15X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS15X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS15X::Fz(mk_0(v)), 1 => NS15X::Epsilon(mk_1(v)), 2 => NS15X::LongVariantName(mk_2(v)), 3 => NS15X::BetaNode(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS15X::Fz(x) => rd_0(x, 0), NS15X::Epsilon(x) => rd_1(x, 1), NS15X::LongVariantName(x) => rd_2(x, 2), NS15X::BetaNode(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS15X::Fz(x), 0) => wr_0(x, v), (NS15X::Epsilon(x), 1) => wr_1(x, v), (NS15X::LongVariantName(x), 2) => wr_2(x, v), (NS15X::BetaNode(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS15X::Fz), 1 => discriminant!(NS15X::Epsilon), 2 => discriminant!(NS15X::LongVariantName), 3 => discriminant!(NS15X::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS15X::Fz), 1 => alloc_node!(t, NS15X::Epsilon), 2 => alloc_node!(t, NS15X::LongVariantName), 3 => alloc_node!(t, NS15X::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS15X::Fz, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS15X::Epsilon, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS15X::LongVariantName, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS15X::BetaNode, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS15X::Fz).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS15X::Epsilon).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS15X::LongVariantName).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS15X::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS15X::Fz, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS15X::Fz, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS15X::Fz, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS15X::Epsilon, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS15X::Epsilon, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS15X::Epsilon, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS15X::LongVariantName, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS15X::LongVariantName, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS15X::LongVariantName, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS15X::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS15X::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS15X::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS15X::Fz, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS15X::Fz, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS15X::Fz, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS15X::Epsilon, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS15X::Epsilon, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS15X::Epsilon, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS15X::LongVariantName, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS15X::LongVariantName, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS15X::LongVariantName, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS15X::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS15X::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS15X::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S15XFzNode>(), 1 => static_refl::<S15XEpsilonNode>(), 2 => static_refl::<S15XLongVariantNameNode>(), 3 => static_refl::<S15XBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS15X::Fz(x) => typed_refl(x, name), NS15X::Epsilon(x) => typed_refl(x, name), NS15X::LongVariantName(x) => typed_refl(x, name), NS15X::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS15X::Fz(x) => mirror_refl(x), NS15X::Epsilon(x) => mirror_refl(x), NS15X::LongVariantName(x) => mirror_refl(x), NS15X::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s16m {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S16MBetaNodeNode {
  /// the field `tos` of #[group(nowhere)]
  #[group(grp)]
  #[group(grp_b)]
  pub tos: collections::HashSet<NodeIndex>,
  #[allow(dead_code)]
  #[group(grp_b)]
  #[group(outs)]
  pub left_most_link: NodeIndex,
  #[cfg_attr(all(), allow(unused))]
  #[group(grp_b)]
  pub owner_of: std::collections::HashSet<NodeIndex>,
  #[allow(unused)]
  pub prev_item: ttgraph::NodeIndex,
  #[doc(hidden)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S16MGammaRayNode {
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
  #[allow(dead_code)]
  pub table: String,
  #[cfg_attr(all(), allow(unused))]
  #[group(outs)]
  pub prev_item: ttgraph::NodeIndex,
  #[group(grp)]
  #[allow(unused)]
  pub peer: ttgraph::NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S16MAlphaNode {
  #[allow(dead_code)]
  #[group(outs)]
  pub owner_of: Vec<NodeIndex>,
  pub uid: Tok,
  #[group(grp_b)]
  #[allow(unused)]
  pub tos: ttgraph::NodeIndex,
  #[group(grp_b)]
  #[group(outs)]
  #[doc(hidden)]
  pub uses: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S16MDeltaXNode {
  #[doc(hidden)]
  pub owner_of: vec::Vec<NodeIndex>,
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
  #[allow(dead_code)]
  #[group(grp, outs)]
  pub tos: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S16MFzNode {
  #[cfg_attr(all(), allow(unused))]
  #[group(outs)]
  pub left_most_link: NodeIndex,
  #[allow(unused)]
  pub uid: Tok,
  #[group(grp, grp_b, outs)]
  #[doc(hidden)]
  pub uses: NodeIndex,
  /// the field `ref_b` of #[group(nowhere)]
  #[group(grp, grp_b, outs)]
  pub ref_b: ttgraph::NodeIndex,
  #[allow(dead_code)]
  #[group(grp_b)]
  pub peer: NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS16M { BetaNode(S16MBetaNodeNode), GammaRay(S16MGammaRayNode), Alpha(S16MAlphaNode), DeltaX(S16MDeltaXNode), Fz(S16MFzNode) }
  bidirectional! { tg_all.grp <-> BetaNode.grp_b, BetaNode.grp <-> tg_all.outs }
  link_type! { tg_all.grp: {Alpha, Fz, tg_all}, BetaNode.outs: tg_one, BetaNode.outs: Fz, tg_x.outs: {Alpha, GammaRay}, BetaNode.prev_item: {DeltaX, GammaRay, BetaNode, Fz} }
  group! { tg_x{Alpha, DeltaX, BetaNode, Fz}, tg_one{GammaRay, DeltaX, Fz, Alpha}, tg_all{DeltaX, BetaNode} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s16m", fam: 'm', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "tos", kind: Kind::S, groups: &["grp", "grp_b"] }, LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["grp_b", "outs"] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "prev_item", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &["grp", "grp_b", "outs"], phantom: &[] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "prev_item", kind: Kind::D, groups: &["outs"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 1 }], data_order: &["uid", "table"], groups: &["grp", "outs"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "owner_of", kind: Kind::V, groups: &["outs"] }, LinkDesc { name: "tos", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "uses", kind: Kind::D, groups: &["grp_b", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp_b", "outs"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "owner_of", kind: Kind::V, groups: &[] }, LinkDesc { name: "tos", kind: Kind::D, groups: &["grp", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "outs"], phantom: &["grp_b"] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["outs"] }, LinkDesc { name: "uses", kind: Kind::D, groups: &["grp", "grp_b", "outs"] }, LinkDesc { name: "ref_b", kind: Kind::D, groups: &["grp", "grp_b", "outs"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["grp_b"] }], data: &[], data_order: &["uid"], groups: &["grp", "grp_b", "outs"], phantom: &[] },
], groups: &[("tg_x", &[2, 3, 0, 4]), ("tg_one", &[1, 3, 4, 2]), ("tg_all", &[3, 0])],
  pairs: &[((0, 0), (0, 0)), ((0, 0), (0, 1)), ((0, 0), (0, 2)), ((0, 0), (3, 1)), ((0, 1), (0, 0)), ((0, 1), (3, 1)), ((0, 2), (0, 0)), ((0, 2), (3, 1)), ((3, 1), (0, 0)), ((3, 1), (0, 1)), ((3, 1), (0, 2))],
  types: &[((0, 0), &[0, 2, 3, 4]), ((0, 1), &[1, 2]), ((0, 1), &[1, 2, 3, 4]), ((0, 1), &[4]), ((0, 3), &[0, 1, 3, 4]), ((2, 0), &[1, 2]), ((2, 2), &[1, 2]), ((3, 1), &[0, 2, 3, 4]), ((3, 1), &[1, 2]), ((4, 0), &[1, 2]), ((4, 1), &[1, 2]), ((4, 2), &[1, 2])] };
fn mk_0(v: &NV) -> S16MBetaNodeNode { S16MBetaNodeNode { uid: Tok::mk(v.uid), tos: LinkF::mk(&v.links[0]), left_most_link: LinkF::mk(&v.links[1]), owner_of: LinkF::mk(&v.links[2]), prev_item: LinkF::mk(&v.links[3]),  } }
fn rd_0(x: &S16MBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.tos.rd(), x.left_most_link.rd(), x.owner_of.rd(), x.prev_item.rd()], data: vec![] } }
fn wr_0(x: &mut S16MBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.tos.rd() != v.links[0] { x.tos = LinkF::mk(&v.links[0]); } if x.left_most_link.rd() != v.links[1] { x.left_most_link = LinkF::mk(&v.links[1]); } if x.owner_of.rd() != v.links[2] { x.owner_of = LinkF::mk(&v.links[2]); } if x.prev_item.rd() != v.links[3] { x.prev_item = LinkF::mk(&v.links[3]); }  }
fn mk_1(v: &NV) -> S16MGammaRayNode { S16MGammaRayNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), table: Dat::mk(v.data[0]), } }
fn rd_1(x: &S16MGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.peer.rd()], data: vec![x.table.rd()] } }
fn wr_1(x: &mut S16MGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } x.table = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S16MAlphaNode { S16MAlphaNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]), uses: LinkF::mk(&v.links[2]),  } }
fn rd_2(x: &S16MAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd(), x.tos.rd(), x.uses.rd()], data: vec![] } }
fn wr_2(x: &mut S16MAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); } if x.uses.rd() != v.links[2] { x.uses = LinkF::mk(&v.links[2]); }  }
fn mk_3(v: &NV) -> S16MDeltaXNode { S16MDeltaXNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), tos: LinkF::mk(&v.links[1]),  } }
fn rd_3(x: &S16MDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd(), x.tos.rd()], data: vec![] } }
fn wr_3(x: &mut S16MDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } if x.tos.rd() != v.links[1] { x.tos = LinkF::mk(&v.links[1]); }  }
fn mk_4(v: &NV) -> S16MFzNode { S16MFzNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), ref_b: LinkF::mk(&v.links[2]), peer: LinkF::mk(&v.links[3]),  } }
fn rd_4(x: &S16MFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.uses.rd(), x.ref_b.rd(), x.peer.rd()], data: vec![] } }
fn wr_4(x: &mut S16MFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.ref_b.rd() != v.links[2] { x.ref_b = LinkF::mk(&v.links[2]); } if x.peer.rd() != v.links[3] { x.peer = LinkF::mk(&v.links[3]); }  }
impl std::fmt::Display for NS16M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS16M;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS16M::BetaNode(mk_0(v)), 1 => NS16M::GammaRay(mk_1(v)), 2 => NS16M::Alpha(mk_2(v)), 3 => NS16M::DeltaX(mk_3(v)), 4 => NS16M::Fz(mk_4(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS16M::BetaNode(x) => rd_0(x, 0), NS16M::GammaRay(x) => rd_1(x, 1), NS16M::Alpha(x) => rd_2(x, 2), NS16M::DeltaX(x) => rd_3(x, 3), NS16M::Fz(x) => rd_4(x, 4), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS16M::BetaNode(x), 0) => wr_0(x, v), (NS16M::GammaRay(x), 1) => wr_1(x, v), (NS16M::Alpha(x), 2) => wr_2(x, v), (NS16M::DeltaX(x), 3) => wr_3(x, v), (NS16M::Fz(x), 4) => wr_4(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS16M::BetaNode), 1 => discriminant!(NS16M::GammaRay), 2 => discriminant!(NS16M::Alpha), 3 => discriminant!(NS16M::DeltaX), 4 => discriminant!(NS16M::Fz), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS16M::BetaNode), 1 => alloc_node!(t, NS16M::GammaRay), 2 => alloc_node!(t, NS16M::Alpha), 3 => alloc_node!(t, NS16M::DeltaX), 4 => alloc_node!(t, NS16M::Fz), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS16M::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS16M::GammaRay, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS16M::Alpha, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS16M::DeltaX, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS16M::Fz, idx).map(|x| rd_4(x, 4)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS16M::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS16M::GammaRay).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS16M::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS16M::DeltaX).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS16M::Fz).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS16M::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS16M::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS16M::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS16M::GammaRay, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS16M::GammaRay, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS16M::GammaRay, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS16M::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS16M::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS16M::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS16M::DeltaX, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS16M::DeltaX, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS16M::DeltaX, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS16M::Fz, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS16M::Fz, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS16M::Fz, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS16M::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS16M::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS16M::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS16M::GammaRay, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS16M::GammaRay, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS16M::GammaRay, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS16M::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS16M::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS16M::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS16M::DeltaX, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS16M::DeltaX, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS16M::DeltaX, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS16M::Fz, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS16M::Fz, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS16M::Fz, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S16MBetaNodeNode>(), 1 => static_refl::<S16MGammaRayNode>(), 2 => static_refl::<S16MAlphaNode>(), 3 => static_refl::<S16MDeltaXNode>(), 4 => static_refl::<S16MFzNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS16M::BetaNode(x) => typed_refl(x, name), NS16M::GammaRay(x) => typed_refl(x, name), NS16M::Alpha(x) => typed_refl(x, name), NS16M::DeltaX(x) => typed_refl(x, name), NS16M::Fz(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS16M::BetaNode(x) => mirror_refl(x), NS16M::GammaRay(x) => mirror_refl(x), NS16M::Alpha(x) => mirror_refl(x), NS16M::DeltaX(x) => mirror_refl(x), NS16M::Fz(x) => mirror_refl(x), } }
}
}

pub mod s17p {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S17PLongVariantNameNode {
  pub opt: HashSet<usize>,
  pub uid: Tok,
  pub meta_data: Vec<u32>,
  #[group(grp_b)]
  pub node_index: Vec<ttgraph::NodeIndex>,
  pub arr3: (NodeIndex, u8),
  #[group(grp_b)]
  pub next: IndexSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S17PTypeNode {
  pub pair: Vec<u32>,
  pub arr3: [u8; 3],
  pub weight: u64,
  pub uid: Tok,
  pub node_index: Vec::<NodeIndex>,
  #[group(grp_b)]
  pub owner_of: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub zz: ::std::collections::BTreeSet<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS17P { LongVariantName(S17PLongVariantNameNode), Type(S17PTypeNode), If(S17PLongVariantNameNode) }
  group! { tg_one{Type}, tgtwo{If, Type}, tg_x{LongVariantName, If, Type} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s17p", fam: 'p', variants: &[
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "node_index", kind: Kind::V, groups: &["grp_b"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "opt", ty: 10 }, DataDesc { name: "meta_data", ty: 5 }, DataDesc { name: "arr3", ty: 11 }], data_order: &["opt", "uid", "meta_data", "arr3"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Type", links: &[LinkDesc { name: "node_index", kind: Kind::V, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "zz", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "weight", ty: 0 }, DataDesc { name: "pair", ty: 5 }, DataDesc { name: "arr3", ty: 4 }], data_order: &["pair", "arr3", "weight", "uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "If", links: &[LinkDesc { name: "node_index", kind: Kind::V, groups: &["grp_b"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "opt", ty: 10 }, DataDesc { name: "meta_data", ty: 5 }, DataDesc { name: "arr3", ty: 11 }], data_order: &["opt", "uid", "meta_data", "arr3"], groups: &["grp_b"], phantom: &[] },
], groups: &[("tg_one", &[1]), ("tgtwo", &[2, 1]), ("tg_x", &[0, 2, 1])],
  pairs: &[],
  types: &[] };
fn mk_0(v: &NV) -> S17PLongVariantNameNode { S17PLongVariantNameNode { uid: Tok::mk(v.uid), node_index: LinkF::mk(&v.links[0]), next: LinkF::mk(&v.links[1]), opt: Dat::mk(v.data[0]), meta_data: Dat::mk(v.data[1]), arr3: Dat::mk(v.data[2]), } }
fn rd_0(x: &S17PLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.node_index.rd(), x.next.rd()], data: vec![x.opt.rd(), x.meta_data.rd(), x.arr3.rd()] } }
fn wr_0(x: &mut S17PLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.node_index.rd() != v.links[0] { x.node_index = LinkF::mk(&v.links[0]); } if x.next.rd() != v.links[1] { x.next = LinkF::mk(&v.links[1]); } x.opt = Dat::mk(v.data[0]); x.meta_data = Dat::mk(v.data[1]); x.arr3 = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S17PTypeNode { S17PTypeNode { uid: Tok::mk(v.uid), node_index: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), zz: LinkF::mk(&v.links[2]), weight: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), arr3: Dat::mk(v.data[2]), } }
fn rd_1(x: &S17PTypeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.node_index.rd(), x.owner_of.rd(), x.zz.rd()], data: vec![x.weight.rd(), x.pair.rd(), x.arr3.rd()] } }
fn wr_1(x: &mut S17PTypeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.node_index.rd() != v.links[0] { x.node_index = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } if x.zz.rd() != v.links[2] { x.zz = LinkF::mk(&v.links[2]); } x.weight = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); x.arr3 = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS17P { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS17P;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS17P::LongVariantName(mk_0(v)), 1 => NS17P::Type(mk_1(v)), 2 => NS17P::If(mk_0(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS17P::LongVariantName(x) => rd_0(x, 0), NS17P::Type(x) => rd_1(x, 1), NS17P::If(x) => rd_0(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS17P::LongVariantName(x), 0) => wr_0(x, v), (NS17P::Type(x), 1) => wr_1(x, v), (NS17P::If(x), 2) => wr_0(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS17P::LongVariantName), 1 => discriminant!(NS17P::Type), 2 => discriminant!(NS17P::If), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS17P::LongVariantName), 1 => alloc_node!(t, NS17P::Type), 2 => alloc_node!(t, NS17P::If), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS17P::LongVariantName, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS17P::Type, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS17P::If, idx).map(|x| rd_0(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS17P::LongVariantName).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS17P::Type).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS17P::If).map(|(k, x)| (k.0, rd_0(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS17P::LongVariantName, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS17P::LongVariantName, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS17P::LongVariantName, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS17P::Type, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS17P::Type, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS17P::Type, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS17P::If, idx, move |x| { let n = f(rd_0(x, 2)); wr_0(x, &n) });  } (2, 1) => { mut_node!(t, NS17P::If, idx, |node| { let n = f(rd_0(node, 2)); wr_0(node, &n) });  } (2, 2) => { mut_node!(t, NS17P::If, idx, y, { let n = f(rd_0(y, 2)); wr_0(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS17P::LongVariantName, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS17P::LongVariantName, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS17P::LongVariantName, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS17P::Type, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS17P::Type, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS17P::Type, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS17P::If, idx, move |x| { let n = f(rd_0(&x, 2)); mk_0(&n) });  } (2, 1) => { update_node!(t, NS17P::If, idx, |node| { let n = f(rd_0(&node, 2)); mk_0(&n) });  } (2, 2) => { update_node!(t, NS17P::If, idx, y, { let n = f(rd_0(&y, 2)); mk_0(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S17PLongVariantNameNode>(), 1 => static_refl::<S17PTypeNode>(), 2 => static_refl::<S17PLongVariantNameNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS17P::LongVariantName(x) => typed_refl(x, name), NS17P::Type(x) => typed_refl(x, name), NS17P::If(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS17P::LongVariantName(x) => mirror_refl(x), NS17P::Type(x) => mirror_refl(x), NS17P::If(x) => mirror_refl(x), } }
}
}

pub mod s18b {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S18BEpsilonNode {
  pub pair: [u8; 3],
  pub left_most_link: HashSet::<NodeIndex>,
  pub in_edges: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub kids: vec::Vec<NodeIndex>,
  pub uid: Tok,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS18B { Epsilon(S18BEpsilonNode) }
  group! { tg_one{Epsilon} }
  bidirectional! { Epsilon.left_most_link <-> Epsilon.in_edges, Epsilon.in_edges <-> Epsilon.in_edges, Epsilon.left_most_link <-> Epsilon.in_edges, Epsilon.left_most_link <-> Epsilon.in_edges }
  group! { tg_x{Epsilon}, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s18b", fam: 'b', variants: &[
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &[] }, LinkDesc { name: "kids", kind: Kind::V, groups: &[] }], data: &[DataDesc { name: "pair", ty: 4 }], data_order: &["pair", "uid"], groups: &[], phantom: &[] },
], groups: &[("tg_one", &[0]), ("tg_x", &[0])],
  pairs: &[((0, 0), (0, 1)), ((0, 1), (0, 0)), ((0, 1), (0, 1))],
  types: &[] };
fn mk_0(v: &NV) -> S18BEpsilonNode { S18BEpsilonNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), in_edges: LinkF::mk(&v.links[1]), kids: LinkF::mk(&v.links[2]), pair: Dat::mk(v.data[0]), } }
fn rd_0(x: &S18BEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.in_edges.rd(), x.kids.rd()], data: vec![x.pair.rd()] } }
fn wr_0(x: &mut S18BEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.in_edges.rd() != v.links[1] { x.in_edges = LinkF::mk(&v.links[1]); } if x.kids.rd() != v.links[2] { x.kids = LinkF::mk(&v.links[2]); } x.pair = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS18B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS18B;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS18B::Epsilon(mk_0(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS18B::Epsilon(x) => rd_0(x, 0), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS18B::Epsilon(x), 0) => wr_0(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS18B::Epsilon), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS18B::Epsilon), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS18B::Epsilon, idx).map(|x| rd_0(x, 0)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS18B::Epsilon).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS18B::Epsilon, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS18B::Epsilon, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS18B::Epsilon, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS18B::Epsilon, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS18B::Epsilon, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS18B::Epsilon, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S18BEpsilonNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS18B::Epsilon(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS18B::Epsilon(x) => mirror_refl(x), } }
}
}

pub mod s19t {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S19TCNode {
  /// the field `tos` of #[group(nowhere)]
  #[group(grp)]
  #[group(outs)]
  pub tos: IndexSet<NodeIndex>,
  #[allow(dead_code)]
  pub arr3: HashSet<usize>,
  pub name: Box<i64>,
  #[allow(unused)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(outs)]
pub struct S19TFzNode {
  #[allow(unused)]
  pub kids: ::ordermap::OrderSet<NodeIndex>,
  #[doc(hidden)]
  pub a: std::collections::HashSet<NodeIndex>,
  /// the field `meta_data` of #[group(nowhere)]
  pub meta_data: Vec<u32>,
  #[allow(dead_code)]
  #[group(grp)]
  pub zz: ordermap::OrderSet<NodeIndex>,
  pub name: Vec<usize>,
  #[allow(unused)]
  pub uid: Tok,
  #[doc(hidden)]
  pub arr3: [u8; 3],
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS19T { C(S19TCNode), Fz(S19TFzNode) }
  link_type! { Fz.grp: C, C.outs: {tg_all}, Fz.zz: {tg_x}, C.tos: Fz, Fz.outs: {tg_all} }
  group! { tg_x{Fz}, tgtwo{C}, tg_all{C} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s19t", fam: 't', variants: &[
  VariantDesc { name: "C", links: &[LinkDesc { name: "tos", kind: Kind::S, groups: &["grp", "outs"] }], data: &[DataDesc { name: "arr3", ty: 10 }, DataDesc { name: "name", ty: 6 }], data_order: &["arr3", "name", "uid"], groups: &["grp", "outs"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "kids", kind: Kind::S, groups: &[] }, LinkDesc { name: "a", kind: Kind::S, groups: &[] }, LinkDesc { name: "zz", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "name", ty: 9 }, DataDesc { name: "meta_data", ty: 5 }, DataDesc { name: "arr3", ty: 4 }], data_order: &["meta_data", "name", "uid", "arr3"], groups: &["grp"], phantom: &["outs"] },
], groups: &[("tg_x", &[1]), ("tgtwo", &[0]), ("tg_all", &[0])],
  pairs: &[],
  types: &[((0, 0), &[0]), ((0, 0), &[1]), ((1, 2), &[0]), ((1, 2), &[1])] };
fn mk_0(v: &NV) -> S19TCNode { S19TCNode { uid: Tok::mk(v.uid), tos: LinkF::mk(&v.links[0]), arr3: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), } }
fn rd_0(x: &S19TCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.tos.rd()], data: vec![x.arr3.rd(), x.name.rd()] } }
fn wr_0(x: &mut S19TCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.tos.rd() != v.links[0] { x.tos = LinkF::mk(&v.links[0]); } x.arr3 = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); }
fn mk_1(v: &NV) -> S19TFzNode { S19TFzNode { uid: Tok::mk(v.uid), kids: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), zz: LinkF::mk(&v.links[2]), name: Dat::mk(v.data[0]), meta_data: Dat::mk(v.data[1]), arr3: Dat::mk(v.data[2]), } }
fn rd_1(x: &S19TFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.kids.rd(), x.a.rd(), x.zz.rd()], data: vec![x.name.rd(), x.meta_data.rd(), x.arr3.rd()] } }
fn wr_1(x: &mut S19TFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.kids.rd() != v.links[0] { x.kids = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } if x.zz.rd() != v.links[2] { x.zz = LinkF::mk(&v.links[2]); } x.name = Dat::mk(v.data[0]); x.meta_data = Dat::mk(v.data[1]); x.arr3 = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS19T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS19T;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS19T::C(mk_0(v)), 1 => NS19T::Fz(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS19T::C(x) => rd_0(x, 0), NS19T::Fz(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS19T::C(x), 0) => wr_0(x, v), (NS19T::Fz(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS19T::C), 1 => discriminant!(NS19T::Fz), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS19T::C), 1 => alloc_node!(t, NS19T::Fz), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS19T::C, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS19T::Fz, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS19T::C).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS19T::Fz).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS19T::C, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS19T::C, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS19T::C, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS19T::Fz, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS19T::Fz, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS19T::Fz, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS19T::C, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS19T::C, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS19T::C, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS19T::Fz, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS19T::Fz, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS19T::Fz, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S19TCNode>(), 1 => static_refl::<S19TFzNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS19T::C(x) => typed_refl(x, name), NS19T::Fz(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS19T::C(x) => mirror_refl(x), NS19T::Fz(x) => mirror_refl(x), } }
}
}

pub mod s20g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S20GBetaNodeNode {
  #[group(grp_b)]
  #[group(linkset)]
  #[group(grp)]
  pub x1: std::collections::BTreeSet<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub next: ordermap::set::OrderSet<NodeIndex>,
  #[group(grp_b)]
  #[group(linkset)]
  #[group(grp)]
  pub tos: collections::BTreeSet<NodeIndex>,
  pub uid: Tok,
  pub pair: Vec<u32>,
  pub opt: [u8; 3],
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S20GDeltaXNode {
  pub uid: Tok,
  pub in_edges: NodeIndex,
  #[group(grp)]
  pub a: ::indexmap::set::IndexSet<NodeIndex>,
  pub value: [u8; 3],
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS20G { BetaNode(S20GBetaNodeNode), DeltaX(S20GDeltaXNode) }
  link_type! { DeltaX.a: DeltaX, DeltaX.grp: tgtwo, DeltaX.grp: {DeltaX} }
  group! { tgtwo{BetaNode, DeltaX} }
  bidirectional! { tgtwo.grp_b <-> tgtwo.grp, tgtwo.grp_b <-> tgtwo.grp_b, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s20g", fam: 'g', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["grp_b", "linkset", "grp"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp_b", "linkset", "grp"] }], data: &[DataDesc { name: "opt", ty: 4 }, DataDesc { name: "pair", ty: 5 }], data_order: &["uid", "pair", "opt"], groups: &["grp", "grp_b", "linkset"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "in_edges", kind: Kind::D, groups: &[] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "value", ty: 4 }], data_order: &["uid", "value"], groups: &["grp"], phantom: &["grp_b"] },
], groups: &[("tgtwo", &[0, 1])],
  pairs: &[((0, 0), (0, 0)), ((0, 0), (0, 1)), ((0, 0), (0, 2)), ((0, 0), (1, 1)), ((0, 1), (0, 0)), ((0, 1), (0, 1)), ((0, 1), (0, 2)), ((0, 1), (1, 1)), ((0, 2), (0, 0)), ((0, 2), (0, 1)), ((0, 2), (0, 2)), ((0, 2), (1, 1)), ((1, 1), (0, 0)), ((1, 1), (0, 1)), ((1, 1), (0, 2))],
  types: &[((1, 1), &[0, 1]), ((1, 1), &[1]), ((1, 1), &[1])] };
fn mk_0(v: &NV) -> S20GBetaNodeNode { S20GBetaNodeNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), next: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]), opt: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_0(x: &S20GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.next.rd(), x.tos.rd()], data: vec![x.opt.rd(), x.pair.rd()] } }
fn wr_0(x: &mut S20GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.next.rd() != v.links[1] { x.next = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); } x.opt = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_1(v: &NV) -> S20GDeltaXNode { S20GDeltaXNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), } }
fn rd_1(x: &S20GDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.a.rd()], data: vec![x.value.rd()] } }
fn wr_1(x: &mut S20GDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS20G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS20G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS20G::BetaNode(mk_0(v)), 1 => NS20G::DeltaX(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS20G::BetaNode(x) => rd_0(x, 0), NS20G::DeltaX(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS20G::BetaNode(x), 0) => wr_0(x, v), (NS20G::DeltaX(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS20G::BetaNode), 1 => discriminant!(NS20G::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS20G::BetaNode), 1 => alloc_node!(t, NS20G::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS20G::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS20G::DeltaX, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS20G::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS20G::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS20G::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS20G::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS20G::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS20G::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS20G::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS20G::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS20G::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS20G::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS20G::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS20G::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS20G::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS20G::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S20GBetaNodeNode>(), 1 => static_refl::<S20GDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS20G::BetaNode(x) => typed_refl(x, name), NS20G::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS20G::BetaNode(x) => mirror_refl(x), NS20G::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s20x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S20XBetaNodeNode {
  pub uid: Tok,
  pub opt: [u8; 3],
  #[group(grp_b)]
  #[group(linkset)]
  #[group(grp)]
  pub x1: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub pair: Vec<u32>,
  #[group(grp_b)]
  pub next: ordermap::set::OrderSet<NodeIndex>,
  #[group(grp_b)]
  #[group(linkset)]
  #[group(grp)]
  pub tos: collections::BTreeSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S20XDeltaXNode {
  pub value: [u8; 3],
  pub in_edges: NodeIndex,
  #[group(grp)]
  pub a: ::indexmap::set::IndexSet<NodeIndex>,
  pub uid: Tok,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS20X { BetaNode(S20XBetaNodeNode), DeltaX(S20XDeltaXNode) }
  link_type! { DeltaX.a: DeltaX, }
  bidirectional! { BetaNode.x1 <-> BetaNode.x1, BetaNode.x1 <-> BetaNode.next, BetaNode.x1 <-> BetaNode.tos, BetaNode.x1 <-> DeltaX.a, BetaNode.next <-> BetaNode.next, BetaNode.next <-> BetaNode.tos, BetaNode.next <-> DeltaX.a, BetaNode.tos <-> BetaNode.tos, BetaNode.tos <-> DeltaX.a }
  group! { tgtwo{BetaNode, DeltaX} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s20x", fam: 'x', variants: &[
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "x1", kind: Kind::S, groups: &["grp_b", "linkset", "grp"] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp_b", "linkset", "grp"] }], data: &[DataDesc { name: "opt", ty: 4 }, DataDesc { name: "pair", ty: 5 }], data_order: &["uid", "opt", "pair"], groups: &["grp", "grp_b", "linkset"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "in_edges", kind: Kind::D, groups: &[] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "value", ty: 4 }], data_order: &["value", "uid"], groups: &["grp"], phantom: &["grp_b"] },
], groups: &[("tgtwo", &[0, 1])],
  pairs: &[((0, 0), (0, 0)), ((0, 0), (0, 1)), ((0, 0), (0, 2)), ((0, 0), (1, 1)), ((0, 1), (0, 0)), ((0, 1), (0, 1)), ((0, 1), (0, 2)), ((0, 1), (1, 1)), ((0, 2), (0, 0)), ((0, 2), (0, 1)), ((0, 2), (0, 2)), ((0, 2), (1, 1)), ((1, 1), (0, 0)), ((1, 1), (0, 1)), ((1, 1), (0, 2))],
  types: &[((1, 1), &[1])] };
fn mk_0(v: &NV) -> S20XBetaNodeNode { S20XBetaNodeNode { uid: Tok::mk(v.uid), x1: LinkF::mk(&v.links[0]), next: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]), opt: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_0(x: &S20XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.x1.rd(), x.next.rd(), x.tos.rd()], data: vec![x.opt.rd(), x.pair.rd()] } }
fn wr_0(x: &mut S20XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.x1.rd() != v.links[0] { x.x1 = LinkF::mk(&v.links[0]); } if x.next.rd() != v.links[1] { x.next = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); } x.opt = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_1(v: &NV) -> S20XDeltaXNode { S20XDeltaXNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), value: Dat::mk(v.data[0]), } }
fn rd_1(x: &S20XDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.a.rd()], data: vec![x.value.rd()] } }
fn wr_1(x: &mut S20XDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } x.value = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS20X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS20X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS20X::BetaNode(mk_0(v)), 1 => NS20X::DeltaX(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS20X::BetaNode(x) => rd_0(x, 0), NS20X::DeltaX(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS20X::BetaNode(x), 0) => wr_0(x, v), (NS20X::DeltaX(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS20X::BetaNode), 1 => discriminant!(NS20X::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS20X::BetaNode), 1 => alloc_node!(t, NS20X::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS20X::BetaNode, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS20X::DeltaX, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS20X::BetaNode).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS20X::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS20X::BetaNode, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS20X::BetaNode, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS20X::BetaNode, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS20X::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS20X::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS20X::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS20X::BetaNode, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS20X::BetaNode, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS20X::BetaNode, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS20X::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS20X::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS20X::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S20XBetaNodeNode>(), 1 => static_refl::<S20XDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS20X::BetaNode(x) => typed_refl(x, name), NS20X::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS20X::BetaNode(x) => mirror_refl(x), NS20X::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s21b {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S21BAlphaNode {
  #[group(linkset)]
  pub peer: ttgraph::NodeIndex,
  pub meta_data: [u8; 3],
  pub weight: String,
  #[group(linkset, outs)]
  pub x1: ttgraph::NodeIndex,
  pub uid: Tok,
  pub name: Box<i64>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(linkset)]
pub struct S21BEpsilonNode {
  #[group(outs)]
  pub owner_of: NodeIndex,
  pub peer: ttgraph::NodeIndex,
  #[group(grp)]
  #[group(outs)]
  pub in_edges: ttgraph::NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp, outs)]
pub struct S21BBetaNodeNode {
  pub uid: Tok,
  pub name: u64,
  #[group(linkset)]
  pub left_most_link: ttgraph::NodeIndex,
  pub meta_data: BTreeMap<u32, String>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S21BLongVariantNameNode {
  pub value: Option<u32>,
  pub weight: u64,
  #[group(linkset)]
  pub zz: std::collections::HashSet<NodeIndex>,
  pub table: Vec<u32>,
  #[group(outs)]
  pub uses: collections::HashSet<NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S21BCNode {
  #[group(linkset)]
  pub in_edges: Vec::<NodeIndex>,
  #[group(outs)]
  pub peer: NodeIndex,
  #[group(linkset)]
  pub tos: BTreeSet<NodeIndex>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S21BDeltaXNode {
  pub uid: Tok,
  #[group(grp, linkset)]
  pub kids: std::collections::HashSet<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS21B { Alpha(S21BAlphaNode), Epsilon(S21BEpsilonNode), BetaNode(S21BBetaNodeNode), LongVariantName(S21BLongVariantNameNode), C(S21BCNode), DeltaX(S21BDeltaXNode) }
  bidirectional! { Alpha.linkset <-> BetaNode.left_most_link, Epsilon.in_edges <-> C.peer }
  group! { tg_one{C, Alpha, Epsilon} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s21b", fam: 'b', variants: &[
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &["linkset"] }, LinkDesc { name: "x1", kind: Kind::D, groups: &["linkset", "outs"] }], data: &[DataDesc { name: "meta_data", ty: 4 }, DataDesc { name: "weight", ty: 1 }, DataDesc { name: "name", ty: 6 }], data_order: &["meta_data", "weight", "uid", "name"], groups: &["linkset", "outs"], phantom: &["grp"] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "owner_of", kind: Kind::D, groups: &["outs"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &[] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &["grp", "outs"] }], data: &[], data_order: &["uid"], groups: &["grp", "outs"], phantom: &["linkset"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["linkset"] }], data: &[DataDesc { name: "name", ty: 0 }, DataDesc { name: "meta_data", ty: 7 }], data_order: &["uid", "name", "meta_data"], groups: &["linkset"], phantom: &["grp", "outs"] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["outs"] }], data: &[DataDesc { name: "weight", ty: 0 }, DataDesc { name: "table", ty: 5 }, DataDesc { name: "value", ty: 2 }], data_order: &["value", "weight", "table", "uid"], groups: &["linkset", "outs"], phantom: &["grp"] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "in_edges", kind: Kind::V, groups: &["linkset"] }, LinkDesc { name: "peer", kind: Kind::D, groups: &["outs"] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["linkset"] }], data: &[], data_order: &["uid"], groups: &["linkset", "outs"], phantom: &["grp"] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "kids", kind: Kind::S, groups: &["grp", "linkset"] }], data: &[], data_order: &["uid"], groups: &["grp", "linkset"], phantom: &[] },
], groups: &[("tg_one", &[4, 0, 1])],
  pairs: &[((0, 0), (2, 0)), ((0, 1), (2, 0)), ((1, 2), (4, 1)), ((2, 0), (0, 0)), ((2, 0), (0, 1)), ((4, 1), (1, 2))],
  types: &[] };
fn mk_0(v: &NV) -> S21BAlphaNode { S21BAlphaNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), meta_data: Dat::mk(v.data[0]), weight: Dat::mk(v.data[1]), name: Dat::mk(v.data[2]), } }
fn rd_0(x: &S21BAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd(), x.x1.rd()], data: vec![x.meta_data.rd(), x.weight.rd(), x.name.rd()] } }
fn wr_0(x: &mut S21BAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } x.meta_data = Dat::mk(v.data[0]); x.weight = Dat::mk(v.data[1]); x.name = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S21BEpsilonNode { S21BEpsilonNode { uid: Tok::mk(v.uid), owner_of: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), in_edges: LinkF::mk(&v.links[2]),  } }
fn rd_1(x: &S21BEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.owner_of.rd(), x.peer.rd(), x.in_edges.rd()], data: vec![] } }
fn wr_1(x: &mut S21BEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.owner_of.rd() != v.links[0] { x.owner_of = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } if x.in_edges.rd() != v.links[2] { x.in_edges = LinkF::mk(&v.links[2]); }  }
fn mk_2(v: &NV) -> S21BBetaNodeNode { S21BBetaNodeNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), name: Dat::mk(v.data[0]), meta_data: Dat::mk(v.data[1]), } }
fn rd_2(x: &S21BBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd()], data: vec![x.name.rd(), x.meta_data.rd()] } }
fn wr_2(x: &mut S21BBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } x.name = Dat::mk(v.data[0]); x.meta_data = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S21BLongVariantNameNode { S21BLongVariantNameNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), weight: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), value: Dat::mk(v.data[2]), } }
fn rd_3(x: &S21BLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.uses.rd()], data: vec![x.weight.rd(), x.table.rd(), x.value.rd()] } }
fn wr_3(x: &mut S21BLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } x.weight = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); x.value = Dat::mk(v.data[2]); }
fn mk_4(v: &NV) -> S21BCNode { S21BCNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]),  } }
fn rd_4(x: &S21BCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.peer.rd(), x.tos.rd()], data: vec![] } }
fn wr_4(x: &mut S21BCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); }  }
fn mk_5(v: &NV) -> S21BDeltaXNode { S21BDeltaXNode { uid: Tok::mk(v.uid), kids: LinkF::mk(&v.links[0]),  } }
fn rd_5(x: &S21BDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.kids.rd()], data: vec![] } }
fn wr_5(x: &mut S21BDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.kids.rd() != v.links[0] { x.kids = LinkF::mk(&v.links[0]); }  }
impl std::fmt::Display for NS21B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS21B;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS21B::Alpha(mk_0(v)), 1 => NS21B::Epsilon(mk_1(v)), 2 => NS21B::BetaNode(mk_2(v)), 3 => NS21B::LongVariantName(mk_3(v)), 4 => NS21B::C(mk_4(v)), 5 => NS21B::DeltaX(mk_5(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS21B::Alpha(x) => rd_0(x, 0), NS21B::Epsilon(x) => rd_1(x, 1), NS21B::BetaNode(x) => rd_2(x, 2), NS21B::LongVariantName(x) => rd_3(x, 3), NS21B::C(x) => rd_4(x, 4), NS21B::DeltaX(x) => rd_5(x, 5), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS21B::Alpha(x), 0) => wr_0(x, v), (NS21B::Epsilon(x), 1) => wr_1(x, v), (NS21B::BetaNode(x), 2) => wr_2(x, v), (NS21B::LongVariantName(x), 3) => wr_3(x, v), (NS21B::C(x), 4) => wr_4(x, v), (NS21B::DeltaX(x), 5) => wr_5(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS21B::Alpha), 1 => discriminant!(NS21B::Epsilon), 2 => discriminant!(NS21B::BetaNode), 3 => discriminant!(NS21B::LongVariantName), 4 => discriminant!(NS21B::C), 5 => discriminant!(NS21B::DeltaX), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS21B::Alpha), 1 => alloc_node!(t, NS21B::Epsilon), 2 => alloc_node!(t, NS21B::BetaNode), 3 => alloc_node!(t, NS21B::LongVariantName), 4 => alloc_node!(t, NS21B::C), 5 => alloc_node!(t, NS21B::DeltaX), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS21B::Alpha, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS21B::Epsilon, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS21B::BetaNode, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS21B::LongVariantName, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NS21B::C, idx).map(|x| rd_4(x, 4)), 5 => get_node!(g, NS21B::DeltaX, idx).map(|x| rd_5(x, 5)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS21B::Alpha).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS21B::Epsilon).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS21B::BetaNode).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS21B::LongVariantName).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NS21B::C).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), 5 => iter_nodes!(g, NS21B::DeltaX).map(|(k, x)| (k.0, rd_5(x, 5))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS21B::Alpha, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS21B::Alpha, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS21B::Alpha, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS21B::Epsilon, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS21B::Epsilon, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS21B::Epsilon, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS21B::BetaNode, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS21B::BetaNode, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS21B::BetaNode, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS21B::LongVariantName, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS21B::LongVariantName, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS21B::LongVariantName, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NS21B::C, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NS21B::C, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NS21B::C, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } (5, 0) => { mut_node!(t, NS21B::DeltaX, idx, move |x| { let n = f(rd_5(x, 5)); wr_5(x, &n) });  } (5, 1) => { mut_node!(t, NS21B::DeltaX, idx, |node| { let n = f(rd_5(node, 5)); wr_5(node, &n) });  } (5, 2) => { mut_node!(t, NS21B::DeltaX, idx, y, { let n = f(rd_5(y, 5)); wr_5(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS21B::Alpha, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS21B::Alpha, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS21B::Alpha, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS21B::Epsilon, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS21B::Epsilon, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS21B::Epsilon, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS21B::BetaNode, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS21B::BetaNode, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS21B::BetaNode, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS21B::LongVariantName, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS21B::LongVariantName, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS21B::LongVariantName, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NS21B::C, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NS21B::C, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NS21B::C, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } (5, 0) => { update_node!(t, NS21B::DeltaX, idx, move |x| { let n = f(rd_5(&x, 5)); mk_5(&n) });  } (5, 1) => { update_node!(t, NS21B::DeltaX, idx, |node| { let n = f(rd_5(&node, 5)); mk_5(&n) });  } (5, 2) => { update_node!(t, NS21B::DeltaX, idx, y, { let n = f(rd_5(&y, 5)); mk_5(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S21BAlphaNode>(), 1 => static_refl::<S21BEpsilonNode>(), 2 => static_refl::<S21BBetaNodeNode>(), 3 => static_refl::<S21BLongVariantNameNode>(), 4 => static_refl::<S21BCNode>(), 5 => static_refl::<S21BDeltaXNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS21B::Alpha(x) => typed_refl(x, name), NS21B::Epsilon(x) => typed_refl(x, name), NS21B::BetaNode(x) => typed_refl(x, name), NS21B::LongVariantName(x) => typed_refl(x, name), NS21B::C(x) => typed_refl(x, name), NS21B::DeltaX(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS21B::Alpha(x) => mirror_refl(x), NS21B::Epsilon(x) => mirror_refl(x), NS21B::BetaNode(x) => mirror_refl(x), NS21B::LongVariantName(x) => mirror_refl(x), NS21B::C(x) => mirror_refl(x), NS21B::DeltaX(x) => mirror_refl(x), } }
}
}

pub mod s22m {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S22MVecNode {
  #[cfg_attr(all(), allow(unused))]
  #[group(linkset)]
  pub ref_b: collections::HashSet<NodeIndex>,
  #[allow(unused)]
  pub meta_data: Option<u32>,
  #[group(linkset)]
  #[doc(hidden)]
  pub type_: ordermap::OrderSet<NodeIndex>,
  /// the field `pair` of #[group(nowhere)]
  pub pair: Option<NodeIndex>,
  #[allow(dead_code)]
  pub uid: Tok,
  pub table: Box<i64>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S22MBetaNodeNode {
  #[cfg_attr(all(), allow(unused))]
  pub zz: ttgraph::NodeIndex,
  #[allow(unused)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S22MTypeNode {
  /// the field `ref_b` of #[group(nowhere)]
  #[group(linkset)]
  pub ref_b: std::collections::BTreeSet<ttgraph::NodeIndex>,
  #[allow(dead_code)]
  pub pair: Option<u32>,
  pub opt: HashSet<usize>,
  #[group(linkset)]
  #[allow(unused)]
  pub x1: NodeIndex,
  #[group(linkset)]
  #[doc(hidden)]
  pub node_index: NodeIndex,
  /// the field `owner_of` of #[group(nowhere)]
  pub owner_of: NodeIndex,
  #[allow(dead_code)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S22MIfNode {
  #[group(linkset)]
  #[doc(hidden)]
  pub in_: ttgraph::NodeIndex,
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
  #[allow(dead_code)]
  pub weight: u64,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS22M { Vec(S22MVecNode), BetaNode(S22MBetaNodeNode), Type(S22MTypeNode), If(S22MIfNode) }
  group! { tgtwo{Type, BetaNode}, }
  bidirectional! { If.linkset <-> tg_one.linkset, Vec.ref_b <-> BetaNode.zz, Type.x1 <-> tg_one.linkset, Vec.linkset <-> Type.linkset, tg_one.linkset <-> Type.x1, }
  link_type! { tg_one.linkset: {Type, BetaNode, Vec}, BetaNode.zz: {Vec}, Type.ref_b: {BetaNode}, Vec.ref_b: {If, BetaNode, Vec} }
  group! { tg_one{If, Vec} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s22m", fam: 'm', variants: &[
  VariantDesc { name: "Vec", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "type_", kind: Kind::S, groups: &["linkset"] }], data: &[DataDesc { name: "meta_data", ty: 2 }, DataDesc { name: "table", ty: 6 }, DataDesc { name: "pair", ty: 8 }], data_order: &["meta_data", "pair", "uid", "table"], groups: &["linkset"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "zz", kind: Kind::D, groups: &[] }], data: &[], data_order: &["uid"], groups: &[], phantom: &[] },
  VariantDesc { name: "Type", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &["linkset"] }, LinkDesc { name: "x1", kind: Kind::D, groups: &["linkset"] }, LinkDesc { name: "node_index", kind: Kind::D, groups: &["linkset"] }, LinkDesc { name: "owner_of", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "pair", ty: 2 }, DataDesc { name: "opt", ty: 10 }], data_order: &["pair", "opt", "uid"], groups: &["linkset"], phantom: &[] },
  VariantDesc { name: "If", links: &[LinkDesc { name: "in_", kind: Kind::D, groups: &["linkset"] }], data: &[DataDesc { name: "weight", ty: 0 }], data_order: &["uid", "weight"], groups: &["linkset"], phantom: &[] },
], groups: &[("tg_one", &[3, 0]), ("tgtwo", &[2, 1])],
  pairs: &[((0, 0), (1, 0)), ((0, 0), (2, 0)), ((0, 0), (2, 1)), ((0, 0), (2, 2)), ((0, 0), (3, 0)), ((0, 1), (2, 0)), ((0, 1), (2, 1)), ((0, 1), (2, 2)), ((0, 1), (3, 0)), ((1, 0), (0, 0)), ((2, 0), (0, 0)), ((2, 0), (0, 1)), ((2, 1), (0, 0)), ((2, 1), (0, 1)), ((2, 1), (3, 0)), ((2, 2), (0, 0)), ((2, 2), (0, 1)), ((3, 0), (0, 0)), ((3, 0), (0, 1)), ((3, 0), (2, 1)), ((3, 0), (3, 0))],
  types: &[((0, 0), &[0, 1, 2]), ((0, 0), &[0, 1, 3]), ((0, 1), &[0, 1, 2]), ((1, 0), &[0]), ((2, 0), &[1]), ((3, 0), &[0, 1, 2])] };
fn mk_0(v: &NV) -> S22MVecNode { S22MVecNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), type_: LinkF::mk(&v.links[1]), meta_data: Dat::mk(v.data[0]), table: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_0(x: &S22MVecNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd(), x.type_.rd()], data: vec![x.meta_data.rd(), x.table.rd(), x.pair.rd()] } }
fn wr_0(x: &mut S22MVecNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } if x.type_.rd() != v.links[1] { x.type_ = LinkF::mk(&v.links[1]); } x.meta_data = Dat::mk(v.data[0]); x.table = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S22MBetaNodeNode { S22MBetaNodeNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]),  } }
fn rd_1(x: &S22MBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd()], data: vec![] } }
fn wr_1(x: &mut S22MBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); }  }
fn mk_2(v: &NV) -> S22MTypeNode { S22MTypeNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), x1: LinkF::mk(&v.links[1]), node_index: LinkF::mk(&v.links[2]), owner_of: LinkF::mk(&v.links[3]), pair: Dat::mk(v.data[0]), opt: Dat::mk(v.data[1]), } }
fn rd_2(x: &S22MTypeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd(), x.x1.rd(), x.node_index.rd(), x.owner_of.rd()], data: vec![x.pair.rd(), x.opt.rd()] } }
fn wr_2(x: &mut S22MTypeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } if x.x1.rd() != v.links[1] { x.x1 = LinkF::mk(&v.links[1]); } if x.node_index.rd() != v.links[2] { x.node_index = LinkF::mk(&v.links[2]); } if x.owner_of.rd() != v.links[3] { x.owner_of = LinkF::mk(&v.links[3]); } x.pair = Dat::mk(v.data[0]); x.opt = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> S22MIfNode { S22MIfNode { uid: Tok::mk(v.uid), in_: LinkF::mk(&v.links[0]), weight: Dat::mk(v.data[0]), } }
fn rd_3(x: &S22MIfNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_.rd()], data: vec![x.weight.rd()] } }
fn wr_3(x: &mut S22MIfNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_.rd() != v.links[0] { x.in_ = LinkF::mk(&v.links[0]); } x.weight = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS22M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS22M;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS22M::Vec(mk_0(v)), 1 => NS22M::BetaNode(mk_1(v)), 2 => NS22M::Type(mk_2(v)), 3 => NS22M::If(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS22M::Vec(x) => rd_0(x, 0), NS22M::BetaNode(x) => rd_1(x, 1), NS22M::Type(x) => rd_2(x, 2), NS22M::If(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS22M::Vec(x), 0) => wr_0(x, v), (NS22M::BetaNode(x), 1) => wr_1(x, v), (NS22M::Type(x), 2) => wr_2(x, v), (NS22M::If(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS22M::Vec), 1 => discriminant!(NS22M::BetaNode), 2 => discriminant!(NS22M::Type), 3 => discriminant!(NS22M::If), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS22M::Vec), 1 => alloc_node!(t, NS22M::BetaNode), 2 => alloc_node!(t, NS22M::Type), 3 => alloc_node!(t, NS22M::If), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS22M::Vec, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS22M::BetaNode, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS22M::Type, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS22M::If, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS22M::Vec).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS22M::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS22M::Type).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS22M::If).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS22M::Vec, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS22M::Vec, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS22M::Vec, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS22M::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS22M::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS22M::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS22M::Type, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS22M::Type, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS22M::Type, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS22M::If, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS22M::If, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS22M::If, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS22M::Vec, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS22M::Vec, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS22M::Vec, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS22M::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS22M::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS22M::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS22M::Type, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS22M::Type, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS22M::Type, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS22M::If, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS22M::If, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS22M::If, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S22MVecNode>(), 1 => static_refl::<S22MBetaNodeNode>(), 2 => static_refl::<S22MTypeNode>(), 3 => static_refl::<S22MIfNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS22M::Vec(x) => typed_refl(x, name), NS22M::BetaNode(x) => typed_refl(x, name), NS22M::Type(x) => typed_refl(x, name), NS22M::If(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS22M::Vec(x) => mirror_refl(x), NS22M::BetaNode(x) => mirror_refl(x), NS22M::Type(x) => mirror_refl(x), NS22M::If(x) => mirror_refl(x), } }
}
}

pub mod s23g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S23GEpsilonNode {
  pub prev_item: ordermap::set::OrderSet<NodeIndex>,
  pub uid: Tok,
  pub peer: ttgraph::NodeIndex,
  pub weight: HashSet<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S23GBetaNodeNode {
  #[group(grp_b)]
  pub a: indexmap::IndexSet<ttgraph::NodeIndex>,
  pub pair: [u8; 3],
  pub opt: String,
  pub uid: Tok,
  pub name: u64,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS23G { Epsilon(super::s23g::S23GEpsilonNode), BetaNode(self::S23GBetaNodeNode) }
  bidirectional! { tgtwo.prev_item <-> tgtwo.prev_item, tgtwo.prev_item <-> tgtwo.peer, tgtwo.grp_b <-> tgtwo.grp_b }
  group! { tgtwo{Epsilon}, tg_one{BetaNode, Epsilon}, tg_all{Epsilon, BetaNode}, }
  link_type! { tgtwo.grp_b: tg_one }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s23g", fam: 'g', variants: &[
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "weight", ty: 10 }], data_order: &["uid", "weight"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "a", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "opt", ty: 1 }, DataDesc { name: "name", ty: 0 }, DataDesc { name: "pair", ty: 4 }], data_order: &["pair", "opt", "uid", "name"], groups: &["grp_b"], phantom: &[] },
], groups: &[("tgtwo", &[0]), ("tg_one", &[1, 0]), ("tg_all", &[0, 1])],
  pairs: &[((0, 0), (0, 0)), ((0, 0), (0, 1)), ((0, 1), (0, 0))],
  types: &[] };
fn mk_0(v: &NV) -> S23GEpsilonNode { S23GEpsilonNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), weight: Dat::mk(v.data[0]), } }
fn rd_0(x: &S23GEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.peer.rd()], data: vec![x.weight.rd()] } }
fn wr_0(x: &mut S23GEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } x.weight = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S23GBetaNodeNode { S23GBetaNodeNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_1(x: &S23GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd()], data: vec![x.opt.rd(), x.name.rd(), x.pair.rd()] } }
fn wr_1(x: &mut S23GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS23G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS23G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS23G::Epsilon(mk_0(v)), 1 => NS23G::BetaNode(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS23G::Epsilon(x) => rd_0(x, 0), NS23G::BetaNode(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS23G::Epsilon(x), 0) => wr_0(x, v), (NS23G::BetaNode(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS23G::Epsilon), 1 => discriminant!(NS23G::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS23G::Epsilon), 1 => alloc_node!(t, NS23G::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS23G::Epsilon, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS23G::BetaNode, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS23G::Epsilon).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS23G::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS23G::Epsilon, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS23G::Epsilon, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS23G::Epsilon, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS23G::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS23G::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS23G::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS23G::Epsilon, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS23G::Epsilon, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS23G::Epsilon, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS23G::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS23G::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS23G::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S23GEpsilonNode>(), 1 => static_refl::<S23GBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS23G::Epsilon(x) => typed_refl(x, name), NS23G::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS23G::Epsilon(x) => mirror_refl(x), NS23G::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s23x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S23XEpsilonNode {
  pub prev_item: ordermap::set::OrderSet<NodeIndex>,
  pub peer: ttgraph::NodeIndex,
  pub uid: Tok,
  pub weight: HashSet<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S23XBetaNodeNode {
  pub name: u64,
  #[group(grp_b)]
  pub a: indexmap::IndexSet<ttgraph::NodeIndex>,
  pub uid: Tok,
  pub pair: [u8; 3],
  pub opt: String,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS23X { Epsilon(super::s23x::S23XEpsilonNode), BetaNode(self::S23XBetaNodeNode) }
  bidirectional! { Epsilon.prev_item <-> Epsilon.prev_item, Epsilon.prev_item <-> Epsilon.peer }
  group! { tgtwo{Epsilon}, tg_one{BetaNode, Epsilon}, tg_all{Epsilon, BetaNode} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s23x", fam: 'x', variants: &[
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::D, groups: &[] }], data: &[DataDesc { name: "weight", ty: 10 }], data_order: &["uid", "weight"], groups: &[], phantom: &["grp_b"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "a", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "opt", ty: 1 }, DataDesc { name: "name", ty: 0 }, DataDesc { name: "pair", ty: 4 }], data_order: &["name", "uid", "pair", "opt"], groups: &["grp_b"], phantom: &[] },
], groups: &[("tgtwo", &[0]), ("tg_one", &[1, 0]), ("tg_all", &[0, 1])],
  pairs: &[((0, 0), (0, 0)), ((0, 0), (0, 1)), ((0, 1), (0, 0))],
  types: &[] };
fn mk_0(v: &NV) -> S23XEpsilonNode { S23XEpsilonNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), peer: LinkF::mk(&v.links[1]), weight: Dat::mk(v.data[0]), } }
fn rd_0(x: &S23XEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.peer.rd()], data: vec![x.weight.rd()] } }
fn wr_0(x: &mut S23XEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.peer.rd() != v.links[1] { x.peer = LinkF::mk(&v.links[1]); } x.weight = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S23XBetaNodeNode { S23XBetaNodeNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_1(x: &S23XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd()], data: vec![x.opt.rd(), x.name.rd(), x.pair.rd()] } }
fn wr_1(x: &mut S23XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS23X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS23X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS23X::Epsilon(mk_0(v)), 1 => NS23X::BetaNode(mk_1(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS23X::Epsilon(x) => rd_0(x, 0), NS23X::BetaNode(x) => rd_1(x, 1), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS23X::Epsilon(x), 0) => wr_0(x, v), (NS23X::BetaNode(x), 1) => wr_1(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS23X::Epsilon), 1 => discriminant!(NS23X::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS23X::Epsilon), 1 => alloc_node!(t, NS23X::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS23X::Epsilon, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS23X::BetaNode, idx).map(|x| rd_1(x, 1)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS23X::Epsilon).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS23X::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS23X::Epsilon, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS23X::Epsilon, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS23X::Epsilon, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS23X::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS23X::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS23X::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS23X::Epsilon, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS23X::Epsilon, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS23X::Epsilon, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS23X::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS23X::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS23X::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S23XEpsilonNode>(), 1 => static_refl::<S23XBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS23X::Epsilon(x) => typed_refl(x, name), NS23X::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS23X::Epsilon(x) => mirror_refl(x), NS23X::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s24g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S24GCNode {
  #[group(grp)]
  pub in_edges: std::collections::BTreeSet<ttgraph::NodeIndex>,
  #[group(grp)]
  pub a: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub name: Vec<usize>,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S24GLongVariantNameNode {
  pub uid: Tok,
  pub weight: [u8; 3],
  #[group(grp)]
  pub left_most_link: ::indexmap::IndexSet<NodeIndex>,
  pub uses: NodeIndex,
  #[group(grp)]
  pub next: ttgraph::NodeIndex,
  pub prev_item: indexmap::set::IndexSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S24GAlphaNode {
  #[group(grp)]
  pub left_most_link: NodeIndex,
  pub uid: Tok,
  pub name: (u8, u16),
  pub arr3: (NodeIndex, u8),
  pub opt: Option<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS24G { C(S24GCNode), LongVariantName(S24GLongVariantNameNode), Alpha(S24GAlphaNode) }
  group! { tg_x{Alpha}, }
  link_type! { Alpha.left_most_link: {LongVariantName}, LongVariantName.grp: {C}, LongVariantName.grp: {C, Alpha} }
  group! { tg_one{C, LongVariantName} }
  bidirectional! { tg_x.left_most_link <-> Alpha.grp, tg_one.grp <-> C.a, C.grp <-> LongVariantName.left_most_link, tg_x.grp <-> C.a }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s24g", fam: 'g', variants: &[
  VariantDesc { name: "C", links: &[LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "name", ty: 9 }], data_order: &["name", "uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "uses", kind: Kind::D, groups: &[] }, LinkDesc { name: "next", kind: Kind::D, groups: &["grp"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "weight", ty: 4 }], data_order: &["uid", "weight"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "arr3", ty: 11 }, DataDesc { name: "opt", ty: 8 }, DataDesc { name: "name", ty: 3 }], data_order: &["uid", "name", "arr3", "opt"], groups: &["grp"], phantom: &[] },
], groups: &[("tg_one", &[0, 1]), ("tg_x", &[2])],
  pairs: &[((0, 0), (0, 1)), ((0, 0), (1, 0)), ((0, 1), (0, 0)), ((0, 1), (0, 1)), ((0, 1), (1, 0)), ((0, 1), (1, 2)), ((0, 1), (2, 0)), ((1, 0), (0, 0)), ((1, 0), (0, 1)), ((1, 2), (0, 1)), ((2, 0), (0, 1)), ((2, 0), (2, 0))],
  types: &[((1, 0), &[0]), ((1, 0), &[0, 2]), ((1, 2), &[0]), ((1, 2), &[0, 2]), ((2, 0), &[1])] };
fn mk_0(v: &NV) -> S24GCNode { S24GCNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), name: Dat::mk(v.data[0]), } }
fn rd_0(x: &S24GCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.a.rd()], data: vec![x.name.rd()] } }
fn wr_0(x: &mut S24GCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } x.name = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S24GLongVariantNameNode { S24GLongVariantNameNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), next: LinkF::mk(&v.links[2]), prev_item: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), } }
fn rd_1(x: &S24GLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.uses.rd(), x.next.rd(), x.prev_item.rd()], data: vec![x.weight.rd()] } }
fn wr_1(x: &mut S24GLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.next.rd() != v.links[2] { x.next = LinkF::mk(&v.links[2]); } if x.prev_item.rd() != v.links[3] { x.prev_item = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S24GAlphaNode { S24GAlphaNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), arr3: Dat::mk(v.data[0]), opt: Dat::mk(v.data[1]), name: Dat::mk(v.data[2]), } }
fn rd_2(x: &S24GAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd()], data: vec![x.arr3.rd(), x.opt.rd(), x.name.rd()] } }
fn wr_2(x: &mut S24GAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } x.arr3 = Dat::mk(v.data[0]); x.opt = Dat::mk(v.data[1]); x.name = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS24G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS24G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS24G::C(mk_0(v)), 1 => NS24G::LongVariantName(mk_1(v)), 2 => NS24G::Alpha(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS24G::C(x) => rd_0(x, 0), NS24G::LongVariantName(x) => rd_1(x, 1), NS24G::Alpha(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS24G::C(x), 0) => wr_0(x, v), (NS24G::LongVariantName(x), 1) => wr_1(x, v), (NS24G::Alpha(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS24G::C), 1 => discriminant!(NS24G::LongVariantName), 2 => discriminant!(NS24G::Alpha), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS24G::C), 1 => alloc_node!(t, NS24G::LongVariantName), 2 => alloc_node!(t, NS24G::Alpha), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS24G::C, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS24G::LongVariantName, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS24G::Alpha, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS24G::C).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS24G::LongVariantName).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS24G::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS24G::C, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS24G::C, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS24G::C, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS24G::LongVariantName, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS24G::LongVariantName, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS24G::LongVariantName, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS24G::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS24G::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS24G::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS24G::C, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS24G::C, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS24G::C, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS24G::LongVariantName, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS24G::LongVariantName, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS24G::LongVariantName, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS24G::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS24G::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS24G::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S24GCNode>(), 1 => static_refl::<S24GLongVariantNameNode>(), 2 => static_refl::<S24GAlphaNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS24G::C(x) => typed_refl(x, name), NS24G::LongVariantName(x) => typed_refl(x, name), NS24G::Alpha(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS24G::C(x) => mirror_refl(x), NS24G::LongVariantName(x) => mirror_refl(x), NS24G::Alpha(x) => mirror_refl(x), } }
}
}

pub mod s24x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S24XCNode {
  pub uid: Tok,
  pub name: Vec<usize>,
  #[group(grp)]
  pub in_edges: std::collections::BTreeSet<ttgraph::NodeIndex>,
  #[group(grp)]
  pub a: std::collections::BTreeSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S24XLongVariantNameNode {
  #[group(grp)]
  pub left_most_link: ::indexmap::IndexSet<NodeIndex>,
  pub uses: NodeIndex,
  pub uid: Tok,
  #[group(grp)]
  pub next: ttgraph::NodeIndex,
  pub weight: [u8; 3],
  pub prev_item: indexmap::set::IndexSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S24XAlphaNode {
  #[group(grp)]
  pub left_most_link: NodeIndex,
  pub name: (u8, u16),
  pub opt: Option<NodeIndex>,
  pub uid: Tok,
  pub arr3: (NodeIndex, u8),
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS24X { C(S24XCNode), LongVariantName(S24XLongVariantNameNode), Alpha(S24XAlphaNode) }
  bidirectional! { C.in_edges <-> C.a, C.in_edges <-> LongVariantName.left_most_link, C.a <-> C.a, C.a <-> LongVariantName.left_most_link, C.a <-> LongVariantName.next, C.a <-> Alpha.left_most_link, Alpha.left_most_link <-> Alpha.left_most_link }
  link_type! { LongVariantName.left_most_link: C, LongVariantName.next: C, Alpha.left_most_link: LongVariantName }
  group! { tg_one{C, LongVariantName}, tg_x{Alpha} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s24x", fam: 'x', variants: &[
  VariantDesc { name: "C", links: &[LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "name", ty: 9 }], data_order: &["uid", "name"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "uses", kind: Kind::D, groups: &[] }, LinkDesc { name: "next", kind: Kind::D, groups: &["grp"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "weight", ty: 4 }], data_order: &["uid", "weight"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "arr3", ty: 11 }, DataDesc { name: "opt", ty: 8 }, DataDesc { name: "name", ty: 3 }], data_order: &["name", "opt", "uid", "arr3"], groups: &["grp"], phantom: &[] },
], groups: &[("tg_one", &[0, 1]), ("tg_x", &[2])],
  pairs: &[((0, 0), (0, 1)), ((0, 0), (1, 0)), ((0, 1), (0, 0)), ((0, 1), (0, 1)), ((0, 1), (1, 0)), ((0, 1), (1, 2)), ((0, 1), (2, 0)), ((1, 0), (0, 0)), ((1, 0), (0, 1)), ((1, 2), (0, 1)), ((2, 0), (0, 1)), ((2, 0), (2, 0))],
  types: &[((1, 0), &[0]), ((1, 2), &[0]), ((2, 0), &[1])] };
fn mk_0(v: &NV) -> S24XCNode { S24XCNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), name: Dat::mk(v.data[0]), } }
fn rd_0(x: &S24XCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.a.rd()], data: vec![x.name.rd()] } }
fn wr_0(x: &mut S24XCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } x.name = Dat::mk(v.data[0]); }
fn mk_1(v: &NV) -> S24XLongVariantNameNode { S24XLongVariantNameNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), next: LinkF::mk(&v.links[2]), prev_item: LinkF::mk(&v.links[3]), weight: Dat::mk(v.data[0]), } }
fn rd_1(x: &S24XLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.uses.rd(), x.next.rd(), x.prev_item.rd()], data: vec![x.weight.rd()] } }
fn wr_1(x: &mut S24XLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.next.rd() != v.links[2] { x.next = LinkF::mk(&v.links[2]); } if x.prev_item.rd() != v.links[3] { x.prev_item = LinkF::mk(&v.links[3]); } x.weight = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S24XAlphaNode { S24XAlphaNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), arr3: Dat::mk(v.data[0]), opt: Dat::mk(v.data[1]), name: Dat::mk(v.data[2]), } }
fn rd_2(x: &S24XAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd()], data: vec![x.arr3.rd(), x.opt.rd(), x.name.rd()] } }
fn wr_2(x: &mut S24XAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } x.arr3 = Dat::mk(v.data[0]); x.opt = Dat::mk(v.data[1]); x.name = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS24X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS24X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS24X::C(mk_0(v)), 1 => NS24X::LongVariantName(mk_1(v)), 2 => NS24X::Alpha(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS24X::C(x) => rd_0(x, 0), NS24X::LongVariantName(x) => rd_1(x, 1), NS24X::Alpha(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS24X::C(x), 0) => wr_0(x, v), (NS24X::LongVariantName(x), 1) => wr_1(x, v), (NS24X::Alpha(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS24X::C), 1 => discriminant!(NS24X::LongVariantName), 2 => discriminant!(NS24X::Alpha), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS24X::C), 1 => alloc_node!(t, NS24X::LongVariantName), 2 => alloc_node!(t, NS24X::Alpha), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS24X::C, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS24X::LongVariantName, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS24X::Alpha, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS24X::C).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS24X::LongVariantName).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS24X::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS24X::C, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS24X::C, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS24X::C, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS24X::LongVariantName, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS24X::LongVariantName, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS24X::LongVariantName, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS24X::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS24X::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS24X::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS24X::C, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS24X::C, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS24X::C, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS24X::LongVariantName, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS24X::LongVariantName, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS24X::LongVariantName, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS24X::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS24X::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS24X::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S24XCNode>(), 1 => static_refl::<S24XLongVariantNameNode>(), 2 => static_refl::<S24XAlphaNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS24X::C(x) => typed_refl(x, name), NS24X::LongVariantName(x) => typed_refl(x, name), NS24X::Alpha(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS24X::C(x) => mirror_refl(x), NS24X::LongVariantName(x) => mirror_refl(x), NS24X::Alpha(x) => mirror_refl(x), } }
}
}

pub mod s25g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S25GLongVariantNameNode {
  #[group(grp)]
  #[doc(hidden)]
  pub peer: ttgraph::NodeIndex,
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S25GDeltaXNode {
  pub opt: Vec<u32>,
  #[allow(unused)]
  pub value: (NodeIndex, u8),
  #[group(grp)]
  #[doc(hidden)]
  pub ref_b: collections::BTreeSet<NodeIndex>,
  /// the field `pair` of #[group(nowhere)]
  pub pair: Vec<u32>,
  #[allow(dead_code)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S25GAlphaNode {
  #[doc(hidden)]
  pub uid: Tok,
  /// the field `a` of #[group(nowhere)]
  #[group(grp)]
  pub a: std::collections::HashSet<NodeIndex>,
  #[allow(dead_code)]
  #[group(grp)]
  pub zz: ttgraph::NodeIndex,
  pub table: BTreeMap<u32, String>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS25G { LongVariantName(S25GLongVariantNameNode), DeltaX(S25GDeltaXNode), Alpha(S25GAlphaNode) }
  link_type! { LongVariantName.grp: {LongVariantName, tg_x}, LongVariantName.grp: {LongVariantName, Alpha} }
  link_type! { Alpha.zz: {Alpha, LongVariantName}, Alpha.grp: {tgtwo, LongVariantName} }
  bidirectional! { DeltaX.ref_b <-> tgtwo.grp, tgtwo.a <-> tg_x.peer, tgtwo.grp <-> tgtwo.grp, tg_x.grp <-> tgtwo.a, tgtwo.a <-> tg_x.grp }
  group! { tgtwo{Alpha}, tg_x{LongVariantName} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s25g", fam: 'g', variants: &[
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &["grp"] }], data: &[], data_order: &["uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "pair", ty: 5 }, DataDesc { name: "opt", ty: 5 }, DataDesc { name: "value", ty: 11 }], data_order: &["opt", "value", "pair", "uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "zz", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 7 }], data_order: &["uid", "table"], groups: &["grp"], phantom: &[] },
], groups: &[("tgtwo", &[2]), ("tg_x", &[0])],
  pairs: &[((0, 0), (2, 0)), ((1, 0), (2, 0)), ((1, 0), (2, 1)), ((2, 0), (0, 0)), ((2, 0), (1, 0)), ((2, 0), (2, 0)), ((2, 0), (2, 1)), ((2, 1), (1, 0)), ((2, 1), (2, 0)), ((2, 1), (2, 1))],
  types: &[((0, 0), &[0]), ((0, 0), &[0, 2]), ((2, 0), &[0, 2]), ((2, 1), &[0, 2]), ((2, 1), &[0, 2])] };
fn mk_0(v: &NV) -> S25GLongVariantNameNode { S25GLongVariantNameNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]),  } }
fn rd_0(x: &S25GLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd()], data: vec![] } }
fn wr_0(x: &mut S25GLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); }  }
fn mk_1(v: &NV) -> S25GDeltaXNode { S25GDeltaXNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), pair: Dat::mk(v.data[0]), opt: Dat::mk(v.data[1]), value: Dat::mk(v.data[2]), } }
fn rd_1(x: &S25GDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.pair.rd(), x.opt.rd(), x.value.rd()] } }
fn wr_1(x: &mut S25GDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.pair = Dat::mk(v.data[0]); x.opt = Dat::mk(v.data[1]); x.value = Dat::mk(v.data[2]); }
fn mk_2(v: &NV) -> S25GAlphaNode { S25GAlphaNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), zz: LinkF::mk(&v.links[1]), table: Dat::mk(v.data[0]), } }
fn rd_2(x: &S25GAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.zz.rd()], data: vec![x.table.rd()] } }
fn wr_2(x: &mut S25GAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.zz.rd() != v.links[1] { x.zz = LinkF::mk(&v.links[1]); } x.table = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS25G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS25G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS25G::LongVariantName(mk_0(v)), 1 => NS25G::DeltaX(mk_1(v)), 2 => NS25G::Alpha(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS25G::LongVariantName(x) => rd_0(x, 0), NS25G::DeltaX(x) => rd_1(x, 1), NS25G::Alpha(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS25G::LongVariantName(x), 0) => wr_0(x, v), (NS25G::DeltaX(x), 1) => wr_1(x, v), (NS25G::Alpha(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS25G::LongVariantName), 1 => discriminant!(NS25G::DeltaX), 2 => discriminant!(NS25G::Alpha), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS25G::LongVariantName), 1 => alloc_node!(t, NS25G::DeltaX), 2 => alloc_node!(t, NS25G::Alpha), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS25G::LongVariantName, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS25G::DeltaX, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS25G::Alpha, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS25G::LongVariantName).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS25G::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS25G::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS25G::LongVariantName, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS25G::LongVariantName, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS25G::LongVariantName, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS25G::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS25G::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS25G::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS25G::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS25G::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS25G::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS25G::LongVariantName, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS25G::LongVariantName, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS25G::LongVariantName, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS25G::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS25G::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS25G::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS25G::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS25G::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS25G::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S25GLongVariantNameNode>(), 1 => static_refl::<S25GDeltaXNode>(), 2 => static_refl::<S25GAlphaNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS25G::LongVariantName(x) => typed_refl(x, name), NS25G::DeltaX(x) => typed_refl(x, name), NS25G::Alpha(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS25G::LongVariantName(x) => mirror_refl(x), NS25G::DeltaX(x) => mirror_refl(x), NS25G::Alpha(x) => mirror_refl(x), } }
}
}

pub mod s25x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S25XLongVariantNameNode {
  #[group(grp)]
  #[doc(hidden)]
  pub peer: ttgraph::NodeIndex,
  /// the field `uid` of #[group(nowhere)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S25XDeltaXNode {
  #[cfg_attr(all(), allow(unused))]
  #[group(grp)]
  pub ref_b: collections::BTreeSet<NodeIndex>,
  #[allow(unused)]
  pub pair: Vec<u32>,
  #[doc(hidden)]
  pub value: (NodeIndex, u8),
  /// the field `opt` of #[group(nowhere)]
  pub opt: Vec<u32>,
  #[allow(dead_code)]
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S25XAlphaNode {
  #[group(grp)]
  #[doc(hidden)]
  pub a: std::collections::HashSet<NodeIndex>,
  /// the field `zz` of #[group(nowhere)]
  #[group(grp)]
  pub zz: ttgraph::NodeIndex,
  #[allow(dead_code)]
  pub uid: Tok,
  pub table: BTreeMap<u32, String>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS25X { LongVariantName(S25XLongVariantNameNode), DeltaX(S25XDeltaXNode), Alpha(S25XAlphaNode) }
  bidirectional! { LongVariantName.peer <-> Alpha.a, DeltaX.ref_b <-> Alpha.a, DeltaX.ref_b <-> Alpha.zz }
  link_type! { LongVariantName.peer: LongVariantName, Alpha.a: {LongVariantName, Alpha}, Alpha.zz: {LongVariantName, Alpha} }
  group! { tgtwo{Alpha}, tg_x{LongVariantName} }
  bidirectional! { Alpha.a <-> Alpha.a, Alpha.a <-> Alpha.zz, Alpha.zz <-> Alpha.zz, }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s25x", fam: 'x', variants: &[
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &["grp"] }], data: &[], data_order: &["uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "pair", ty: 5 }, DataDesc { name: "opt", ty: 5 }, DataDesc { name: "value", ty: 11 }], data_order: &["pair", "value", "opt", "uid"], groups: &["grp"], phantom: &[] },
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "zz", kind: Kind::D, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 7 }], data_order: &["uid", "table"], groups: &["grp"], phantom: &[] },
], groups: &[("tgtwo", &[2]), ("tg_x", &[0])],
  pairs: &[((0, 0), (2, 0)), ((1, 0), (2, 0)), ((1, 0), (2, 1)), ((2, 0), (0, 0)), ((2, 0), (1, 0)), ((2, 0), (2, 0)), ((2, 0), (2, 1)), ((2, 1), (1, 0)), ((2, 1), (2, 0)), ((2, 1), (2, 1))],
  types: &[((0, 0), &[0]), ((2, 0), &[0, 2]), ((2, 1), &[0, 2])] };
fn mk_0(v: &NV) -> S25XLongVariantNameNode { S25XLongVariantNameNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]),  } }
fn rd_0(x: &S25XLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd()], data: vec![] } }
fn wr_0(x: &mut S25XLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); }  }
fn mk_1(v: &NV) -> S25XDeltaXNode { S25XDeltaXNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), pair: Dat::mk(v.data[0]), opt: Dat::mk(v.data[1]), value: Dat::mk(v.data[2]), } }
fn rd_1(x: &S25XDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.pair.rd(), x.opt.rd(), x.value.rd()] } }
fn wr_1(x: &mut S25XDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.pair = Dat::mk(v.data[0]); x.opt = Dat::mk(v.data[1]); x.value = Dat::mk(v.data[2]); }
fn mk_2(v: &NV) -> S25XAlphaNode { S25XAlphaNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), zz: LinkF::mk(&v.links[1]), table: Dat::mk(v.data[0]), } }
fn rd_2(x: &S25XAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.zz.rd()], data: vec![x.table.rd()] } }
fn wr_2(x: &mut S25XAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.zz.rd() != v.links[1] { x.zz = LinkF::mk(&v.links[1]); } x.table = Dat::mk(v.data[0]); }
impl std::fmt::Display for NS25X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS25X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS25X::LongVariantName(mk_0(v)), 1 => NS25X::DeltaX(mk_1(v)), 2 => NS25X::Alpha(mk_2(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS25X::LongVariantName(x) => rd_0(x, 0), NS25X::DeltaX(x) => rd_1(x, 1), NS25X::Alpha(x) => rd_2(x, 2), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS25X::LongVariantName(x), 0) => wr_0(x, v), (NS25X::DeltaX(x), 1) => wr_1(x, v), (NS25X::Alpha(x), 2) => wr_2(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS25X::LongVariantName), 1 => discriminant!(NS25X::DeltaX), 2 => discriminant!(NS25X::Alpha), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS25X::LongVariantName), 1 => alloc_node!(t, NS25X::DeltaX), 2 => alloc_node!(t, NS25X::Alpha), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS25X::LongVariantName, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS25X::DeltaX, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS25X::Alpha, idx).map(|x| rd_2(x, 2)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS25X::LongVariantName).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS25X::DeltaX).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS25X::Alpha).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS25X::LongVariantName, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS25X::LongVariantName, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS25X::LongVariantName, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS25X::DeltaX, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS25X::DeltaX, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS25X::DeltaX, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS25X::Alpha, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS25X::Alpha, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS25X::Alpha, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS25X::LongVariantName, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS25X::LongVariantName, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS25X::LongVariantName, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS25X::DeltaX, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS25X::DeltaX, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS25X::DeltaX, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS25X::Alpha, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS25X::Alpha, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS25X::Alpha, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S25XLongVariantNameNode>(), 1 => static_refl::<S25XDeltaXNode>(), 2 => static_refl::<S25XAlphaNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS25X::LongVariantName(x) => typed_refl(x, name), NS25X::DeltaX(x) => typed_refl(x, name), NS25X::Alpha(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS25X::LongVariantName(x) => mirror_refl(x), NS25X::DeltaX(x) => mirror_refl(x), NS25X::Alpha(x) => mirror_refl(x), } }
}
}

pub mod s26g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26GGammaRayNode {
  #[group(grp_b)]
  pub uses: Vec<NodeIndex>,
  pub uid: Tok,
  pub name: Option<NodeIndex>,
  pub pair: String,
  pub opt: String,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26GCNode {
  #[group(grp_b)]
  pub in_edges: OrderSet<NodeIndex>,
  #[group(grp_b)]
  pub uses: collections::HashSet<NodeIndex>,
  pub name: String,
  pub uid: Tok,
  pub value: Vec<u32>,
  #[group(grp_b)]
  pub left_most_link: ttgraph::NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26GDeltaXNode {
  pub uid: Tok,
  pub peer: NodeIndex,
  #[group(grp_b)]
  pub zz: ttgraph::NodeIndex,
  #[group(grp_b)]
  pub in_edges: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26GBetaNodeNode {
  pub ref_b: ordermap::set::OrderSet<NodeIndex>,
  pub arr3: Vec<usize>,
  pub uid: Tok,
  pub value: HashSet<usize>,
  pub meta_data: Vec<u32>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS26G { GammaRay(S26GGammaRayNode), C(S26GCNode), DeltaX(S26GDeltaXNode), BetaNode(S26GBetaNodeNode) }
  group! { tgtwo{C, BetaNode}, tg_one{GammaRay}, }
  bidirectional! { DeltaX.peer <-> C.grp_b, DeltaX.peer <-> DeltaX.grp_b }
  link_type! { C.uses: {DeltaX, tg_one} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s26g", fam: 'g', variants: &[
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "uses", kind: Kind::V, groups: &["grp_b"] }], data: &[DataDesc { name: "opt", ty: 1 }, DataDesc { name: "pair", ty: 1 }, DataDesc { name: "name", ty: 8 }], data_order: &["uid", "name", "pair", "opt"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["grp_b"] }], data: &[DataDesc { name: "value", ty: 5 }, DataDesc { name: "name", ty: 1 }], data_order: &["name", "uid", "value"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &[] }, LinkDesc { name: "zz", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &["grp_b"] }], data: &[], data_order: &["uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "meta_data", ty: 5 }, DataDesc { name: "arr3", ty: 9 }, DataDesc { name: "value", ty: 10 }], data_order: &["arr3", "uid", "value", "meta_data"], groups: &[], phantom: &[] },
], groups: &[("tgtwo", &[1, 3]), ("tg_one", &[0])],
  pairs: &[((1, 0), (2, 0)), ((1, 1), (2, 0)), ((1, 2), (2, 0)), ((2, 0), (1, 0)), ((2, 0), (1, 1)), ((2, 0), (1, 2)), ((2, 0), (2, 1)), ((2, 0), (2, 2)), ((2, 1), (2, 0)), ((2, 2), (2, 0))],
  types: &[((1, 1), &[0, 2])] };
fn mk_0(v: &NV) -> S26GGammaRayNode { S26GGammaRayNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), name: Dat::mk(v.data[2]), } }
fn rd_0(x: &S26GGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd()], data: vec![x.opt.rd(), x.pair.rd(), x.name.rd()] } }
fn wr_0(x: &mut S26GGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); x.name = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S26GCNode { S26GCNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), left_most_link: LinkF::mk(&v.links[2]), value: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), } }
fn rd_1(x: &S26GCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.uses.rd(), x.left_most_link.rd()], data: vec![x.value.rd(), x.name.rd()] } }
fn wr_1(x: &mut S26GCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.left_most_link.rd() != v.links[2] { x.left_most_link = LinkF::mk(&v.links[2]); } x.value = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); }
fn mk_2(v: &NV) -> S26GDeltaXNode { S26GDeltaXNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), zz: LinkF::mk(&v.links[1]), in_edges: LinkF::mk(&v.links[2]),  } }
fn rd_2(x: &S26GDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd(), x.zz.rd(), x.in_edges.rd()], data: vec![] } }
fn wr_2(x: &mut S26GDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } if x.zz.rd() != v.links[1] { x.zz = LinkF::mk(&v.links[1]); } if x.in_edges.rd() != v.links[2] { x.in_edges = LinkF::mk(&v.links[2]); }  }
fn mk_3(v: &NV) -> S26GBetaNodeNode { S26GBetaNodeNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), meta_data: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), value: Dat::mk(v.data[2]), } }
fn rd_3(x: &S26GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.meta_data.rd(), x.arr3.rd(), x.value.rd()] } }
fn wr_3(x: &mut S26GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.meta_data = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.value = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS26G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS26G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS26G::GammaRay(mk_0(v)), 1 => NS26G::C(mk_1(v)), 2 => NS26G::DeltaX(mk_2(v)), 3 => NS26G::BetaNode(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS26G::GammaRay(x) => rd_0(x, 0), NS26G::C(x) => rd_1(x, 1), NS26G::DeltaX(x) => rd_2(x, 2), NS26G::BetaNode(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS26G::GammaRay(x), 0) => wr_0(x, v), (NS26G::C(x), 1) => wr_1(x, v), (NS26G::DeltaX(x), 2) => wr_2(x, v), (NS26G::BetaNode(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS26G::GammaRay), 1 => discriminant!(NS26G::C), 2 => discriminant!(NS26G::DeltaX), 3 => discriminant!(NS26G::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS26G::GammaRay), 1 => alloc_node!(t, NS26G::C), 2 => alloc_node!(t, NS26G::DeltaX), 3 => alloc_node!(t, NS26G::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS26G::GammaRay, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS26G::C, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS26G::DeltaX, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS26G::BetaNode, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS26G::GammaRay).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS26G::C).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS26G::DeltaX).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS26G::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS26G::GammaRay, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS26G::GammaRay, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS26G::GammaRay, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS26G::C, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS26G::C, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS26G::C, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS26G::DeltaX, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS26G::DeltaX, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS26G::DeltaX, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS26G::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS26G::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS26G::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS26G::GammaRay, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS26G::GammaRay, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS26G::GammaRay, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS26G::C, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS26G::C, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS26G::C, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS26G::DeltaX, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS26G::DeltaX, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS26G::DeltaX, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS26G::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS26G::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS26G::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S26GGammaRayNode>(), 1 => static_refl::<S26GCNode>(), 2 => static_refl::<S26GDeltaXNode>(), 3 => static_refl::<S26GBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS26G::GammaRay(x) => typed_refl(x, name), NS26G::C(x) => typed_refl(x, name), NS26G::DeltaX(x) => typed_refl(x, name), NS26G::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS26G::GammaRay(x) => mirror_refl(x), NS26G::C(x) => mirror_refl(x), NS26G::DeltaX(x) => mirror_refl(x), NS26G::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s26x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26XGammaRayNode {
  #[group(grp_b)]
  pub uses: Vec<NodeIndex>,
  pub pair: String,
  pub name: Option<NodeIndex>,
  pub opt: String,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26XCNode {
  pub value: Vec<u32>,
  #[group(grp_b)]
  pub in_edges: OrderSet<NodeIndex>,
  pub uid: Tok,
  #[group(grp_b)]
  pub uses: collections::HashSet<NodeIndex>,
  #[group(grp_b)]
  pub left_most_link: ttgraph::NodeIndex,
  pub name: String,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26XDeltaXNode {
  pub uid: Tok,
  pub peer: NodeIndex,
  #[group(grp_b)]
  pub zz: ttgraph::NodeIndex,
  #[group(grp_b)]
  pub in_edges: NodeIndex,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S26XBetaNodeNode {
  pub ref_b: ordermap::set::OrderSet<NodeIndex>,
  pub value: HashSet<usize>,
  pub uid: Tok,
  pub meta_data: Vec<u32>,
  pub arr3: Vec<usize>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS26X { GammaRay(S26XGammaRayNode), C(S26XCNode), DeltaX(S26XDeltaXNode), BetaNode(S26XBetaNodeNode) }
  link_type! { C.uses: {GammaRay, DeltaX} }
  group! { tgtwo{C, BetaNode}, tg_one{GammaRay} }
  bidirectional! { C.uses <-> DeltaX.peer, C.left_most_link <-> DeltaX.peer, DeltaX.peer <-> DeltaX.zz, DeltaX.peer <-> DeltaX.in_edges }
  bidirectional! { C.in_edges <-> DeltaX.peer }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s26x", fam: 'x', variants: &[
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "uses", kind: Kind::V, groups: &["grp_b"] }], data: &[DataDesc { name: "opt", ty: 1 }, DataDesc { name: "pair", ty: 1 }, DataDesc { name: "name", ty: 8 }], data_order: &["pair", "name", "opt", "uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "left_most_link", kind: Kind::D, groups: &["grp_b"] }], data: &[DataDesc { name: "value", ty: 5 }, DataDesc { name: "name", ty: 1 }], data_order: &["value", "uid", "name"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &[] }, LinkDesc { name: "zz", kind: Kind::D, groups: &["grp_b"] }, LinkDesc { name: "in_edges", kind: Kind::D, groups: &["grp_b"] }], data: &[], data_order: &["uid"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "meta_data", ty: 5 }, DataDesc { name: "arr3", ty: 9 }, DataDesc { name: "value", ty: 10 }], data_order: &["value", "uid", "meta_data", "arr3"], groups: &[], phantom: &[] },
], groups: &[("tgtwo", &[1, 3]), ("tg_one", &[0])],
  pairs: &[((1, 0), (2, 0)), ((1, 1), (2, 0)), ((1, 2), (2, 0)), ((2, 0), (1, 0)), ((2, 0), (1, 1)), ((2, 0), (1, 2)), ((2, 0), (2, 1)), ((2, 0), (2, 2)), ((2, 1), (2, 0)), ((2, 2), (2, 0))],
  types: &[((1, 1), &[0, 2])] };
fn mk_0(v: &NV) -> S26XGammaRayNode { S26XGammaRayNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), opt: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), name: Dat::mk(v.data[2]), } }
fn rd_0(x: &S26XGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd()], data: vec![x.opt.rd(), x.pair.rd(), x.name.rd()] } }
fn wr_0(x: &mut S26XGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } x.opt = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); x.name = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S26XCNode { S26XCNode { uid: Tok::mk(v.uid), in_edges: LinkF::mk(&v.links[0]), uses: LinkF::mk(&v.links[1]), left_most_link: LinkF::mk(&v.links[2]), value: Dat::mk(v.data[0]), name: Dat::mk(v.data[1]), } }
fn rd_1(x: &S26XCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.in_edges.rd(), x.uses.rd(), x.left_most_link.rd()], data: vec![x.value.rd(), x.name.rd()] } }
fn wr_1(x: &mut S26XCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.in_edges.rd() != v.links[0] { x.in_edges = LinkF::mk(&v.links[0]); } if x.uses.rd() != v.links[1] { x.uses = LinkF::mk(&v.links[1]); } if x.left_most_link.rd() != v.links[2] { x.left_most_link = LinkF::mk(&v.links[2]); } x.value = Dat::mk(v.data[0]); x.name = Dat::mk(v.data[1]); }
fn mk_2(v: &NV) -> S26XDeltaXNode { S26XDeltaXNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), zz: LinkF::mk(&v.links[1]), in_edges: LinkF::mk(&v.links[2]),  } }
fn rd_2(x: &S26XDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd(), x.zz.rd(), x.in_edges.rd()], data: vec![] } }
fn wr_2(x: &mut S26XDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } if x.zz.rd() != v.links[1] { x.zz = LinkF::mk(&v.links[1]); } if x.in_edges.rd() != v.links[2] { x.in_edges = LinkF::mk(&v.links[2]); }  }
fn mk_3(v: &NV) -> S26XBetaNodeNode { S26XBetaNodeNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), meta_data: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), value: Dat::mk(v.data[2]), } }
fn rd_3(x: &S26XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd()], data: vec![x.meta_data.rd(), x.arr3.rd(), x.value.rd()] } }
fn wr_3(x: &mut S26XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } x.meta_data = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.value = Dat::mk(v.data[2]); }
impl std::fmt::Display for NS26X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS26X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS26X::GammaRay(mk_0(v)), 1 => NS26X::C(mk_1(v)), 2 => NS26X::DeltaX(mk_2(v)), 3 => NS26X::BetaNode(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS26X::GammaRay(x) => rd_0(x, 0), NS26X::C(x) => rd_1(x, 1), NS26X::DeltaX(x) => rd_2(x, 2), NS26X::BetaNode(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS26X::GammaRay(x), 0) => wr_0(x, v), (NS26X::C(x), 1) => wr_1(x, v), (NS26X::DeltaX(x), 2) => wr_2(x, v), (NS26X::BetaNode(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS26X::GammaRay), 1 => discriminant!(NS26X::C), 2 => discriminant!(NS26X::DeltaX), 3 => discriminant!(NS26X::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS26X::GammaRay), 1 => alloc_node!(t, NS26X::C), 2 => alloc_node!(t, NS26X::DeltaX), 3 => alloc_node!(t, NS26X::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS26X::GammaRay, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS26X::C, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS26X::DeltaX, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS26X::BetaNode, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS26X::GammaRay).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS26X::C).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS26X::DeltaX).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS26X::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS26X::GammaRay, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS26X::GammaRay, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS26X::GammaRay, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS26X::C, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS26X::C, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS26X::C, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS26X::DeltaX, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS26X::DeltaX, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS26X::DeltaX, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS26X::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS26X::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS26X::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS26X::GammaRay, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS26X::GammaRay, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS26X::GammaRay, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS26X::C, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS26X::C, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS26X::C, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS26X::DeltaX, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS26X::DeltaX, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS26X::DeltaX, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS26X::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS26X::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS26X::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S26XGammaRayNode>(), 1 => static_refl::<S26XCNode>(), 2 => static_refl::<S26XDeltaXNode>(), 3 => static_refl::<S26XBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS26X::GammaRay(x) => typed_refl(x, name), NS26X::C(x) => typed_refl(x, name), NS26X::DeltaX(x) => typed_refl(x, name), NS26X::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS26X::GammaRay(x) => mirror_refl(x), NS26X::C(x) => mirror_refl(x), NS26X::DeltaX(x) => mirror_refl(x), NS26X::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s27g {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S27GFzNode {
  pub arr3: BTreeMap<u32, String>,
  #[group(grp_b)]
  pub uses: HashSet<NodeIndex>,
  pub uid: Tok,
  pub pair: [u8; 3],
  pub table: Option<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S27GEpsilonNode {
  #[group(grp)]
  pub zz: indexmap::set::IndexSet<NodeIndex>,
  pub kids: ttgraph::NodeIndex,
  #[group(grp)]
  pub a: BTreeSet<NodeIndex>,
  pub uid: Tok,
  pub table: Vec<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S27GGammaRayNode {
  pub meta_data: HashSet<usize>,
  #[group(grp_b)]
  pub peer: NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S27GBetaNodeNode {
  pub peer: ttgraph::NodeIndex,
  #[group(grp)]
  pub kids: NodeIndex,
  #[group(grp_b)]
  #[group(grp)]
  pub x1: ttgraph::NodeIndex,
  pub uid: Tok,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS27G { Fz(S27GFzNode), Epsilon(S27GEpsilonNode), GammaRay(S27GGammaRayNode), BetaNode(S27GBetaNodeNode) }
  link_type! { Epsilon.grp: BetaNode, tgtwo.grp_b: {GammaRay, tg_x} }
  group! { tg_x{Epsilon, BetaNode, Fz}, tgtwo{Epsilon, BetaNode, GammaRay} }
  bidirectional! { Epsilon.grp_b <-> Fz.uses, Fz.uses <-> Epsilon.grp_b, }
  bidirectional! { tgtwo.grp <-> tgtwo.grp }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s27g", fam: 'g', variants: &[
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "table", ty: 8 }, DataDesc { name: "arr3", ty: 7 }, DataDesc { name: "pair", ty: 4 }], data_order: &["arr3", "uid", "pair", "table"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "kids", kind: Kind::D, groups: &[] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 9 }], data_order: &["uid", "table"], groups: &["grp"], phantom: &["grp_b"] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &["grp_b"] }], data: &[DataDesc { name: "meta_data", ty: 10 }], data_order: &["meta_data", "uid"], groups: &["grp_b"], phantom: &["grp"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &[] }, LinkDesc { name: "kids", kind: Kind::D, groups: &["grp"] }, LinkDesc { name: "x1", kind: Kind::D, groups: &["grp_b", "grp"] }], data: &[], data_order: &["uid"], groups: &["grp", "grp_b"], phantom: &[] },
], groups: &[("tg_x", &[1, 3, 0]), ("tgtwo", &[1, 3, 2])],
  pairs: &[((1, 0), (1, 0)), ((1, 0), (1, 2)), ((1, 0), (3, 1)), ((1, 0), (3, 2)), ((1, 2), (1, 0)), ((1, 2), (1, 2)), ((1, 2), (3, 1)), ((1, 2), (3, 2)), ((3, 1), (1, 0)), ((3, 1), (1, 2)), ((3, 1), (3, 1)), ((3, 1), (3, 2)), ((3, 2), (1, 0)), ((3, 2), (1, 2)), ((3, 2), (3, 1)), ((3, 2), (3, 2))],
  types: &[((1, 0), &[3]), ((1, 2), &[3]), ((2, 0), &[0, 1, 2, 3]), ((3, 2), &[0, 1, 2, 3])] };
fn mk_0(v: &NV) -> S27GFzNode { S27GFzNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), table: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_0(x: &S27GFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd()], data: vec![x.table.rd(), x.arr3.rd(), x.pair.rd()] } }
fn wr_0(x: &mut S27GFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } x.table = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S27GEpsilonNode { S27GEpsilonNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), a: LinkF::mk(&v.links[2]), table: Dat::mk(v.data[0]), } }
fn rd_1(x: &S27GEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.kids.rd(), x.a.rd()], data: vec![x.table.rd()] } }
fn wr_1(x: &mut S27GEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } if x.a.rd() != v.links[2] { x.a = LinkF::mk(&v.links[2]); } x.table = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S27GGammaRayNode { S27GGammaRayNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), meta_data: Dat::mk(v.data[0]), } }
fn rd_2(x: &S27GGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd()], data: vec![x.meta_data.rd()] } }
fn wr_2(x: &mut S27GGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } x.meta_data = Dat::mk(v.data[0]); }
fn mk_3(v: &NV) -> S27GBetaNodeNode { S27GBetaNodeNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]),  } }
fn rd_3(x: &S27GBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd(), x.kids.rd(), x.x1.rd()], data: vec![] } }
fn wr_3(x: &mut S27GBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); }  }
impl std::fmt::Display for NS27G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS27G;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS27G::Fz(mk_0(v)), 1 => NS27G::Epsilon(mk_1(v)), 2 => NS27G::GammaRay(mk_2(v)), 3 => NS27G::BetaNode(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS27G::Fz(x) => rd_0(x, 0), NS27G::Epsilon(x) => rd_1(x, 1), NS27G::GammaRay(x) => rd_2(x, 2), NS27G::BetaNode(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS27G::Fz(x), 0) => wr_0(x, v), (NS27G::Epsilon(x), 1) => wr_1(x, v), (NS27G::GammaRay(x), 2) => wr_2(x, v), (NS27G::BetaNode(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS27G::Fz), 1 => discriminant!(NS27G::Epsilon), 2 => discriminant!(NS27G::GammaRay), 3 => discriminant!(NS27G::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS27G::Fz), 1 => alloc_node!(t, NS27G::Epsilon), 2 => alloc_node!(t, NS27G::GammaRay), 3 => alloc_node!(t, NS27G::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS27G::Fz, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS27G::Epsilon, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS27G::GammaRay, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS27G::BetaNode, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS27G::Fz).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS27G::Epsilon).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS27G::GammaRay).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS27G::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS27G::Fz, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS27G::Fz, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS27G::Fz, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS27G::Epsilon, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS27G::Epsilon, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS27G::Epsilon, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS27G::GammaRay, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS27G::GammaRay, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS27G::GammaRay, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS27G::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS27G::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS27G::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS27G::Fz, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS27G::Fz, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS27G::Fz, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS27G::Epsilon, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS27G::Epsilon, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS27G::Epsilon, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS27G::GammaRay, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS27G::GammaRay, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS27G::GammaRay, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS27G::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS27G::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS27G::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S27GFzNode>(), 1 => static_refl::<S27GEpsilonNode>(), 2 => static_refl::<S27GGammaRayNode>(), 3 => static_refl::<S27GBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS27G::Fz(x) => typed_refl(x, name), NS27G::Epsilon(x) => typed_refl(x, name), NS27G::GammaRay(x) => typed_refl(x, name), NS27G::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS27G::Fz(x) => mirror_refl(x), NS27G::Epsilon(x) => mirror_refl(x), NS27G::GammaRay(x) => mirror_refl(x), NS27G::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod s27x {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S27XFzNode {
  #[group(grp_b)]
  pub uses: HashSet<NodeIndex>,
  pub arr3: BTreeMap<u32, String>,
  pub pair: [u8; 3],
  pub uid: Tok,
  pub table: Option<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp_b)]
pub struct S27XEpsilonNode {
  #[group(grp)]
  pub zz: indexmap::set::IndexSet<NodeIndex>,
  pub kids: ttgraph::NodeIndex,
  #[group(grp)]
  pub a: BTreeSet<NodeIndex>,
  pub uid: Tok,
  pub table: Vec<usize>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
#[phantom_group(grp)]
pub struct S27XGammaRayNode {
  pub meta_data: HashSet<usize>,
  #[group(grp_b)]
  pub peer: NodeIndex,
  pub uid: Tok,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct S27XBetaNodeNode {
  pub peer: ttgraph::NodeIndex,
  pub uid: Tok,
  #[group(grp)]
  pub kids: NodeIndex,
  #[group(grp_b)]
  #[group(grp)]
  pub x1: ttgraph::NodeIndex,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NS27X { Fz(S27XFzNode), Epsilon(S27XEpsilonNode), GammaRay(S27XGammaRayNode), BetaNode(S27XBetaNodeNode) }
  bidirectional! { Epsilon.zz <-> Epsilon.zz, Epsilon.zz <-> Epsilon.a, Epsilon.zz <-> BetaNode.kids, Epsilon.zz <-> BetaNode.x1, Epsilon.a <-> Epsilon.a, Epsilon.a <-> BetaNode.kids, Epsilon.a <-> BetaNode.x1, BetaNode.kids <-> BetaNode.kids, BetaNode.kids <-> BetaNode.x1, BetaNode.x1 <-> BetaNode.x1 }
  link_type! { BetaNode.x1: {Fz, Epsilon, GammaRay, BetaNode} }
  link_type! { Epsilon.zz: BetaNode, Epsilon.a: BetaNode, GammaRay.peer: {Fz, Epsilon, GammaRay, BetaNode} }
  group! { tg_x{Epsilon, BetaNode, Fz} }
  group! { tgtwo{Epsilon, BetaNode, GammaRay} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "s27x", fam: 'x', variants: &[
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "uses", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "table", ty: 8 }, DataDesc { name: "arr3", ty: 7 }, DataDesc { name: "pair", ty: 4 }], data_order: &["arr3", "pair", "uid", "table"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "zz", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "kids", kind: Kind::D, groups: &[] }, LinkDesc { name: "a", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "table", ty: 9 }], data_order: &["uid", "table"], groups: &["grp"], phantom: &["grp_b"] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &["grp_b"] }], data: &[DataDesc { name: "meta_data", ty: 10 }], data_order: &["meta_data", "uid"], groups: &["grp_b"], phantom: &["grp"] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "peer", kind: Kind::D, groups: &[] }, LinkDesc { name: "kids", kind: Kind::D, groups: &["grp"] }, LinkDesc { name: "x1", kind: Kind::D, groups: &["grp_b", "grp"] }], data: &[], data_order: &["uid"], groups: &["grp", "grp_b"], phantom: &[] },
], groups: &[("tg_x", &[1, 3, 0]), ("tgtwo", &[1, 3, 2])],
  pairs: &[((1, 0), (1, 0)), ((1, 0), (1, 2)), ((1, 0), (3, 1)), ((1, 0), (3, 2)), ((1, 2), (1, 0)), ((1, 2), (1, 2)), ((1, 2), (3, 1)), ((1, 2), (3, 2)), ((3, 1), (1, 0)), ((3, 1), (1, 2)), ((3, 1), (3, 1)), ((3, 1), (3, 2)), ((3, 2), (1, 0)), ((3, 2), (1, 2)), ((3, 2), (3, 1)), ((3, 2), (3, 2))],
  types: &[((1, 0), &[3]), ((1, 2), &[3]), ((2, 0), &[0, 1, 2, 3]), ((3, 2), &[0, 1, 2, 3])] };
fn mk_0(v: &NV) -> S27XFzNode { S27XFzNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), table: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), pair: Dat::mk(v.data[2]), } }
fn rd_0(x: &S27XFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd()], data: vec![x.table.rd(), x.arr3.rd(), x.pair.rd()] } }
fn wr_0(x: &mut S27XFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } x.table = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); x.pair = Dat::mk(v.data[2]); }
fn mk_1(v: &NV) -> S27XEpsilonNode { S27XEpsilonNode { uid: Tok::mk(v.uid), zz: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), a: LinkF::mk(&v.links[2]), table: Dat::mk(v.data[0]), } }
fn rd_1(x: &S27XEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.zz.rd(), x.kids.rd(), x.a.rd()], data: vec![x.table.rd()] } }
fn wr_1(x: &mut S27XEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.zz.rd() != v.links[0] { x.zz = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } if x.a.rd() != v.links[2] { x.a = LinkF::mk(&v.links[2]); } x.table = Dat::mk(v.data[0]); }
fn mk_2(v: &NV) -> S27XGammaRayNode { S27XGammaRayNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), meta_data: Dat::mk(v.data[0]), } }
fn rd_2(x: &S27XGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd()], data: vec![x.meta_data.rd()] } }
fn wr_2(x: &mut S27XGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } x.meta_data = Dat::mk(v.data[0]); }
fn mk_3(v: &NV) -> S27XBetaNodeNode { S27XBetaNodeNode { uid: Tok::mk(v.uid), peer: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]),  } }
fn rd_3(x: &S27XBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.peer.rd(), x.kids.rd(), x.x1.rd()], data: vec![] } }
fn wr_3(x: &mut S27XBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.peer.rd() != v.links[0] { x.peer = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); }  }
impl std::fmt::Display for NS27X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NS27X;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NS27X::Fz(mk_0(v)), 1 => NS27X::Epsilon(mk_1(v)), 2 => NS27X::GammaRay(mk_2(v)), 3 => NS27X::BetaNode(mk_3(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NS27X::Fz(x) => rd_0(x, 0), NS27X::Epsilon(x) => rd_1(x, 1), NS27X::GammaRay(x) => rd_2(x, 2), NS27X::BetaNode(x) => rd_3(x, 3), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NS27X::Fz(x), 0) => wr_0(x, v), (NS27X::Epsilon(x), 1) => wr_1(x, v), (NS27X::GammaRay(x), 2) => wr_2(x, v), (NS27X::BetaNode(x), 3) => wr_3(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NS27X::Fz), 1 => discriminant!(NS27X::Epsilon), 2 => discriminant!(NS27X::GammaRay), 3 => discriminant!(NS27X::BetaNode), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NS27X::Fz), 1 => alloc_node!(t, NS27X::Epsilon), 2 => alloc_node!(t, NS27X::GammaRay), 3 => alloc_node!(t, NS27X::BetaNode), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NS27X::Fz, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NS27X::Epsilon, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NS27X::GammaRay, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NS27X::BetaNode, idx).map(|x| rd_3(x, 3)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NS27X::Fz).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NS27X::Epsilon).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NS27X::GammaRay).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NS27X::BetaNode).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NS27X::Fz, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NS27X::Fz, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NS27X::Fz, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NS27X::Epsilon, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NS27X::Epsilon, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NS27X::Epsilon, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NS27X::GammaRay, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NS27X::GammaRay, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NS27X::GammaRay, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NS27X::BetaNode, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NS27X::BetaNode, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NS27X::BetaNode, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NS27X::Fz, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NS27X::Fz, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NS27X::Fz, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NS27X::Epsilon, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NS27X::Epsilon, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NS27X::Epsilon, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NS27X::GammaRay, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NS27X::GammaRay, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NS27X::GammaRay, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NS27X::BetaNode, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NS27X::BetaNode, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NS27X::BetaNode, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<S27XFzNode>(), 1 => static_refl::<S27XEpsilonNode>(), 2 => static_refl::<S27XGammaRayNode>(), 3 => static_refl::<S27XBetaNodeNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NS27X::Fz(x) => typed_refl(x, name), NS27X::Epsilon(x) => typed_refl(x, name), NS27X::GammaRay(x) => typed_refl(x, name), NS27X::BetaNode(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NS27X::Fz(x) => mirror_refl(x), NS27X::Epsilon(x) => mirror_refl(x), NS27X::GammaRay(x) => mirror_refl(x), NS27X::BetaNode(x) => mirror_refl(x), } }
}
}

pub mod sspell {
#![allow(unused_imports, dead_code, deprecated)]
use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;
mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }
use serde::{Serialize, Deserialize}; use crate::core::*;
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLAlphaNode {
  pub arr3: Vec<u32>,
  pub pair: (NodeIndex, u8),
  pub prev_item: Vec<NodeIndex>,
  pub ref_b: std::collections::BTreeSet<NodeIndex>,
  pub uid: Tok,
  #[group(grp_b)]
  pub next: map::IndexSet<NodeIndex>,
  pub uses: collections::BTreeSet<ttgraph::NodeIndex>,
  #[group(grp)]
  pub tos: collections::HashSet<NodeIndex>,
  pub owner_of: ::indexmap::set::IndexSet<ttgraph::NodeIndex>,
  #[group(grp)]
  pub peer: indexmap::IndexSet<NodeIndex>,
  #[group(grp_b)]
  pub in_edges: ordermap::set::OrderSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLBetaNodeNode {
  pub uid: Tok,
  pub ref_b: HashSet::<ttgraph::NodeIndex>,
  pub weight: [u8; 3],
  pub kids: OrderSet<ttgraph::NodeIndex>,
  pub meta_data: String,
  pub tos: ordermap::OrderSet<ttgraph::NodeIndex>,
  pub zz: ::std::collections::HashSet<NodeIndex>,
  pub peer: tgraph::ordermap::OrderSet<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub owner_of: HashSet<NodeIndex>,
  pub in_edges: BTreeSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLCNode {
  pub next: indexmap::set::IndexSet<ttgraph::NodeIndex>,
  pub owner_of: HashSet<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub peer: collections::HashSet<ttgraph::NodeIndex>,
  pub pair: Box<i64>,
  pub uid: Tok,
  pub table: HashSet<usize>,
  pub a: ::ordermap::set::OrderSet<NodeIndex>,
  #[group(grp)]
  pub tos: std::vec::Vec::<NodeIndex>,
  #[group(grp)]
  pub uses: ::std::collections::BTreeSet<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub left_most_link: std::collections::HashSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLDeltaXNode {
  pub next: std::collections::HashSet<ttgraph::NodeIndex>,
  pub a: NodeIndex,
  pub uid: Tok,
  #[group(grp)]
  #[group(grp_b)]
  pub x1: BTreeSet::<NodeIndex>,
  #[group(grp)]
  pub tos: OrderSet::<NodeIndex>,
  pub weight: String,
  pub peer: ::ordermap::set::OrderSet<ttgraph::NodeIndex>,
  pub arr3: (u8, u16),
  pub zz: OrderSet<NodeIndex>,
  #[group(grp)]
  pub left_most_link: indexmap::set::IndexSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLEpsilonNode {
  pub uid: Tok,
  pub ref_b: map::IndexSet<ttgraph::NodeIndex>,
  pub arr3: String,
  pub prev_item: ::std::collections::BTreeSet<NodeIndex>,
  pub weight: (u8, u16),
  pub left_most_link: tgraph::ordermap::OrderSet<NodeIndex>,
  pub a: ::std::vec::Vec<ttgraph::NodeIndex>,
  pub tos: std::vec::Vec<ttgraph::NodeIndex>,
  pub uses: ::ordermap::OrderSet<NodeIndex>,
  #[group(grp_b)]
  pub x1: ::std::collections::HashSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLLongVariantNameNode {
  pub weight: Vec<u32>,
  pub uid: Tok,
  pub left_most_link: std::collections::BTreeSet<ttgraph::NodeIndex>,
  pub arr3: u64,
  #[group(grp_b)]
  pub owner_of: vec::Vec<NodeIndex>,
  pub ref_b: ttgraph::NodeIndex,
  #[group(grp)]
  pub a: std::vec::Vec<NodeIndex>,
  #[group(grp_b)]
  pub in_edges: ordermap::set::OrderSet<ttgraph::NodeIndex>,
  #[group(grp_b)]
  pub kids: ::ordermap::OrderSet<ttgraph::NodeIndex>,
  pub prev_item: indexmap::IndexSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLFzNode {
  #[group(grp_b)]
  pub a: ::indexmap::set::IndexSet<NodeIndex>,
  #[group(grp)]
  #[group(grp_b)]
  pub left_most_link: vec::Vec<ttgraph::NodeIndex>,
  pub arr3: [u8; 3],
  pub pair: Box<i64>,
  pub uid: Tok,
  #[group(grp_b)]
  pub x1: ::indexmap::IndexSet<ttgraph::NodeIndex>,
  pub peer: map::OrderSet<ttgraph::NodeIndex>,
  pub next: map::OrderSet<NodeIndex>,
  #[group(grp)]
  pub tos: IndexSet<NodeIndex>,
  #[group(grp)]
  #[group(grp_b)]
  pub kids: BTreeSet<NodeIndex>,
}
#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]
pub struct SSPELLGammaRayNode {
  pub uid: Tok,
  pub uses: IndexSet<ttgraph::NodeIndex>,
  pub a: collections::BTreeSet<NodeIndex>,
  pub opt: Box<i64>,
  pub pair: Option<u32>,
  pub next: ::indexmap::IndexSet<NodeIndex>,
  pub x1: Vec<ttgraph::NodeIndex>,
  pub kids: ordermap::OrderSet<NodeIndex>,
  #[group(grp, grp_b)]
  pub left_most_link: ::std::vec::Vec<NodeIndex>,
  pub in_edges: Vec::<NodeIndex>,
}
node_enum! {
  #[derive(Serialize, Deserialize, Debug, Clone)]
  pub enum NSSPELL { Alpha(SSPELLAlphaNode), BetaNode(SSPELLBetaNodeNode), C(SSPELLCNode), DeltaX(SSPELLDeltaXNode), Epsilon(SSPELLEpsilonNode), LongVariantName(SSPELLLongVariantNameNode), Fz(SSPELLFzNode), GammaRay(SSPELLGammaRayNode) }
  group! { tg_one{Fz, Alpha, DeltaX} }
  group! { tgtwo{GammaRay}, tg_all{Alpha, BetaNode, C, DeltaX, Epsilon, LongVariantName, Fz, GammaRay}, tg_x{BetaNode, DeltaX, LongVariantName, GammaRay, C} }
}
pub static DESC: SchemaDesc = SchemaDesc { name: "sspell", fam: 's', variants: &[
  VariantDesc { name: "Alpha", links: &[LinkDesc { name: "prev_item", kind: Kind::V, groups: &[] }, LinkDesc { name: "ref_b", kind: Kind::S, groups: &[] }, LinkDesc { name: "next", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "arr3", ty: 5 }, DataDesc { name: "pair", ty: 11 }], data_order: &["arr3", "pair", "uid"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "BetaNode", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &[] }, LinkDesc { name: "kids", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::S, groups: &[] }, LinkDesc { name: "zz", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::S, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "meta_data", ty: 1 }, DataDesc { name: "weight", ty: 4 }], data_order: &["uid", "weight", "meta_data"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "C", links: &[LinkDesc { name: "next", kind: Kind::S, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::S, groups: &[] }, LinkDesc { name: "peer", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "a", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::V, groups: &["grp"] }, LinkDesc { name: "uses", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "left_most_link", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "table", ty: 10 }, DataDesc { name: "pair", ty: 6 }], data_order: &["pair", "uid", "table"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "DeltaX", links: &[LinkDesc { name: "next", kind: Kind::S, groups: &[] }, LinkDesc { name: "a", kind: Kind::D, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["grp", "grp_b"] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "peer", kind: Kind::S, groups: &[] }, LinkDesc { name: "zz", kind: Kind::S, groups: &[] }, LinkDesc { name: "left_most_link", kind: Kind::S, groups: &["grp"] }], data: &[DataDesc { name: "arr3", ty: 3 }, DataDesc { name: "weight", ty: 1 }], data_order: &["uid", "weight", "arr3"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "Epsilon", links: &[LinkDesc { name: "ref_b", kind: Kind::S, groups: &[] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }, LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "a", kind: Kind::V, groups: &[] }, LinkDesc { name: "tos", kind: Kind::V, groups: &[] }, LinkDesc { name: "uses", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["grp_b"] }], data: &[DataDesc { name: "weight", ty: 3 }, DataDesc { name: "arr3", ty: 1 }], data_order: &["uid", "arr3", "weight"], groups: &["grp_b"], phantom: &[] },
  VariantDesc { name: "LongVariantName", links: &[LinkDesc { name: "left_most_link", kind: Kind::S, groups: &[] }, LinkDesc { name: "owner_of", kind: Kind::V, groups: &["grp_b"] }, LinkDesc { name: "ref_b", kind: Kind::D, groups: &[] }, LinkDesc { name: "a", kind: Kind::V, groups: &["grp"] }, LinkDesc { name: "in_edges", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "kids", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "prev_item", kind: Kind::S, groups: &[] }], data: &[DataDesc { name: "weight", ty: 5 }, DataDesc { name: "arr3", ty: 0 }], data_order: &["weight", "uid", "arr3"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "Fz", links: &[LinkDesc { name: "a", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "left_most_link", kind: Kind::V, groups: &["grp", "grp_b"] }, LinkDesc { name: "x1", kind: Kind::S, groups: &["grp_b"] }, LinkDesc { name: "peer", kind: Kind::S, groups: &[] }, LinkDesc { name: "next", kind: Kind::S, groups: &[] }, LinkDesc { name: "tos", kind: Kind::S, groups: &["grp"] }, LinkDesc { name: "kids", kind: Kind::S, groups: &["grp", "grp_b"] }], data: &[DataDesc { name: "pair", ty: 6 }, DataDesc { name: "arr3", ty: 4 }], data_order: &["arr3", "pair", "uid"], groups: &["grp", "grp_b"], phantom: &[] },
  VariantDesc { name: "GammaRay", links: &[LinkDesc { name: "uses", kind: Kind::S, groups: &[] }, LinkDesc { name: "a", kind: Kind::S, groups: &[] }, LinkDesc { name: "next", kind: Kind::S, groups: &[] }, LinkDesc { name: "x1", kind: Kind::V, groups: &[] }, LinkDesc { name: "kids", kind: Kind::S, groups: &[] }, LinkDesc { name: "left_most_link", kind: Kind::V, groups: &["grp", "grp_b"] }, LinkDesc { name: "in_edges", kind: Kind::V, groups: &[] }], data: &[DataDesc { name: "pair", ty: 2 }, DataDesc { name: "opt", ty: 6 }], data_order: &["uid", "opt", "pair"], groups: &["grp", "grp_b"], phantom: &[] },
], groups: &[("tg_one", &[6, 0, 3]), ("tgtwo", &[7]), ("tg_all", &[0, 1, 2, 3, 4, 5, 6, 7]), ("tg_x", &[1, 3, 5, 7, 2])],
  pairs: &[],
  types: &[] };
fn mk_0(v: &NV) -> SSPELLAlphaNode { SSPELLAlphaNode { uid: Tok::mk(v.uid), prev_item: LinkF::mk(&v.links[0]), ref_b: LinkF::mk(&v.links[1]), next: LinkF::mk(&v.links[2]), uses: LinkF::mk(&v.links[3]), tos: LinkF::mk(&v.links[4]), owner_of: LinkF::mk(&v.links[5]), peer: LinkF::mk(&v.links[6]), in_edges: LinkF::mk(&v.links[7]), arr3: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_0(x: &SSPELLAlphaNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.prev_item.rd(), x.ref_b.rd(), x.next.rd(), x.uses.rd(), x.tos.rd(), x.owner_of.rd(), x.peer.rd(), x.in_edges.rd()], data: vec![x.arr3.rd(), x.pair.rd()] } }
fn wr_0(x: &mut SSPELLAlphaNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.prev_item.rd() != v.links[0] { x.prev_item = LinkF::mk(&v.links[0]); } if x.ref_b.rd() != v.links[1] { x.ref_b = LinkF::mk(&v.links[1]); } if x.next.rd() != v.links[2] { x.next = LinkF::mk(&v.links[2]); } if x.uses.rd() != v.links[3] { x.uses = LinkF::mk(&v.links[3]); } if x.tos.rd() != v.links[4] { x.tos = LinkF::mk(&v.links[4]); } if x.owner_of.rd() != v.links[5] { x.owner_of = LinkF::mk(&v.links[5]); } if x.peer.rd() != v.links[6] { x.peer = LinkF::mk(&v.links[6]); } if x.in_edges.rd() != v.links[7] { x.in_edges = LinkF::mk(&v.links[7]); } x.arr3 = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_1(v: &NV) -> SSPELLBetaNodeNode { SSPELLBetaNodeNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), kids: LinkF::mk(&v.links[1]), tos: LinkF::mk(&v.links[2]), zz: LinkF::mk(&v.links[3]), peer: LinkF::mk(&v.links[4]), owner_of: LinkF::mk(&v.links[5]), in_edges: LinkF::mk(&v.links[6]), meta_data: Dat::mk(v.data[0]), weight: Dat::mk(v.data[1]), } }
fn rd_1(x: &SSPELLBetaNodeNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd(), x.kids.rd(), x.tos.rd(), x.zz.rd(), x.peer.rd(), x.owner_of.rd(), x.in_edges.rd()], data: vec![x.meta_data.rd(), x.weight.rd()] } }
fn wr_1(x: &mut SSPELLBetaNodeNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } if x.kids.rd() != v.links[1] { x.kids = LinkF::mk(&v.links[1]); } if x.tos.rd() != v.links[2] { x.tos = LinkF::mk(&v.links[2]); } if x.zz.rd() != v.links[3] { x.zz = LinkF::mk(&v.links[3]); } if x.peer.rd() != v.links[4] { x.peer = LinkF::mk(&v.links[4]); } if x.owner_of.rd() != v.links[5] { x.owner_of = LinkF::mk(&v.links[5]); } if x.in_edges.rd() != v.links[6] { x.in_edges = LinkF::mk(&v.links[6]); } x.meta_data = Dat::mk(v.data[0]); x.weight = Dat::mk(v.data[1]); }
fn mk_2(v: &NV) -> SSPELLCNode { SSPELLCNode { uid: Tok::mk(v.uid), next: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), peer: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), tos: LinkF::mk(&v.links[4]), uses: LinkF::mk(&v.links[5]), left_most_link: LinkF::mk(&v.links[6]), table: Dat::mk(v.data[0]), pair: Dat::mk(v.data[1]), } }
fn rd_2(x: &SSPELLCNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.next.rd(), x.owner_of.rd(), x.peer.rd(), x.a.rd(), x.tos.rd(), x.uses.rd(), x.left_most_link.rd()], data: vec![x.table.rd(), x.pair.rd()] } }
fn wr_2(x: &mut SSPELLCNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.next.rd() != v.links[0] { x.next = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } if x.peer.rd() != v.links[2] { x.peer = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } if x.tos.rd() != v.links[4] { x.tos = LinkF::mk(&v.links[4]); } if x.uses.rd() != v.links[5] { x.uses = LinkF::mk(&v.links[5]); } if x.left_most_link.rd() != v.links[6] { x.left_most_link = LinkF::mk(&v.links[6]); } x.table = Dat::mk(v.data[0]); x.pair = Dat::mk(v.data[1]); }
fn mk_3(v: &NV) -> SSPELLDeltaXNode { SSPELLDeltaXNode { uid: Tok::mk(v.uid), next: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]), tos: LinkF::mk(&v.links[3]), peer: LinkF::mk(&v.links[4]), zz: LinkF::mk(&v.links[5]), left_most_link: LinkF::mk(&v.links[6]), arr3: Dat::mk(v.data[0]), weight: Dat::mk(v.data[1]), } }
fn rd_3(x: &SSPELLDeltaXNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.next.rd(), x.a.rd(), x.x1.rd(), x.tos.rd(), x.peer.rd(), x.zz.rd(), x.left_most_link.rd()], data: vec![x.arr3.rd(), x.weight.rd()] } }
fn wr_3(x: &mut SSPELLDeltaXNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.next.rd() != v.links[0] { x.next = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); } if x.tos.rd() != v.links[3] { x.tos = LinkF::mk(&v.links[3]); } if x.peer.rd() != v.links[4] { x.peer = LinkF::mk(&v.links[4]); } if x.zz.rd() != v.links[5] { x.zz = LinkF::mk(&v.links[5]); } if x.left_most_link.rd() != v.links[6] { x.left_most_link = LinkF::mk(&v.links[6]); } x.arr3 = Dat::mk(v.data[0]); x.weight = Dat::mk(v.data[1]); }
fn mk_4(v: &NV) -> SSPELLEpsilonNode { SSPELLEpsilonNode { uid: Tok::mk(v.uid), ref_b: LinkF::mk(&v.links[0]), prev_item: LinkF::mk(&v.links[1]), left_most_link: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), tos: LinkF::mk(&v.links[4]), uses: LinkF::mk(&v.links[5]), x1: LinkF::mk(&v.links[6]), weight: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), } }
fn rd_4(x: &SSPELLEpsilonNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.ref_b.rd(), x.prev_item.rd(), x.left_most_link.rd(), x.a.rd(), x.tos.rd(), x.uses.rd(), x.x1.rd()], data: vec![x.weight.rd(), x.arr3.rd()] } }
fn wr_4(x: &mut SSPELLEpsilonNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.ref_b.rd() != v.links[0] { x.ref_b = LinkF::mk(&v.links[0]); } if x.prev_item.rd() != v.links[1] { x.prev_item = LinkF::mk(&v.links[1]); } if x.left_most_link.rd() != v.links[2] { x.left_most_link = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } if x.tos.rd() != v.links[4] { x.tos = LinkF::mk(&v.links[4]); } if x.uses.rd() != v.links[5] { x.uses = LinkF::mk(&v.links[5]); } if x.x1.rd() != v.links[6] { x.x1 = LinkF::mk(&v.links[6]); } x.weight = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); }
fn mk_5(v: &NV) -> SSPELLLongVariantNameNode { SSPELLLongVariantNameNode { uid: Tok::mk(v.uid), left_most_link: LinkF::mk(&v.links[0]), owner_of: LinkF::mk(&v.links[1]), ref_b: LinkF::mk(&v.links[2]), a: LinkF::mk(&v.links[3]), in_edges: LinkF::mk(&v.links[4]), kids: LinkF::mk(&v.links[5]), prev_item: LinkF::mk(&v.links[6]), weight: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), } }
fn rd_5(x: &SSPELLLongVariantNameNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.left_most_link.rd(), x.owner_of.rd(), x.ref_b.rd(), x.a.rd(), x.in_edges.rd(), x.kids.rd(), x.prev_item.rd()], data: vec![x.weight.rd(), x.arr3.rd()] } }
fn wr_5(x: &mut SSPELLLongVariantNameNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.left_most_link.rd() != v.links[0] { x.left_most_link = LinkF::mk(&v.links[0]); } if x.owner_of.rd() != v.links[1] { x.owner_of = LinkF::mk(&v.links[1]); } if x.ref_b.rd() != v.links[2] { x.ref_b = LinkF::mk(&v.links[2]); } if x.a.rd() != v.links[3] { x.a = LinkF::mk(&v.links[3]); } if x.in_edges.rd() != v.links[4] { x.in_edges = LinkF::mk(&v.links[4]); } if x.kids.rd() != v.links[5] { x.kids = LinkF::mk(&v.links[5]); } if x.prev_item.rd() != v.links[6] { x.prev_item = LinkF::mk(&v.links[6]); } x.weight = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); }
fn mk_6(v: &NV) -> SSPELLFzNode { SSPELLFzNode { uid: Tok::mk(v.uid), a: LinkF::mk(&v.links[0]), left_most_link: LinkF::mk(&v.links[1]), x1: LinkF::mk(&v.links[2]), peer: LinkF::mk(&v.links[3]), next: LinkF::mk(&v.links[4]), tos: LinkF::mk(&v.links[5]), kids: LinkF::mk(&v.links[6]), pair: Dat::mk(v.data[0]), arr3: Dat::mk(v.data[1]), } }
fn rd_6(x: &SSPELLFzNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.a.rd(), x.left_most_link.rd(), x.x1.rd(), x.peer.rd(), x.next.rd(), x.tos.rd(), x.kids.rd()], data: vec![x.pair.rd(), x.arr3.rd()] } }
fn wr_6(x: &mut SSPELLFzNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.a.rd() != v.links[0] { x.a = LinkF::mk(&v.links[0]); } if x.left_most_link.rd() != v.links[1] { x.left_most_link = LinkF::mk(&v.links[1]); } if x.x1.rd() != v.links[2] { x.x1 = LinkF::mk(&v.links[2]); } if x.peer.rd() != v.links[3] { x.peer = LinkF::mk(&v.links[3]); } if x.next.rd() != v.links[4] { x.next = LinkF::mk(&v.links[4]); } if x.tos.rd() != v.links[5] { x.tos = LinkF::mk(&v.links[5]); } if x.kids.rd() != v.links[6] { x.kids = LinkF::mk(&v.links[6]); } x.pair = Dat::mk(v.data[0]); x.arr3 = Dat::mk(v.data[1]); }
fn mk_7(v: &NV) -> SSPELLGammaRayNode { SSPELLGammaRayNode { uid: Tok::mk(v.uid), uses: LinkF::mk(&v.links[0]), a: LinkF::mk(&v.links[1]), next: LinkF::mk(&v.links[2]), x1: LinkF::mk(&v.links[3]), kids: LinkF::mk(&v.links[4]), left_most_link: LinkF::mk(&v.links[5]), in_edges: LinkF::mk(&v.links[6]), pair: Dat::mk(v.data[0]), opt: Dat::mk(v.data[1]), } }
fn rd_7(x: &SSPELLGammaRayNode, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![x.uses.rd(), x.a.rd(), x.next.rd(), x.x1.rd(), x.kids.rd(), x.left_most_link.rd(), x.in_edges.rd()], data: vec![x.pair.rd(), x.opt.rd()] } }
fn wr_7(x: &mut SSPELLGammaRayNode, v: &NV) { x.uid = Tok::mk(v.uid); if x.uses.rd() != v.links[0] { x.uses = LinkF::mk(&v.links[0]); } if x.a.rd() != v.links[1] { x.a = LinkF::mk(&v.links[1]); } if x.next.rd() != v.links[2] { x.next = LinkF::mk(&v.links[2]); } if x.x1.rd() != v.links[3] { x.x1 = LinkF::mk(&v.links[3]); } if x.kids.rd() != v.links[4] { x.kids = LinkF::mk(&v.links[4]); } if x.left_most_link.rd() != v.links[5] { x.left_most_link = LinkF::mk(&v.links[5]); } if x.in_edges.rd() != v.links[6] { x.in_edges = LinkF::mk(&v.links[6]); } x.pair = Dat::mk(v.data[0]); x.opt = Dat::mk(v.data[1]); }
impl std::fmt::Display for NSSPELL { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:?}>", Sch::read(self)) } }
pub struct Sch;
impl Schema for Sch {
  type N = NSSPELL;
  fn desc() -> &'static SchemaDesc { &DESC }
  fn make(v: &NV) -> Self::N { match v.var { 0 => NSSPELL::Alpha(mk_0(v)), 1 => NSSPELL::BetaNode(mk_1(v)), 2 => NSSPELL::C(mk_2(v)), 3 => NSSPELL::DeltaX(mk_3(v)), 4 => NSSPELL::Epsilon(mk_4(v)), 5 => NSSPELL::LongVariantName(mk_5(v)), 6 => NSSPELL::Fz(mk_6(v)), 7 => NSSPELL::GammaRay(mk_7(v)), _ => unreachable!() } }
  fn read(n: &Self::N) -> NV { match n { NSSPELL::Alpha(x) => rd_0(x, 0), NSSPELL::BetaNode(x) => rd_1(x, 1), NSSPELL::C(x) => rd_2(x, 2), NSSPELL::DeltaX(x) => rd_3(x, 3), NSSPELL::Epsilon(x) => rd_4(x, 4), NSSPELL::LongVariantName(x) => rd_5(x, 5), NSSPELL::Fz(x) => rd_6(x, 6), NSSPELL::GammaRay(x) => rd_7(x, 7), } }
  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { (NSSPELL::Alpha(x), 0) => wr_0(x, v), (NSSPELL::BetaNode(x), 1) => wr_1(x, v), (NSSPELL::C(x), 2) => wr_2(x, v), (NSSPELL::DeltaX(x), 3) => wr_3(x, v), (NSSPELL::Epsilon(x), 4) => wr_4(x, v), (NSSPELL::LongVariantName(x), 5) => wr_5(x, v), (NSSPELL::Fz(x), 6) => wr_6(x, v), (NSSPELL::GammaRay(x), 7) => wr_7(x, v), (n, _) => *n = Self::make(v), } }
  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { 0 => discriminant!(NSSPELL::Alpha), 1 => discriminant!(NSSPELL::BetaNode), 2 => discriminant!(NSSPELL::C), 3 => discriminant!(NSSPELL::DeltaX), 4 => discriminant!(NSSPELL::Epsilon), 5 => discriminant!(NSSPELL::LongVariantName), 6 => discriminant!(NSSPELL::Fz), 7 => discriminant!(NSSPELL::GammaRay), _ => unreachable!() } }
  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { 0 => alloc_node!(t, NSSPELL::Alpha), 1 => alloc_node!(t, NSSPELL::BetaNode), 2 => alloc_node!(t, NSSPELL::C), 3 => alloc_node!(t, NSSPELL::DeltaX), 4 => alloc_node!(t, NSSPELL::Epsilon), 5 => alloc_node!(t, NSSPELL::LongVariantName), 6 => alloc_node!(t, NSSPELL::Fz), 7 => alloc_node!(t, NSSPELL::GammaRay), _ => unreachable!() } }
  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { 0 => get_node!(g, NSSPELL::Alpha, idx).map(|x| rd_0(x, 0)), 1 => get_node!(g, NSSPELL::BetaNode, idx).map(|x| rd_1(x, 1)), 2 => get_node!(g, NSSPELL::C, idx).map(|x| rd_2(x, 2)), 3 => get_node!(g, NSSPELL::DeltaX, idx).map(|x| rd_3(x, 3)), 4 => get_node!(g, NSSPELL::Epsilon, idx).map(|x| rd_4(x, 4)), 5 => get_node!(g, NSSPELL::LongVariantName, idx).map(|x| rd_5(x, 5)), 6 => get_node!(g, NSSPELL::Fz, idx).map(|x| rd_6(x, 6)), 7 => get_node!(g, NSSPELL::GammaRay, idx).map(|x| rd_7(x, 7)), _ => unreachable!() } }
  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { 0 => iter_nodes!(g, NSSPELL::Alpha).map(|(k, x)| (k.0, rd_0(x, 0))).collect(), 1 => iter_nodes!(g, NSSPELL::BetaNode).map(|(k, x)| (k.0, rd_1(x, 1))).collect(), 2 => iter_nodes!(g, NSSPELL::C).map(|(k, x)| (k.0, rd_2(x, 2))).collect(), 3 => iter_nodes!(g, NSSPELL::DeltaX).map(|(k, x)| (k.0, rd_3(x, 3))).collect(), 4 => iter_nodes!(g, NSSPELL::Epsilon).map(|(k, x)| (k.0, rd_4(x, 4))).collect(), 5 => iter_nodes!(g, NSSPELL::LongVariantName).map(|(k, x)| (k.0, rd_5(x, 5))).collect(), 6 => iter_nodes!(g, NSSPELL::Fz).map(|(k, x)| (k.0, rd_6(x, 6))).collect(), 7 => iter_nodes!(g, NSSPELL::GammaRay).map(|(k, x)| (k.0, rd_7(x, 7))).collect(), _ => unreachable!() } }
  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { mut_node!(t, NSSPELL::Alpha, idx, move |x| { let n = f(rd_0(x, 0)); wr_0(x, &n) });  } (0, 1) => { mut_node!(t, NSSPELL::Alpha, idx, |node| { let n = f(rd_0(node, 0)); wr_0(node, &n) });  } (0, 2) => { mut_node!(t, NSSPELL::Alpha, idx, y, { let n = f(rd_0(y, 0)); wr_0(y, &n) });  } (1, 0) => { mut_node!(t, NSSPELL::BetaNode, idx, move |x| { let n = f(rd_1(x, 1)); wr_1(x, &n) });  } (1, 1) => { mut_node!(t, NSSPELL::BetaNode, idx, |node| { let n = f(rd_1(node, 1)); wr_1(node, &n) });  } (1, 2) => { mut_node!(t, NSSPELL::BetaNode, idx, y, { let n = f(rd_1(y, 1)); wr_1(y, &n) });  } (2, 0) => { mut_node!(t, NSSPELL::C, idx, move |x| { let n = f(rd_2(x, 2)); wr_2(x, &n) });  } (2, 1) => { mut_node!(t, NSSPELL::C, idx, |node| { let n = f(rd_2(node, 2)); wr_2(node, &n) });  } (2, 2) => { mut_node!(t, NSSPELL::C, idx, y, { let n = f(rd_2(y, 2)); wr_2(y, &n) });  } (3, 0) => { mut_node!(t, NSSPELL::DeltaX, idx, move |x| { let n = f(rd_3(x, 3)); wr_3(x, &n) });  } (3, 1) => { mut_node!(t, NSSPELL::DeltaX, idx, |node| { let n = f(rd_3(node, 3)); wr_3(node, &n) });  } (3, 2) => { mut_node!(t, NSSPELL::DeltaX, idx, y, { let n = f(rd_3(y, 3)); wr_3(y, &n) });  } (4, 0) => { mut_node!(t, NSSPELL::Epsilon, idx, move |x| { let n = f(rd_4(x, 4)); wr_4(x, &n) });  } (4, 1) => { mut_node!(t, NSSPELL::Epsilon, idx, |node| { let n = f(rd_4(node, 4)); wr_4(node, &n) });  } (4, 2) => { mut_node!(t, NSSPELL::Epsilon, idx, y, { let n = f(rd_4(y, 4)); wr_4(y, &n) });  } (5, 0) => { mut_node!(t, NSSPELL::LongVariantName, idx, move |x| { let n = f(rd_5(x, 5)); wr_5(x, &n) });  } (5, 1) => { mut_node!(t, NSSPELL::LongVariantName, idx, |node| { let n = f(rd_5(node, 5)); wr_5(node, &n) });  } (5, 2) => { mut_node!(t, NSSPELL::LongVariantName, idx, y, { let n = f(rd_5(y, 5)); wr_5(y, &n) });  } (6, 0) => { mut_node!(t, NSSPELL::Fz, idx, move |x| { let n = f(rd_6(x, 6)); wr_6(x, &n) });  } (6, 1) => { mut_node!(t, NSSPELL::Fz, idx, |node| { let n = f(rd_6(node, 6)); wr_6(node, &n) });  } (6, 2) => { mut_node!(t, NSSPELL::Fz, idx, y, { let n = f(rd_6(y, 6)); wr_6(y, &n) });  } (7, 0) => { mut_node!(t, NSSPELL::GammaRay, idx, move |x| { let n = f(rd_7(x, 7)); wr_7(x, &n) });  } (7, 1) => { mut_node!(t, NSSPELL::GammaRay, idx, |node| { let n = f(rd_7(node, 7)); wr_7(node, &n) });  } (7, 2) => { mut_node!(t, NSSPELL::GammaRay, idx, y, { let n = f(rd_7(y, 7)); wr_7(y, &n) });  } _ => unreachable!() } }
  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form % 3) { (0, 0) => { update_node!(t, NSSPELL::Alpha, idx, move |x| { let n = f(rd_0(&x, 0)); mk_0(&n) });  } (0, 1) => { update_node!(t, NSSPELL::Alpha, idx, |node| { let n = f(rd_0(&node, 0)); mk_0(&n) });  } (0, 2) => { update_node!(t, NSSPELL::Alpha, idx, y, { let n = f(rd_0(&y, 0)); mk_0(&n) });  } (1, 0) => { update_node!(t, NSSPELL::BetaNode, idx, move |x| { let n = f(rd_1(&x, 1)); mk_1(&n) });  } (1, 1) => { update_node!(t, NSSPELL::BetaNode, idx, |node| { let n = f(rd_1(&node, 1)); mk_1(&n) });  } (1, 2) => { update_node!(t, NSSPELL::BetaNode, idx, y, { let n = f(rd_1(&y, 1)); mk_1(&n) });  } (2, 0) => { update_node!(t, NSSPELL::C, idx, move |x| { let n = f(rd_2(&x, 2)); mk_2(&n) });  } (2, 1) => { update_node!(t, NSSPELL::C, idx, |node| { let n = f(rd_2(&node, 2)); mk_2(&n) });  } (2, 2) => { update_node!(t, NSSPELL::C, idx, y, { let n = f(rd_2(&y, 2)); mk_2(&n) });  } (3, 0) => { update_node!(t, NSSPELL::DeltaX, idx, move |x| { let n = f(rd_3(&x, 3)); mk_3(&n) });  } (3, 1) => { update_node!(t, NSSPELL::DeltaX, idx, |node| { let n = f(rd_3(&node, 3)); mk_3(&n) });  } (3, 2) => { update_node!(t, NSSPELL::DeltaX, idx, y, { let n = f(rd_3(&y, 3)); mk_3(&n) });  } (4, 0) => { update_node!(t, NSSPELL::Epsilon, idx, move |x| { let n = f(rd_4(&x, 4)); mk_4(&n) });  } (4, 1) => { update_node!(t, NSSPELL::Epsilon, idx, |node| { let n = f(rd_4(&node, 4)); mk_4(&n) });  } (4, 2) => { update_node!(t, NSSPELL::Epsilon, idx, y, { let n = f(rd_4(&y, 4)); mk_4(&n) });  } (5, 0) => { update_node!(t, NSSPELL::LongVariantName, idx, move |x| { let n = f(rd_5(&x, 5)); mk_5(&n) });  } (5, 1) => { update_node!(t, NSSPELL::LongVariantName, idx, |node| { let n = f(rd_5(&node, 5)); mk_5(&n) });  } (5, 2) => { update_node!(t, NSSPELL::LongVariantName, idx, y, { let n = f(rd_5(&y, 5)); mk_5(&n) });  } (6, 0) => { update_node!(t, NSSPELL::Fz, idx, move |x| { let n = f(rd_6(&x, 6)); mk_6(&n) });  } (6, 1) => { update_node!(t, NSSPELL::Fz, idx, |node| { let n = f(rd_6(&node, 6)); mk_6(&n) });  } (6, 2) => { update_node!(t, NSSPELL::Fz, idx, y, { let n = f(rd_6(&y, 6)); mk_6(&n) });  } (7, 0) => { update_node!(t, NSSPELL::GammaRay, idx, move |x| { let n = f(rd_7(&x, 7)); mk_7(&n) });  } (7, 1) => { update_node!(t, NSSPELL::GammaRay, idx, |node| { let n = f(rd_7(&node, 7)); mk_7(&n) });  } (7, 2) => { update_node!(t, NSSPELL::GammaRay, idx, y, { let n = f(rd_7(&y, 7)); mk_7(&n) });  } _ => unreachable!() } }
  fn static_refl(var: usize) -> StaticRefl { match var { 0 => static_refl::<SSPELLAlphaNode>(), 1 => static_refl::<SSPELLBetaNodeNode>(), 2 => static_refl::<SSPELLCNode>(), 3 => static_refl::<SSPELLDeltaXNode>(), 4 => static_refl::<SSPELLEpsilonNode>(), 5 => static_refl::<SSPELLLongVariantNameNode>(), 6 => static_refl::<SSPELLFzNode>(), 7 => static_refl::<SSPELLGammaRayNode>(), _ => unreachable!() } }
  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { NSSPELL::Alpha(x) => typed_refl(x, name), NSSPELL::BetaNode(x) => typed_refl(x, name), NSSPELL::C(x) => typed_refl(x, name), NSSPELL::DeltaX(x) => typed_refl(x, name), NSSPELL::Epsilon(x) => typed_refl(x, name), NSSPELL::LongVariantName(x) => typed_refl(x, name), NSSPELL::Fz(x) => typed_refl(x, name), NSSPELL::GammaRay(x) => typed_refl(x, name), } }
  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { NSSPELL::Alpha(x) => mirror_refl(x), NSSPELL::BetaNode(x) => mirror_refl(x), NSSPELL::C(x) => mirror_refl(x), NSSPELL::DeltaX(x) => mirror_refl(x), NSSPELL::Epsilon(x) => mirror_refl(x), NSSPELL::LongVariantName(x) => mirror_refl(x), NSSPELL::Fz(x) => mirror_refl(x), NSSPELL::GammaRay(x) => mirror_refl(x), } }
}
}

macro_rules! for_all_schemas { ($m:ident) => { $m! { s00p, s01t, s02b, s03g, s03x, s04m, s05p, s06b, s07t, s08g, s08x, s09b, s10m, s11g, s11x, s12p, s13t, s14b, s15g, s15x, s16m, s17p, s18b, s19t, s20g, s20x, s21b, s22m, s23g, s23x, s24g, s24x, s25g, s25x, s26g, s26x, s27g, s27x, sspell } } }
pub static TWINS: &[(&str, &str)] = &[("s03g", "s03x"), ("s08g", "s08x"), ("s11g", "s11x"), ("s15g", "s15x"), ("s20g", "s20x"), ("s23g", "s23x"), ("s24g", "s24x"), ("s25g", "s25x"), ("s26g", "s26x"), ("s27g", "s27x")];
