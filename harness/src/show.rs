//! Human-readable traces
use crate::core::*;
use crate::exec::*;
use crate::model::*;

fn lv(l: &LV) -> String {
  let j = |v: Vec<usize>| v.iter().map(|x| if *x == 0 { "-".to_string() } else { format!("#{x}") }).collect::<Vec<_>>().join(",");
  match l { LV::D(x) => j(vec![*x]), LV::V(v) => format!("[{}]", j(v.clone())), LV::S(s) => format!("{{{}}}", j(s.iter().copied().collect())) }
}
pub fn nv(d: &SchemaDesc, v: &NV) -> String {
  let vd = &d.variants[v.var];
  let mut p: Vec<String> = vd.links.iter().zip(&v.links).map(|(l, x)| format!("{}:{}", l.name, lv(x))).collect();
  p.extend(vd.data.iter().zip(&v.data).map(|(l, x)| format!("{}={}", l.name, x)));
  format!("#{} {}({})", v.uid, vd.name, p.join(" "))
}
fn eff(d: &SchemaDesc, e: &Eff) -> String { match e { Eff::Replace(v) => format!("replace by {}", nv(d, v)), e => format!("{e:?}") } }
pub fn op(d: &SchemaDesc, o: &COp) -> String {
  match o {
    COp::Insert { t, v } => format!("t{t}.insert {}", nv(d, v)),
    COp::Extend { t, v } => format!("t{t}.extend [{}]", v.iter().map(|v| nv(d, v)).collect::<Vec<_>>().join("; ")),
    COp::Alloc { t, u, var, .. } => format!("t{t}.alloc #{u} {}", d.variants[*var].name),
    COp::AllocUntyped { t, u } => format!("t{t}.alloc_untyped #{u}"),
    COp::Fill { t, v, untyped } => format!("t{t}.fill_back{} {}", if *untyped { "_untyped" } else { "" }, nv(d, v)),
    COp::Change { t, u, upd, guard, eff: e, .. } => format!("t{t}.{}{} #{u} {{{}}}", if *upd { "update" } else { "mutate" }, guard.map_or(String::new(), |g| format!("<{}>", d.variants[g].name)), e.iter().map(|e| eff(d, e)).collect::<Vec<_>>().join("; ")),
    COp::Redirect { t, old, new, all } => format!("t{t}.redirect{}_links #{old} -> #{new}", if *all { "_all" } else { "" }),
    COp::Remove { t, u } => format!("t{t}.remove #{u}"),
    COp::Merge { t, g } => format!("t{t}.merge g{g}"),
    COp::Commit { t, g, .. } => format!("g{g}.commit t{t}"),
    COp::CommitChecked { t, g, spec } => format!("g{g}.commit_checked t{t} with {:?}", spec.checks),
    COp::NewTrans { g } => format!("new transaction for g{g}"),
    COp::NewGraph { c } => format!("new graph in c{c}"),
    COp::Switch { g, c } => format!("g{g}.switch_context c{c}"),
    COp::Round { g, cut: Some((u, f, y)), .. } => format!("g{g} serialized and restored, without the link number {f} of #{u} to #{y} in the data"),
    COp::Round { g, form, .. } => format!("g{g} serialized and restored (form {})", form % 8),
    o => format!("{o:?}"),
  }
}
pub fn trace(d: &SchemaDesc, t: &[COp]) -> Vec<String> { t.iter().map(|o| op(d, o)).collect() }
pub fn schema(d: &SchemaDesc) -> Vec<String> {
  let mut o: Vec<String> = d.variants.iter().map(|v| format!("{}{{{}}}", v.name, v.links.iter().map(|l| format!("{}:{:?}", l.name, l.kind)).collect::<Vec<_>>().join(", "))).collect();
  let ln = |l: &LinkId| format!("{}.{}", d.variants[l.0].name, d.variants[l.0].links[l.1].name);
  for (a, b) in d.pairs { if a <= b { o.push(format!("{} <-> {}", ln(a), ln(b))) } }
  for (l, a) in d.types { o.push(format!("{}: {{{}}}", ln(l), a.iter().map(|x| d.variants[*x].name).collect::<Vec<_>>().join(", "))) }
  o
}
