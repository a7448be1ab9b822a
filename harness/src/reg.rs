//! Per-schema entry points, the reflection oracle and the multi-threaded index test.
use crate::core::*;
use crate::world::*;
use std::collections::BTreeSet;
use ttgraph::*;

#[derive(Clone, Copy)]
pub struct Reg {
  pub desc: &'static SchemaDesc,
  pub world: fn() -> Box<dyn World>,
  pub refl: fn(&NV) -> R<Result<(), String>>,
  pub threads: fn(u64, usize, usize) -> R<Result<usize, String>>,
  pub arena: crate::parts::PartFn,
  pub edit: crate::parts::PartFn,
}
pub fn reg_of<S: Schema>() -> Reg where Graph<S::N>: Send { Reg { desc: S::desc(), world: || Box::new(WorldImpl::<S>::new()), refl: refl::<S>, threads: threads::<S>, arena: crate::parts::arena::<S>, edit: crate::parts::edit::<S> } }
macro_rules! mk_reg { ($($s:ident),* $(,)?) => { vec![$(crate::reg::reg_of::<crate::schemas::$s::Sch>()),*] } }
pub fn registry() -> Vec<Reg> { for_all_schemas!(mk_reg) }

fn sorted(v: &[usize]) -> Vec<usize> { let mut v = v.to_vec(); v.sort(); v }

/// Everything node `v` reports about itself, against its declaration
fn refl<S: Schema>(v: &NV) -> R<Result<(), String>> {
  let d = S::desc();
  let vd = &d.variants[v.var];
  sut(|| {
    let mut e: Vec<String> = vec![];
    let mut eq = |what: String, got: String, want: String| if got != want { e.push(format!("{what}: {got}, declared {want}")) };
    let n = S::make(v);
    // the node type
    let st = S::static_refl(v.var);
    eq("link names".into(), format!("{:?}", st.link_names), format!("{:?}", vd.links.iter().map(|l| l.name).collect::<Vec<_>>()));
    eq("link kinds".into(), format!("{:?}", st.kinds), format!("{:?}", vd.links.iter().map(|l| match l.kind { Kind::D => "Point", Kind::V => "Vec", Kind::S => "Set" }).collect::<Vec<_>>()));
    eq("data names".into(), format!("{:?}", st.data_names), format!("{:?}", vd.data_order));
    eq("number of link mirrors".into(), format!("{}", st.n_mirrors), format!("{}", vd.links.len()));
    eq("groups per link, with itself".into(), format!("{:?}", st.log_counts), format!("{:?}", vd.links.iter().map(|l| 1 + l.groups.len()).collect::<Vec<_>>()));
    eq("link mirrors distinct, and source/mirror conversion inverse".into(), format!("{:?}", (st.mirrors_distinct, st.source_round_trip)), "(true, true)".into());
    // discriminants, in order
    let mut ds = vec![];
    let mut cur = Some(<<S::N as NodeEnum>::Discriminant as NodeDiscriminant>::first());
    while let Some(x) = cur { ds.push(x); if ds.len() > d.variants.len() + 2 { break } cur = x.next(); }
    eq("discriminants".into(), format!("{:?}", ds), format!("{:?}", d.variants.iter().map(|v| v.name).collect::<Vec<_>>()).replace('"', ""));
    eq("discriminant order".into(), format!("{}", ds == (0..d.variants.len()).map(|v| S::disc(v)).collect::<Vec<_>>()), "true".into());
    eq("discriminant of the node".into(), format!("{:?}", n.discriminant()), vd.name.to_string());
    // every name of the schema, and some that are not there
    let mut names: BTreeSet<&'static str> = BTreeSet::from(["uid", "no_such_name", ""]);
    for x in d.variants { names.insert(x.name); for l in x.links { names.insert(l.name); names.extend(l.groups.iter()); } for y in x.data { names.insert(y.name); } names.extend(x.phantom.iter()); }
    for (g, _) in d.groups { names.insert(g); }
    for name in names {
      let r = S::typed_refl(&n, name);
      let by_name: Vec<usize> = vd.links.iter().zip(&v.links).filter(|(l, _)| l.name == name).flat_map(|(_, x)| x.targets()).collect();
      let by_group: Vec<usize> = vd.links.iter().zip(&v.links).filter(|(l, _)| l.groups.contains(&name)).flat_map(|(_, x)| x.targets()).collect();
      // the order of a vector is part of the answer, that of a set or of a group is not
      let vec = vd.links.iter().any(|l| l.name == name && l.kind == Kind::V);
      let srt = |x: &[usize]| if vec { x.to_vec() } else { sorted(x) };
      eq(format!("links by name {name:?}"), format!("{:?}", srt(&r.by_name)), format!("{:?}", srt(&by_name)));
      eq(format!("links by group {name:?}"), format!("{:?}", sorted(&r.by_group)), format!("{:?}", sorted(&by_group)));
      let data: Vec<Option<u64>> = (0..13).map(|t| match vd.data.iter().position(|x| x.name == name) {
        Some(i) if vd.data[i].ty == t => Some(v.data[i]),
        _ => if name == "uid" && t == 12 { Some(v.uid) } else { None },
      }).collect();
      eq(format!("data by name {name:?}, per type"), format!("{:?}", r.data), format!("{:?}", data));
      if r.wrong { eq(format!("data by name {name:?} with an unrelated type"), "Some".into(), "None".into()); }
      let known = vd.links.iter().any(|l| l.name == name) || vd.groups.contains(&name) || vd.phantom.contains(&name);
      eq(format!("{name:?} is a link or link group"), format!("{}", r.known_log), format!("{known}"));
      let members: Vec<usize> = (0..vd.links.len()).filter(|i| vd.links[*i].name == name || vd.links[*i].groups.contains(&name)).collect();
      eq(format!("links in {name:?}"), format!("{:?}", r.members), format!("{:?}", members));
      let q = enum_refl(&n, name);
      eq(format!("enum: links by name {name:?}"), format!("{:?}", srt(&q.0)), format!("{:?}", srt(&by_name)));
      eq(format!("enum: links by group {name:?}"), format!("{:?}", sorted(&q.1)), format!("{:?}", sorted(&by_group)));
      eq(format!("enum: data by name {name:?}, per type"), format!("{:?}", q.2), format!("{:?}", data));
      let ing = d.groups.iter().any(|g| g.0 == name && g.1.contains(&v.var));
      eq(format!("enum: in_group({name:?})"), format!("{}", q.3), format!("{ing}"));
    }
    for (i, m) in S::mirror_refl(&n).into_iter().enumerate() {
      let want = v.links[i].targets();
      let vec = vd.links[i].kind == Kind::V;
      let srt = |x: &[usize]| if vec { x.to_vec() } else { sorted(x) };
      eq(format!("links of {}", vd.links[i].name), format!("{:?}", srt(&m.links)), format!("{:?}", srt(&want)));
      let uniq = |x: &[usize]| x.iter().copied().collect::<BTreeSet<_>>();
      eq(format!("sources of {}", vd.links[i].name), format!("{:?}", uniq(&m.sources)), format!("{:?}", uniq(&want)));
      eq(format!("{} contains its links and no other", vd.links[i].name), format!("{:?}", (m.contains_all, m.contains_other)), "(true, false)".into());
    }
    if e.is_empty() { Ok(()) } else { Err(e.join("; ")) }
  })
}

struct Rng(u64);
impl Rng { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 >> 11 } }

/// Threads share a context and hand out indices at the same time; then their graphs are merged
fn threads<S: Schema>(seed: u64, nth: usize, rounds: usize) -> R<Result<usize, String>> where Graph<S::N>: Send {
  sut(|| {
    let ctx = Context::new();
    let barrier = std::sync::Barrier::new(nth);
    let d = S::desc();
    let outs: Vec<(Graph<S::N>, Vec<(usize, u64)>, Vec<usize>)> = std::thread::scope(|sc| {
      let hs: Vec<_> = (0..nth).map(|k| {
        let (ctx, barrier) = (ctx.clone(), &barrier);
        sc.spawn(move || {
          let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(k as u64 * 7919 + 1) | 1);
          let mut g = Graph::<S::N>::new(&ctx);
          let (mut kept, mut gone) = (vec![], vec![]);
          let mut uid = (k as u64 + 1) << 40;
          barrier.wait();
          for _ in 0..rounds {
            let mut t = Transaction::new(&ctx);
            let (mut here, mut waste) = (vec![], vec![]);
            let n = 1 + r.n() % 40;
            let kind = r.n() % 4;
            for _ in 0..n {
              uid += 1;
              let v = NV::blank(d, (r.n() as usize) % d.variants.len(), uid);
              match kind {
                0 => here.push((t.insert(S::make(&v)).0, uid)),
                1 => { let i = t.alloc(S::disc(v.var)); t.fill_back(i, S::make(&v)); here.push((i.0, uid)) }
                2 => waste.push(t.alloc_untyped().0),
                _ => { let i = t.insert(S::make(&v)); t.remove(i); waste.push(i.0) }
              }
            }
            gone.extend(waste);
            if kind == 2 || r.n() % 5 == 0 { t.give_up(); gone.extend(here.iter().map(|x| x.0)); } else { g.commit(t); kept.extend(here); }
          }
          (g, kept, gone)
        })
      }).collect();
      hs.into_iter().map(|h| h.join().map_err(|_| ()).expect("a worker thread panicked")).collect()
    });
    let mut seen = BTreeSet::new();
    let mut total = 0;
    let mut want = vec![];
    for (_, kept, gone) in &outs {
      for i in kept.iter().map(|x| x.0).chain(gone.iter().copied()) {
        total += 1;
        if i == 0 { return Err("a thread was handed the empty index".to_string()) }
        if !seen.insert(i) { return Err(format!("index {i} was handed out twice by threads sharing a context")) }
      }
      want.extend(kept.iter().copied());
    }
    let mut it = outs.into_iter();
    let mut g = it.next().unwrap().0;
    let mut t = Transaction::new(&ctx);
    let fresh = t.insert(S::make(&NV::blank(d, 0, 7))).0;
    if !seen.insert(fresh) { return Err(format!("index {fresh} was handed out again after the threads ended")) }
    for (h, _, _) in it { t.merge(h); }
    g.commit(t);
    want.push((fresh, 7));
    if g.len() != want.len() { return Err(format!("the graphs of all threads together have {} nodes, merged {}", want.len(), g.len())) }
    for (i, u) in want { match g.get(NodeIndex(i)) { Some(n) if S::read(n).uid == u => {} x => return Err(format!("index {i} was given to node #{u} and denotes {x:?} after merging")) } }
    Ok(total)
  })
}
