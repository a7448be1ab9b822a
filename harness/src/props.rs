//! The properties: what is generated for each, which failures concern it, what counts as non-trivial.
use crate::exec::*;
use crate::gen::*;
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
  /// the library against the model
  Model,
  /// a hand-expanded schema and the grouped one it came from run the same operations
  Twin,
  /// another build of the library (which one) runs the same operations
  Peer(&'static str),
  /// nodes and their declarations (no operations)
  Reflect,
  /// the node arena used on its own
  Arena,
  /// the links of single nodes
  Edit,
}
pub struct Spec {
  pub id: &'static str,
  pub mode: Mode,
  pub profile: Profile,
  pub relevant: fn(&Failure) -> bool,
  /// the operations without those the property is about: a failure that stays is not about them
  pub ablate: Option<fn(&[COp]) -> Vec<COp>>,
  pub nontrivial: fn(&Feats) -> bool,
  pub rule: &'static str,
  pub cases: (usize, usize),
}

fn drop_ops(t: &[COp], f: fn(&COp) -> bool) -> Vec<COp> { t.iter().filter(|o| !f(o)).cloned().collect() }
fn no_redirect(t: &[COp]) -> Vec<COp> { drop_ops(t, |o| matches!(o, COp::Redirect { .. })) }
fn no_remove(t: &[COp]) -> Vec<COp> { drop_ops(t, |o| matches!(o, COp::Remove { .. })) }
fn no_both(t: &[COp]) -> Vec<COp> { drop_ops(t, |o| matches!(o, COp::Remove { .. } | COp::Redirect { .. })) }
fn no_switch(t: &[COp]) -> Vec<COp> { drop_ops(t, |o| matches!(o, COp::Switch { .. })) }
fn no_merge(t: &[COp]) -> Vec<COp> { drop_ops(t, |o| matches!(o, COp::Merge { .. })) }
fn no_round(t: &[COp]) -> Vec<COp> { t.iter().map(|o| match o { COp::Round { .. } => COp::NewCtx { form: 0 }, o => o.clone() }).collect() }
fn no_check(t: &[COp]) -> Vec<COp> { t.iter().map(|o| match o { COp::CommitChecked { t, g, .. } => COp::Commit { t: *t, g: *g, probe: false }, o => o.clone() }).collect() }
pub fn trans_of(o: &COp) -> Option<usize> {
  match o {
    COp::Insert { t, .. } | COp::Extend { t, .. } | COp::Alloc { t, .. } | COp::AllocUntyped { t, .. } | COp::Fill { t, .. } | COp::Change { t, .. } | COp::Redirect { t, .. } | COp::Remove { t, .. }
    | COp::Merge { t, .. } | COp::IsEmpty { t } | COp::Commit { t, .. } | COp::CommitChecked { t, .. } | COp::GiveUp { t, .. } | COp::BadFill { t, .. } | COp::BadMerge { t, .. } | COp::BadCommit { t, .. } => Some(*t),
    _ => None,
  }
}
pub fn set_trans(o: &COp, n: usize) -> COp {
  let mut o = o.clone();
  match &mut o {
    COp::Insert { t, .. } | COp::Extend { t, .. } | COp::Alloc { t, .. } | COp::AllocUntyped { t, .. } | COp::Fill { t, .. } | COp::Change { t, .. } | COp::Redirect { t, .. } | COp::Remove { t, .. }
    | COp::Merge { t, .. } | COp::IsEmpty { t } | COp::Commit { t, .. } | COp::CommitChecked { t, .. } | COp::GiveUp { t, .. } | COp::BadFill { t, .. } | COp::BadMerge { t, .. } | COp::BadCommit { t, .. } => *t = n,
    _ => {}
  }
  o
}
/// the same transactions, each built just before its own commit, the others never built
fn serial(t: &[COp]) -> Vec<COp> {
  let mut out = vec![];
  let mut opened = vec![];
  for o in t { if let COp::NewTrans { g } = o { opened.push(*g) } }
  let mut n = 0;
  for (i, o) in t.iter().enumerate() {
    match o {
      COp::Commit { t: k, .. } | COp::CommitChecked { t: k, .. } => {
        if let Some(g) = opened.get(*k) { out.push(COp::NewTrans { g: *g }) } else { continue }
        for p in &t[..i] { if trans_of(p) == Some(*k) { out.push(set_trans(p, n)) } }
        out.push(set_trans(o, n));
        n += 1;
      }
      COp::NewTrans { .. } => {}
      o => if trans_of(o).is_none() { out.push(o.clone()) },
    }
  }
  out
}

fn type_msg(f: &Failure) -> bool { f.msg.contains("type check") || f.msg.contains("LinkType") }
fn outcome(f: &Failure) -> bool { matches!(f.kind, FK::State | FK::Panic | FK::NoPanic | FK::View | FK::Index | FK::Backlinks | FK::Closure | FK::Asym) }

const FULL: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (2, K::Alloc), (1, K::AllocUntyped), (3, K::Fill), (9, K::Mutate), (6, K::Update), (4, K::Redirect), (4, K::RedirectAll), (2, K::Chain), (5, K::Remove),
  (1, K::Merge), (8, K::Commit), (1, K::NewTrans), (1, K::GiveUp), (1, K::Star), (1, K::Probe), (1, K::IsEmpty)];
const LINKY: &[(u32, K)] = &[(12, K::Insert), (1, K::Extend), (1, K::Alloc), (3, K::Fill), (12, K::Mutate), (7, K::Update), (4, K::Redirect), (4, K::RedirectAll), (1, K::Chain), (4, K::Remove), (1, K::Merge), (9, K::Commit), (1, K::NewTrans), (1, K::Star)];
const BIDI: &[(u32, K)] = &[(12, K::Insert), (1, K::Extend), (1, K::Alloc), (2, K::Fill), (12, K::Mutate), (7, K::Update), (3, K::Redirect), (3, K::RedirectAll), (1, K::Chain), (4, K::Remove), (1, K::Merge), (9, K::Commit), (1, K::NewTrans), (1, K::Star), (1, K::Switch), (3, K::Round)];
const REDIR: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (2, K::Alloc), (1, K::AllocUntyped), (2, K::Fill), (6, K::Mutate), (4, K::Update), (8, K::Redirect), (8, K::RedirectAll), (6, K::Chain), (3, K::Remove), (1, K::Merge), (9, K::Commit), (1, K::NewTrans), (1, K::Star), (2, K::BadLoop)];
const REMOVE: &[(u32, K)] = &[(13, K::Insert), (2, K::Extend), (3, K::Alloc), (2, K::AllocUntyped), (3, K::Fill), (6, K::Mutate), (4, K::Update), (2, K::Redirect), (2, K::RedirectAll), (10, K::Remove), (3, K::Merge), (9, K::Commit), (1, K::NewTrans), (1, K::Star), (1, K::Probe)];
const INDEX: &[(u32, K)] = &[(10, K::Insert), (4, K::Extend), (4, K::Alloc), (4, K::AllocUntyped), (4, K::Fill), (2, K::Mutate), (4, K::Update), (1, K::Redirect), (8, K::Remove), (3, K::Merge), (9, K::Commit), (3, K::NewTrans), (3, K::GiveUp), (2, K::NewGraph), (1, K::NewCtx), (2, K::Switch), (2, K::Round), (1, K::Star)];
const BACK: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (1, K::Alloc), (2, K::Fill), (10, K::Mutate), (7, K::Update), (4, K::Redirect), (4, K::RedirectAll), (1, K::Chain), (4, K::Remove), (2, K::Merge), (9, K::Commit), (1, K::NewTrans), (1, K::Star), (6, K::Probe), (1, K::Switch), (1, K::Round)];
const VIEWS: &[(u32, K)] = &[(12, K::Insert), (4, K::Extend), (2, K::Alloc), (2, K::Fill), (6, K::Mutate), (10, K::Update), (2, K::Redirect), (6, K::Remove), (2, K::Merge), (8, K::Commit), (1, K::NewTrans), (1, K::GiveUp), (1, K::NewGraph), (1, K::NewCtx), (2, K::Switch), (2, K::Round), (1, K::Star), (3, K::Consume)];
const ISO: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (3, K::Alloc), (2, K::AllocUntyped), (3, K::Fill), (10, K::Mutate), (7, K::Update), (4, K::Redirect), (4, K::RedirectAll), (1, K::Chain), (6, K::Remove), (5, K::Commit), (7, K::NewTrans), (3, K::GiveUp), (1, K::NewGraph), (1, K::IsEmpty)];
const ROUND: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (2, K::Alloc), (2, K::Fill), (7, K::Mutate), (5, K::Update), (4, K::Redirect), (3, K::RedirectAll), (5, K::Remove), (1, K::Merge), (9, K::Commit), (1, K::NewTrans), (1, K::Star), (7, K::Round), (1, K::Probe), (1, K::Switch)];
const SWITCH: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (2, K::Alloc), (2, K::Fill), (7, K::Mutate), (5, K::Update), (4, K::Redirect), (3, K::RedirectAll), (5, K::Remove), (1, K::Merge), (9, K::Commit), (1, K::NewTrans), (2, K::Star), (7, K::Switch), (1, K::Probe), (1, K::Round), (1, K::NewCtx), (2, K::NewGraph), (1, K::GiveUp)];
const MERGE: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (1, K::Alloc), (2, K::Fill), (7, K::Mutate), (5, K::Update), (4, K::Redirect), (4, K::RedirectAll), (1, K::Chain), (5, K::Remove), (9, K::Merge), (9, K::Commit), (4, K::NewTrans), (1, K::Star), (2, K::NewGraph), (1, K::Probe)];
const CHECK: &[(u32, K)] = &[(12, K::Insert), (1, K::Extend), (1, K::Alloc), (2, K::Fill), (10, K::Mutate), (7, K::Update), (5, K::Redirect), (5, K::RedirectAll), (1, K::Chain), (5, K::Remove), (1, K::Merge), (2, K::Commit), (9, K::CommitChecked), (1, K::NewTrans), (1, K::Star)];
const BAD: &[(u32, K)] = &[(10, K::Insert), (1, K::Extend), (3, K::Alloc), (2, K::AllocUntyped), (3, K::Fill), (5, K::Mutate), (4, K::Update), (2, K::Redirect), (2, K::RedirectAll), (5, K::Remove), (1, K::Merge), (7, K::Commit), (2, K::NewTrans), (1, K::GiveUp), (1, K::NewGraph), (1, K::Switch), (1, K::Round),
  (2, K::BadCommitCtx), (2, K::BadMerge), (2, K::BadUnfilled), (4, K::BadFill), (4, K::BadMissing), (3, K::BadLoop), (3, K::BadTyped)];
const CLOS: &[(u32, K)] = &[(10, K::Insert), (1, K::Extend), (2, K::Alloc), (1, K::AllocUntyped), (2, K::Fill), (14, K::Mutate), (14, K::Update), (3, K::Redirect), (2, K::RedirectAll), (3, K::Remove), (1, K::Merge), (7, K::Commit), (2, K::NewTrans), (2, K::GiveUp), (4, K::IsEmpty)];

const PLAIN: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (3, K::Alloc), (2, K::AllocUntyped), (4, K::Fill), (9, K::Mutate), (6, K::Update), (4, K::Redirect), (4, K::RedirectAll), (2, K::Chain), (5, K::Remove),
  (2, K::Merge), (8, K::Commit), (1, K::NewTrans), (1, K::GiveUp), (1, K::Star), (1, K::IsEmpty), (1, K::NewGraph), (1, K::Switch), (1, K::Round), (1, K::BadMerge), (1, K::BadFill), (1, K::BadMissing), (1, K::BadLoop), (1, K::BadTyped), (1, K::CommitChecked)];
const INTEG: &[(u32, K)] = &[(12, K::Insert), (2, K::Extend), (2, K::Alloc), (1, K::AllocUntyped), (2, K::Fill), (9, K::Mutate), (6, K::Update), (3, K::Redirect), (3, K::RedirectAll), (6, K::Remove), (1, K::Merge), (10, K::Commit), (2, K::NewTrans), (1, K::GiveUp), (2, K::NewGraph), (1, K::Star), (1, K::Switch), (1, K::Round), (12, K::Integrity)];

const HOLD: &[(u32, K)] = &[(12, K::Insert), (3, K::Extend), (3, K::Alloc), (2, K::AllocUntyped), (4, K::Fill), (8, K::Mutate), (10, K::Update), (2, K::Redirect), (2, K::RedirectAll), (8, K::Remove), (3, K::Merge), (8, K::Commit), (1, K::CommitChecked), (4, K::NewTrans),
  (4, K::GiveUp), (2, K::NewGraph), (1, K::NewCtx), (2, K::Switch), (2, K::Round), (1, K::Star), (2, K::Consume), (1, K::BadCommitCtx), (1, K::BadMerge), (1, K::BadUnfilled), (1, K::BadFill), (1, K::BadMissing), (1, K::BadTyped)];

fn pr(fams: &'static [(char, u32)], ops: &'static [(u32, K)]) -> Profile {
  Profile { fams, ops, len: (6, 60), flags: C_GET, external: true, retype: true, greedy: 85, reject: 25, max_trans: 3, probe: 20, commit_all: true }
}
pub fn specs() -> Vec<Spec> {
  const MIX: &[(char, u32)] = &[('p', 4), ('s', 1), ('b', 2), ('m', 2), ('t', 1), ('g', 1)];
  const PL: &[(char, u32)] = &[('p', 6), ('s', 1), ('t', 2), ('b', 1), ('m', 1)];
  const BI: &[(char, u32)] = &[('b', 5), ('g', 2), ('m', 2), ('x', 1)];
  const TY: &[(char, u32)] = &[('t', 5), ('m', 3), ('g', 2), ('x', 1)];
  vec![
    Spec { id: "C01", mode: Mode::Model, profile: pr(MIX, FULL), relevant: |f| f.kind == FK::State || f.kind == FK::Panic && (f.ctx.at_once || !f.ctx.has_pairs && !f.ctx.has_types), ablate: None,
      nontrivial: |n| n.get("commits") >= 2 && ["redirected_links", "removed_nodes", "closures", "opposite_links_added", "merged_nodes"].iter().filter(|k| n.get(k) > 0).count() >= 2,
      rule: "two or more commits succeeded, with at least two of: a link redirected, a node removed, a closure run, an opposite link added, a graph merged", cases: (4000, 60000) },
    Spec { id: "C02", mode: Mode::Model, profile: Profile { len: (6, 90), max_trans: 6, ..pr(PL, INDEX) }, relevant: |f| f.kind == FK::Index, ablate: None,
      nontrivial: |n| n.get("indices") >= 8 && n.get("removed_nodes") + n.get("given_up") + n.get("round_trips") + n.get("switches") > 0,
      rule: "eight or more indices were handed out, and nodes were removed, transactions given up, or graphs switched or restored in between", cases: (2500, 40000) },
    Spec { id: "C03", mode: Mode::Model, profile: pr(PL, REDIR), relevant: |f| (matches!(f.kind, FK::State | FK::Backlinks) && f.ctx.redirects) || f.kind == FK::Panic && f.ctx.redirects && !f.ctx.has_pairs && !f.ctx.has_types || f.kind == FK::NoPanic && f.why.contains(&Why::Loop), ablate: Some(no_redirect),
      nontrivial: |n| n.get("redirected_links") > 0 || n.get("reject_Loop") > 0, rule: "at least one existing link was redirected by a commit, or a cyclic redirection was rejected", cases: (4000, 60000) },
    Spec { id: "C04", mode: Mode::Model, profile: Profile { probe: 40, flags: C_GET | C_VIEWS, ..pr(PL, REMOVE) }, relevant: |f| matches!(f.kind, FK::State | FK::Panic | FK::View) && f.ctx.removes, ablate: Some(no_remove),
      nontrivial: |n| n.get("links_erased_by_removal") + n.get("links_to_cancelled_nodes") > 0, rule: "at least one link to a removed node had to be cleared", cases: (2500, 40000) },
    Spec { id: "C05", mode: Mode::Model, profile: Profile { probe: 70, flags: C_GET | C_BACK, ..pr(MIX, BACK) }, relevant: |f| f.kind == FK::Backlinks || matches!(f.kind, FK::State | FK::Panic) && (f.ctx.redirects || f.ctx.removes), ablate: Some(no_both),
      nontrivial: |n| n.get("probe_commits") > 0 && n.get("redirected_links") + n.get("links_erased_by_removal") > 0, rule: "after the history, nodes were redirected or removed one at a time and that moved or cleared at least one link; the built-in back-link check ran after every commit", cases: (2500, 40000) },
    Spec { id: "C06", mode: Mode::Model, profile: Profile { external: false, retype: false, greedy: 92, flags: C_CUT, ..pr(BI, BIDI) }, relevant: |f| f.kind == FK::Asym, ablate: None,
      nontrivial: |n| n.get("opposite_links_added") + n.get("opposite_links_removed") > 0, rule: "at least one opposite link had to be added or removed by a commit", cases: (4000, 60000) },
    Spec { id: "C07", mode: Mode::Model, profile: Profile { external: false, retype: false, greedy: 88, reject: 60, ..pr(BI, BIDI) },
      relevant: |f| f.kind == FK::State && f.ctx.has_pairs && f.diff.pair && !f.diff.nodeset && !f.diff.data && !f.diff.nonpair || f.kind == FK::NoPanic && f.why.iter().any(|w| w.bidi()) || f.kind == FK::Panic && f.ctx.has_pairs && f.ctx.commit && !type_msg(f), ablate: None,
      nontrivial: |n| n.get("opposite_links_added") + n.get("opposite_links_removed") + n.get("opposite_links_kept") + n.get("reject_BidiOccupied") + n.get("reject_BidiChoice") > 0, rule: "an opposite link had to be added, removed or kept, or a commit was rejected because it could not be placed", cases: (4000, 60000) },
    Spec { id: "C08", mode: Mode::Model, profile: Profile { external: false, retype: false, greedy: 80, reject: 90, ..pr(TY, LINKY) }, relevant: |f| f.kind == FK::NoPanic && f.why.contains(&Why::LinkType) || f.kind == FK::Panic && f.ctx.has_types && type_msg(f), ablate: None,
      nontrivial: |n| n.get("annotated_links_added") + n.get("reject_LinkType") > 0, rule: "a commit added a link with a type annotation, well-typed (accepted) or ill-typed (rejected)", cases: (4000, 60000) },
    Spec { id: "C09", mode: Mode::Model, profile: Profile { flags: C_GET | C_VIEWS, ..pr(MIX, VIEWS) }, relevant: |f| f.kind == FK::View, ablate: None,
      nontrivial: |n| n.get("max_nodes") >= 3 && n.get("removed_nodes") + n.get("round_trips") + n.get("switches") + n.get("merged_nodes") + n.get("closures") > 0, rule: "a graph of three or more nodes was viewed after removals, type-changing closures, merging, switching or restoring", cases: (1500, 24000) },
    Spec { id: "C10", mode: Mode::Model, profile: Profile { flags: C_GET | C_ISO, external: false, reject: 0, max_trans: 5, len: (10, 80), ..pr(MIX, ISO) }, relevant: |f| f.kind == FK::Isolation || outcome(f), ablate: Some(serial),
      nontrivial: |n| n.get("interleaved") > 0 && n.get("commits") + n.get("given_up") >= 2, rule: "operations of two or more transactions were interleaved, and at least two were committed or given up; all graphs are compared after every recorded operation", cases: (1200, 20000) },
    Spec { id: "C11", mode: Mode::Reflect, profile: pr(&[('p', 1), ('b', 1), ('t', 1), ('g', 1), ('m', 1), ('x', 1)], FULL), relevant: |f| f.kind == FK::Refl, ablate: None, nontrivial: |_| true,
      rule: "the node has at least one link field holding a link, or a data field", cases: (4000, 60000) },
    Spec { id: "C12", mode: Mode::Model, profile: Profile { flags: C_GET | C_BACK | C_VIEWS, probe: 40, external: false, ..pr(MIX, ROUND) }, relevant: |f| f.kind == FK::Round || outcome(f), ablate: Some(no_round),
      nontrivial: |n| n.get("round_trip_links") > 0, rule: "a graph with at least one link was serialized and restored", cases: (1500, 24000) },
    Spec { id: "C13", mode: Mode::Model, profile: Profile { flags: C_GET | C_BACK | C_VIEWS, probe: 40, external: false, ..pr(MIX, SWITCH) }, relevant: |f| f.kind == FK::Switch || outcome(f), ablate: Some(no_switch),
      nontrivial: |n| n.get("switched_links") > 0, rule: "a graph with at least one link was switched to another context (or its own)", cases: (1500, 24000) },
    Spec { id: "C14", mode: Mode::Model, profile: Profile { flags: C_GET | C_BACK, max_trans: 5, probe: 40, len: (10, 80), ..pr(MIX, MERGE) }, relevant: outcome, ablate: Some(no_merge),
      nontrivial: |n| n.get("merged_nodes") > 0, rule: "a graph with at least one node was merged and committed", cases: (2500, 40000) },
    Spec { id: "C15", mode: Mode::Model, profile: Profile { external: false, retype: false, probe: 0, reject: 0, ..pr(&[('p', 4), ('b', 3), ('m', 2), ('g', 1)], CHECK) }, relevant: |f| f.kind == FK::Check || matches!(f.kind, FK::State | FK::Panic) && f.ctx.commit, ablate: Some(no_check),
      nontrivial: |n| n.get("check_calls") + n.get("check_failed") > 0, rule: "a checked commit called at least one user check", cases: (4000, 60000) },
    Spec { id: "C16", mode: Mode::Model, profile: Profile { external: false, retype: false, reject: 60, greedy: 90, ..pr(&[('p', 5), ('b', 2), ('t', 1), ('m', 2)], BAD) }, relevant: |f| f.kind == FK::RejectChanged || f.kind == FK::NoPanic && f.why.iter().any(|w| w.malformed()), ablate: None,
      nontrivial: |n| n.n.keys().any(|k| k.starts_with("reject_") && !k.contains("Bidi") && !k.contains("LinkType")), rule: "at least one malformed call or transaction was made (and rejected)", cases: (4000, 60000) },
    Spec { id: "C17", mode: Mode::Peer("without the debug feature"), profile: Profile { external: false, reject: 0, ..pr(MIX, FULL) }, relevant: |f| f.kind == FK::Peer, ablate: None,
      nontrivial: |n| n.get("commits") > 0 && n.get("redirected_links") + n.get("links_erased_by_removal") + n.get("opposite_links_added") + n.get("opposite_links_removed") + n.get("closures") > 0, rule: "a commit redirected or cleared links, maintained opposite links or ran closures", cases: (800, 12000) },
    Spec { id: "C24", mode: Mode::Peer("without debug assertions"), profile: Profile { flags: C_GET, external: false, reject: 50, ..pr(&[('p', 3), ('s', 1), ('b', 4), ('m', 2), ('t', 1), ('g', 1)], PLAIN) }, relevant: |f| f.kind == FK::Peer, ablate: None,
      nontrivial: |n| n.get("commits") > 0 && n.get("redirected_links") + n.get("links_erased_by_removal") + n.get("opposite_links_added") + n.get("opposite_links_removed") + n.get("closures") > 0, rule: "a commit redirected or cleared links, maintained opposite links or ran closures", cases: (800, 12000) },
    Spec { id: "C18", mode: Mode::Twin, profile: Profile { external: false, retype: false, reject: 60, ..pr(&[('x', 1)], LINKY) }, relevant: |f| f.kind == FK::Twin, ablate: None,
      nontrivial: |n| ["opposite_links_added", "opposite_links_removed", "annotated_links_added", "reject_BidiOccupied", "reject_BidiChoice", "reject_LinkType"].iter().any(|k| n.get(k) > 0), rule: "a declared pair was maintained, an annotated link was added, or a commit was rejected because of the declarations", cases: (3000, 50000) },
    Spec { id: "C19", mode: Mode::Model, profile: pr(MIX, CLOS), relevant: |f| matches!(f.kind, FK::Closure | FK::Empty), ablate: None,
      nontrivial: |n| n.get("closures") + n.get("closure_at_once") >= 2, rule: "at least two closures ran", cases: (4000, 60000) },
    Spec { id: "C25", mode: Mode::Model, profile: Profile { flags: C_GET | C_OWN, max_trans: 5, len: (10, 80), probe: 0, ..pr(MIX, HOLD) }, relevant: |f| f.kind == FK::Held, ablate: None,
      nontrivial: |n| n.get("max_nodes") >= 3 && n.get("removed_nodes") + n.get("closures") + n.get("given_up") + n.get("merged_nodes") + n.get("switches") + n.get("round_trips") + n.get("by_value_nodes") > 0, rule: "a graph held three or more nodes, and nodes were removed, replaced by closures, given up, merged, switched, restored or taken out by value; what exists is counted after every operation", cases: (3000, 50000) },
    Spec { id: "C21", mode: Mode::Model, profile: Profile { max_trans: 4, ..pr(&[('p', 7), ('s', 2), ('b', 1), ('m', 1)], INTEG) }, relevant: |f| f.kind == FK::Integrity, ablate: None,
      nontrivial: |n| n.get("integrity_open") + n.get("integrity_closed_links") > 0, rule: "the integrity check was called on a graph with a link out of it, or on one with links which all stay inside", cases: (4000, 60000) },
    Spec { id: "C22", mode: Mode::Arena, profile: pr(MIX, FULL), relevant: |f| f.kind == FK::Refl, ablate: None, nontrivial: |_| true,
      rule: "at least three nodes were stored, and some were removed, replaced, merged, rebuilt or refused", cases: (2500, 40000) },
    Spec { id: "C23", mode: Mode::Edit, profile: pr(MIX, FULL), relevant: |f| f.kind == FK::Refl, ablate: None, nontrivial: |_| true,
      rule: "at least one link was added, removed or replaced", cases: (4000, 60000) },
  ]
}
