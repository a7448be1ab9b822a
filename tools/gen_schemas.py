#!/usr/bin/env python3
"""Emits Rust modules with random node declarations for the harness.

usage: gen_schemas.py SEED COUNT OUT.rs
Every schema carries its own meaning (fully expanded pairs and type annotations,
computed here, independently of the library's macros) as a static SchemaDesc.
Families: p = plain, b = bidirectional, t = link types, g = grouped declarations (each
with a twin x in which every group is written out by hand), m = everything.
"""
import random, sys, re

VN = ["Alpha", "BetaNode", "C", "DeltaX", "Epsilon", "LongVariantName", "Fz", "GammaRay"]
LN = ["next", "prev_item", "tos", "kids", "x1", "ref_b", "owner_of", "a", "left_most_link", "uses", "peer", "zz", "in_edges"]
# names whose camel or snake case form is a keyword, used by some schemas instead
ODD = {"Alpha": "If", "DeltaX": "Super", "Fz": "Loop", "GammaRay": "Type", "Epsilon": "Vec", "tos": "self_", "kids": "in_", "uses": "type_", "peer": "node_index"}
DN = ["value", "name", "meta_data", "opt", "pair", "arr3", "table", "weight"]
GN = ["grp", "grp_b", "linkset", "outs"]
TN = ["tg_one", "tgtwo", "tg_all", "tg_x"]

DIRECT = ["NodeIndex", "ttgraph::NodeIndex"]
VEC = ["Vec<NodeIndex>", "std::vec::Vec<NodeIndex>", "Vec<ttgraph::NodeIndex>", "vec::Vec<NodeIndex>",
       "Vec::<NodeIndex>", "::std::vec::Vec<NodeIndex>"]
SETS = ["HashSet<NodeIndex>", "std::collections::HashSet<NodeIndex>", "::std::collections::HashSet<ttgraph::NodeIndex>",
        "collections::HashSet<NodeIndex>", "HashSet::<NodeIndex>",
        "BTreeSet<NodeIndex>", "std::collections::BTreeSet<ttgraph::NodeIndex>", "::std::collections::BTreeSet<NodeIndex>",
        "collections::BTreeSet<NodeIndex>",
        "OrderSet<NodeIndex>", "::ordermap::OrderSet<NodeIndex>", "ordermap::OrderSet<NodeIndex>", "::ordermap::set::OrderSet<NodeIndex>",
        "ordermap::set::OrderSet<NodeIndex>",
        "IndexSet<NodeIndex>", "::indexmap::IndexSet<NodeIndex>", "indexmap::IndexSet<ttgraph::NodeIndex>", "indexmap::set::IndexSet<NodeIndex>",
        "::indexmap::set::IndexSet<NodeIndex>"]
# every spelling the macro accepts, for the spelling schema
ALL = []
for d in DIRECT:
    ALL.append(d)
    for t in ["::std::vec::Vec", "std::vec::Vec", "vec::Vec", "Vec",
              "::std::collections::HashSet", "std::collections::HashSet", "collections::HashSet", "HashSet",
              "::std::collections::BTreeSet", "std::collections::BTreeSet", "collections::BTreeSet", "BTreeSet",
              "::ordermap::set::OrderSet", "::ordermap::OrderSet", "ordermap::set::OrderSet", "ordermap::OrderSet", "map::OrderSet",
              "tgraph::ordermap::OrderSet", "OrderSet",
              "::indexmap::set::IndexSet", "::indexmap::IndexSet", "indexmap::set::IndexSet", "indexmap::IndexSet", "map::IndexSet", "IndexSet"]:
        ALL.append("%s<%s>" % (t, d))
ALL += ["Vec::<NodeIndex>", "HashSet::<ttgraph::NodeIndex>", "BTreeSet::<NodeIndex>", "std::vec::Vec::<NodeIndex>", "OrderSet::<NodeIndex>"]

DATA = ["u64", "String", "Option<u32>", "(u8, u16)", "[u8; 3]", "Vec<u32>", "Box<i64>", "BTreeMap<u32, String>",
        "Option<NodeIndex>", "Vec<usize>", "HashSet<usize>", "(NodeIndex, u8)"]


def camel(s):
    return "".join(w[:1].upper() + w[1:].lower() for w in s.split("_"))


def spell_path(s, i):
    """how the type of a variant is written: by its name only, or by one of the paths to it"""
    n = int(re.sub(r"\D", "", s.name) or 0)
    if n % 5 != 3: return ""
    return ["self::", "crate::schemas::%s::" % s.name, "", "super::%s::" % s.name][(i + n) % 4]


class Struct:
    pass


def kind_of(ty):
    if ty in DIRECT: return "D"
    if re.match(r"(::)?(std::)?(vec::)?Vec\b", ty): return "V"
    return "S"


def gen(rng, fam, name, nvar=None):
    s = Struct(); s.name = name; s.fam = fam
    nvar = nvar or rng.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])
    if fam in "gm": nvar = max(nvar, 2)
    s.vars = rng.sample(VN, nvar)
    # structs; sometimes two variants share one struct
    s.var_struct = []
    s.structs = []
    for i, v in enumerate(s.vars):
        if i and fam in "pm" and rng.random() < 0.12:
            s.var_struct.append(rng.randrange(len(s.structs)))
            continue
        st = Struct(); st.name = "%s%sNode" % (name.upper(), v)
        nl = rng.choice([0, 1, 1, 2, 2, 3, 4, 5]) if fam == "p" else rng.choice([1, 1, 2, 2, 3, 4])
        st.links = []  # (name, type, [groups])
        for ln in rng.sample(LN, nl):
            r = rng.random()
            if fam == "p":
                ty = rng.choice(DIRECT) if r < .3 else rng.choice(VEC) if r < .6 else rng.choice(SETS)
            elif fam == "t":
                ty = rng.choice(DIRECT) if r < .4 else rng.choice(VEC) if r < .65 else rng.choice(SETS)
            else:
                ty = rng.choice(DIRECT) if r < .45 else rng.choice(VEC) if r < .52 else rng.choice(SETS)
            st.links.append([ln, ty, []])
        st.data = [(dn, rng.choice(DATA)) for dn in rng.sample(DN, rng.choice([0, 1, 1, 2, 3]))]
        st.phantom = []
        s.var_struct.append(len(s.structs)); s.structs.append(st)
    # link groups
    pg = {"p": .5, "b": .25, "t": .5, "g": 1.0, "m": .7}[fam]
    s.lgroups = []
    if rng.random() < pg:
        s.lgroups = rng.sample(GN, rng.choice([1, 2, 3]))
        for st in s.structs:
            for l in st.links:
                for g in s.lgroups:
                    if rng.random() < .45: l[2].append(g)
            for g in s.lgroups:
                if not any(g in l[2] for l in st.links) and rng.random() < (.8 if fam in "gm" else .4):
                    st.phantom.append(g)
    # type groups
    s.tgroups = []
    if fam in "gm" or rng.random() < .6:
        for tn in rng.sample(TN, rng.choice([1, 2, 3])):
            s.tgroups.append((tn, rng.sample(range(nvar), rng.randint(1, nvar))))
    s.bidi_decl = []; s.type_decl = []
    if fam in "bgm": gen_bidi(rng, s)
    if fam in "tgm": gen_types(rng, s)
    finish(rng, s)
    return s


def gen_spelling(rng, name):
    """a plain schema with every accepted spelling of every kind of link"""
    s = Struct(); s.name = name; s.fam = "s"
    s.vars = ["Alpha", "BetaNode", "C", "DeltaX", "Epsilon", "LongVariantName", "Fz", "GammaRay"]
    s.var_struct = list(range(8)); s.structs = []
    tys = ALL[:]; rng.shuffle(tys)
    for i, v in enumerate(s.vars):
        st = Struct(); st.name = "%s%sNode" % (name.upper(), v)
        mine = tys[i::8]
        st.links = [[n, t, []] for n, t in zip(rng.sample(LN, len(mine)), mine)]
        for l in st.links:
            for g in GN[:2]:
                if rng.random() < .3: l[2].append(g)
        st.data = [(dn, rng.choice(DATA)) for dn in rng.sample(DN, 2)]
        st.phantom = []
        s.structs.append(st)
    s.lgroups = GN[:2]
    s.tgroups = [("tg_one", [6, 0, 3]), ("tgtwo", [7]), ("tg_all", [0, 1, 2, 3, 4, 5, 6, 7]), ("tg_x", [1, 3, 5, 7, 2])]
    s.bidi_decl = []; s.type_decl = []
    finish(rng, s)
    return s


def struct_of(s, v): return s.structs[s.var_struct[v]]


def logs(s, v):
    """link-or-group names of variant v"""
    st = struct_of(s, v)
    r = [l[0] for l in st.links]
    r += sorted({g for l in st.links for g in l[2]} | set(st.phantom))
    return r


def expand_log(s, v, log):
    """indices of the links denoted by a link or group name in variant v"""
    st = struct_of(s, v)
    return [i for i, l in enumerate(st.links) if l[0] == log or log in l[2]]


def sides(s, v_or_g):
    for tn, vs in s.tgroups:
        if tn == v_or_g: return vs
    return [s.vars.index(v_or_g)]


def side_choices(rng, s, allow_groups):
    """all (variant-or-type-group, link-or-group) that make sense"""
    r = []
    for v, vn in enumerate(s.vars):
        for lg in logs(s, v): r.append((vn, lg))
    if allow_groups:
        for tn, vs in s.tgroups:
            common = set(logs(s, vs[0]))
            for v in vs[1:]: common &= set(logs(s, v))
            for lg in sorted(common): r += [(tn, lg)] * 3
    return r


def is_group_side(s, side):
    return side[0] not in s.vars or side[1] in GN


def vecfree(s, side):
    return all(kind_of(struct_of(s, v).links[i][1]) != "V" for v in sides(s, side[0]) for i in expand_log(s, v, side[1]))


def gen_bidi(rng, s):
    ch = [c for c in side_choices(rng, s, s.fam in "gm") if vecfree(s, c)]
    if not ch: return
    gch = [c for c in ch if is_group_side(s, c)]
    n = rng.choice([1, 1, 2, 2, 3, 4])
    for k in range(n):
        pool = gch if gch and s.fam in "gm" and rng.random() < .7 else ch
        a = rng.choice(pool); b = rng.choice(ch)
        if rng.random() < .12: b = a
        if rng.random() < .5: a, b = b, a
        s.bidi_decl.append((a, b))
    if s.fam in "gm" and rng.random() < .3:  # the same pair twice
        a, b = rng.choice(s.bidi_decl)
        s.bidi_decl.append((b, a))


def gen_types(rng, s):
    ch = side_choices(rng, s, s.fam in "gm")
    # in the t family link groups may be annotated too
    rng.shuffle(ch)
    used = set()
    n = rng.choice([1, 2, 3, 4, 5])
    for c in ch:
        if len(s.type_decl) >= n: break
        keys = {(v, c[1]) for v in sides(s, c[0])}
        # mostly one annotation per link or group; sometimes several, all of which count
        if keys & used and rng.random() < .75: continue
        used |= keys
        tgt = rng.sample(range(len(s.vars)), rng.randint(1, max(1, len(s.vars) - 1)))
        tg = [s.vars[t] for t in tgt]
        if s.tgroups and rng.random() < (.6 if s.fam in "gm" else .3):
            tg[rng.randrange(len(tg))] = rng.choice(s.tgroups)[0]
        # sometimes a variant is listed twice, by itself and through a group
        out, seen, twice = [], set(), rng.random() < .2
        for t in tg:
            e = set(sides(s, t))
            if e & seen and not twice: continue
            seen |= e; out.append(t)
        s.type_decl.append((c, out))
        if rng.random() < .15 and len(s.vars) > 1:  # the same once more, with other targets: both count
            s.type_decl.append((c, rng.sample(s.vars, rng.randint(1, len(s.vars) - 1))))


def finish(rng, s):
    """expanded meaning"""
    pairs = set()
    for (v1, l1), (v2, l2) in s.bidi_decl:
        for a in sides(s, v1):
            for b in sides(s, v2):
                for i in expand_log(s, a, l1):
                    for j in expand_log(s, b, l2):
                        pairs.add(((a, i), (b, j))); pairs.add(((b, j), (a, i)))
    s.pairs = sorted(pairs)
    ann = []
    for (v1, l1), tg in s.type_decl:
        allowed = sorted({x for t in tg for x in sides(s, t)})
        for a in sides(s, v1):
            for i in expand_log(s, a, l1):
                ann.append(((a, i), allowed))
    s.ann = sorted(ann)


def twin(s, name):
    """the same meaning with every group written out by hand"""
    import copy
    t = copy.deepcopy(s); t.name = name; t.fam = "x"
    for st in t.structs: st.name = st.name.replace(s.name.upper(), name.upper(), 1)
    done = set(); t.bidi_decl = []
    for (a, i), (b, j) in s.pairs:
        if ((b, j), (a, i)) in done: continue
        done.add(((a, i), (b, j)))
        t.bidi_decl.append(((s.vars[a], struct_of(s, a).links[i][0]), (s.vars[b], struct_of(s, b).links[j][0])))
    t.type_decl = []
    per = {}
    for k, al in s.ann:
        per[k] = set(al) if k not in per else per[k] & set(al)
    for (a, i), al in sorted(per.items()):
        if not al: return None  # contradictory annotations cannot be written by hand
        t.type_decl.append(((s.vars[a], struct_of(s, a).links[i][0]), [s.vars[x] for x in sorted(al)]))
    finish(None, t)
    t.pairs = s.pairs
    return t


def emit(s, rng):
    o = []
    w = o.append
    w("pub mod %s {" % s.name)
    w("#![allow(unused_imports, dead_code, deprecated)]")
    w("use ttgraph::*; use ::ordermap; use ::ordermap::OrderSet; use ::indexmap::IndexSet; use std::collections::{self, HashSet, BTreeSet, BTreeMap}; use std::vec;")
    w("mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }")
    w("use serde::{Serialize, Deserialize}; use crate::core::*;")
    E = "N" + s.name.upper()
    for st in s.structs:
        w("#[derive(TypedNode, Serialize, Deserialize, Debug, Clone)]")
        if len(st.phantom) > 1 and rng.random() < .4:
            for g in st.phantom: w("#[phantom_group(%s)]" % g)
        elif st.phantom: w("#[phantom_group(%s)]" % ", ".join(st.phantom))
        fields = [("uid", "Tok", None)] + [(l[0], l[1], l[2]) for l in st.links] + [(d[0], d[1], None) for d in st.data]
        # interleave data and links, keeping the relative order of links and of data
        li = [f for f in fields if f[2] is not None]; di = [f for f in fields if f[2] is None]
        di_order = di[:]; rng.shuffle(di_order); st.data_order = [d[0] for d in di_order]
        mix = []
        while li or di_order:
            if li and (not di_order or rng.random() < .5): mix.append(li.pop(0))
            else: mix.append(di_order.pop(0))
        w("pub struct %s {" % st.name)
        # attributes of other macros around the ones of TypedNode
        num = int("".join(c for c in s.name if c.isdigit()) or 0)
        for j, (n, ty, g) in enumerate(mix):
            at = (num * 7 + len(st.name) * 3 + j) % 5 if num % 3 == 1 else -1
            if at == 0: w("  /// the field `%s` of #[group(nowhere)]" % n)
            if at == 1: w("  #[allow(dead_code)]")
            if at == 2 and g is not None: w("  #[cfg_attr(all(), allow(unused))]")
            if g:
                if len(g) > 1 and rng.random() < .5:
                    for x in g: w("  #[group(%s)]" % x)
                else:
                    w("  #[group(%s)]" % ", ".join(g))
            if at == 3: w("  #[allow(unused)]")
            if at == 4: w("  #[doc(hidden)]")
            w("  pub %s: %s," % (n, ty))
        w("}")
    w("node_enum! {")
    w("  #[derive(Serialize, Deserialize, Debug, Clone)]")
    w("  pub enum %s { %s }" % (E, ", ".join("%s(%s%s)" % (v, spell_path(s, i), struct_of(s, i).name) for i, v in enumerate(s.vars))))
    blocks = []
    def block(kw, items):
        """the items in one block or spread over two"""
        parts = [items]
        if len(items) > 1 and rng.random() < .4:
            k = rng.randint(1, len(items) - 1); parts = [items[:k], items[k:]]
        for p in parts:
            if p: blocks.append("  %s! { %s%s }" % (kw, ", ".join(p), "," if rng.random() < .3 else ""))
    block("group", ["%s{%s}" % (g, ", ".join(s.vars[v] for v in vs)) for g, vs in s.tgroups])
    block("bidirectional", ["%s.%s <-> %s.%s" % (a + b) for a, b in s.bidi_decl])
    block("link_type", ["%s.%s: %s" % (c[0], c[1], tg[0] if len(tg) == 1 and rng.random() < .7 else "{%s}" % ", ".join(tg)) for c, tg in s.type_decl])
    rng.shuffle(blocks)
    o += blocks
    w("}")
    # description
    w("pub static DESC: SchemaDesc = SchemaDesc { name: \"%s\", fam: '%s', variants: &[" % (s.name, s.fam))
    for i, v in enumerate(s.vars):
        st = struct_of(s, i)
        w("  VariantDesc { name: \"%s\", links: &[%s], data: &[%s], data_order: &[%s], groups: &[%s], phantom: &[%s] }," % (
            v,
            ", ".join("LinkDesc { name: \"%s\", kind: Kind::%s, groups: &[%s] }" % (l[0], kind_of(l[1]), ", ".join('"%s"' % g for g in l[2])) for l in st.links),
            ", ".join("DataDesc { name: \"%s\", ty: %d }" % (d[0], DATA.index(d[1])) for d in st.data),
            ", ".join('"%s"' % d for d in st.data_order),
            ", ".join('"%s"' % g for g in sorted({g for l in st.links for g in l[2]})),
            ", ".join('"%s"' % g for g in st.phantom)))
    w("], groups: &[%s]," % ", ".join('("%s", &[%s])' % (g, ", ".join(map(str, vs))) for g, vs in s.tgroups))
    w("  pairs: &[%s]," % ", ".join("((%d, %d), (%d, %d))" % (a + b) for a, b in s.pairs))
    w("  types: &[%s] };" % ", ".join("((%d, %d), &[%s])" % (k[0], k[1], ", ".join(map(str, al))) for k, al in s.ann))
    # glue
    for k, st in enumerate(s.structs):
        w("fn mk_%d(v: &NV) -> %s { %s { uid: Tok::mk(v.uid), %s %s } }" % (k, st.name, st.name,
            " ".join("%s: LinkF::mk(&v.links[%d])," % (l[0], i) for i, l in enumerate(st.links)),
            " ".join("%s: Dat::mk(v.data[%d])," % (d[0], i) for i, d in enumerate(st.data))))
        w("fn rd_%d(x: &%s, var: usize) -> NV { NV { var, uid: x.uid.rd(), links: vec![%s], data: vec![%s] } }" % (k, st.name,
            ", ".join("x.%s.rd()" % l[0] for l in st.links), ", ".join("x.%s.rd()" % d[0] for d in st.data)))
        w("fn wr_%d(x: &mut %s, v: &NV) { x.uid = Tok::mk(v.uid); %s %s }" % (k, st.name,
            " ".join("if x.%s.rd() != v.links[%d] { x.%s = LinkF::mk(&v.links[%d]); }" % (l[0], i, l[0], i) for i, l in enumerate(st.links)),
            " ".join("x.%s = Dat::mk(v.data[%d]);" % (d[0], i) for i, d in enumerate(st.data))))
    w("impl std::fmt::Display for %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"<{:?}>\", Sch::read(self)) } }" % E)
    w("pub struct Sch;")
    w("impl Schema for Sch {")
    w("  type N = %s;" % E)
    w("  fn desc() -> &'static SchemaDesc { &DESC }")
    vs = list(enumerate(s.vars)); K = s.var_struct
    def arms(f, tail=""):
        return " ".join(f(i, v) for i, v in vs) + tail
    w("  fn make(v: &NV) -> Self::N { match v.var { %s _ => unreachable!() } }" % arms(lambda i, v: "%d => %s::%s(mk_%d(v))," % (i, E, v, K[i])))
    w("  fn read(n: &Self::N) -> NV { match n { %s } }" % arms(lambda i, v: "%s::%s(x) => rd_%d(x, %d)," % (E, v, K[i], i)))
    w("  fn assign(n: &mut Self::N, v: &NV) { match (n, v.var) { %s (n, _) => *n = Self::make(v), } }" % arms(lambda i, v: "(%s::%s(x), %d) => wr_%d(x, v)," % (E, v, i, K[i])))
    w("  fn disc(var: usize) -> <Self::N as NodeEnum>::Discriminant { match var { %s _ => unreachable!() } }" % arms(lambda i, v: "%d => discriminant!(%s::%s)," % (i, E, v)))
    w("  fn alloc_node(t: &mut Transaction<'static, Self::N>, var: usize) -> NodeIndex { match var { %s _ => unreachable!() } }" % arms(lambda i, v: "%d => alloc_node!(t, %s::%s)," % (i, E, v)))
    w("  fn get_typed(g: &Graph<Self::N>, var: usize, idx: NodeIndex) -> Option<NV> { match var { %s _ => unreachable!() } }" % arms(lambda i, v: "%d => get_node!(g, %s::%s, idx).map(|x| rd_%d(x, %d))," % (i, E, v, K[i], i)))
    w("  fn iter_typed(g: &Graph<Self::N>, var: usize) -> Vec<(usize, NV)> { match var { %s _ => unreachable!() } }" % arms(lambda i, v: "%d => iter_nodes!(g, %s::%s).map(|(k, x)| (k.0, rd_%d(x, %d))).collect()," % (i, E, v, K[i], i)))
    # the three forms of each macro: a closure, a moving closure, the older identifier and block
    def forms(mac, mk):
        def g(i, v):
            head = "%s!(t, %s::%s, idx, " % (mac, E, v)
            return " ".join("(%d, %d) => { %s }" % (i, k, head + q + "); ") for k, q in enumerate(
                ["move |x| { %s }" % mk(i, "x"), "|node| { %s }" % mk(i, "node"), "y, { %s }" % mk(i, "y")]))
        return arms(g)
    w("  fn mut_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form %% 3) { %s _ => unreachable!() } }" % forms(
        "mut_node", lambda i, x: "let n = f(rd_%d(%s, %d)); wr_%d(%s, &n)" % (K[i], x, i, K[i], x)))
    w("  fn update_typed(t: &mut Transaction<'static, Self::N>, var: usize, idx: NodeIndex, form: usize, f: NvFn) { match (var, form %% 3) { %s _ => unreachable!() } }" % forms(
        "update_node", lambda i, x: "let n = f(rd_%d(&%s, %d)); mk_%d(&n)" % (K[i], x, i, K[i])))
    w("  fn static_refl(var: usize) -> StaticRefl { match var { %s _ => unreachable!() } }" % arms(lambda i, v: "%d => static_refl::<%s>()," % (i, struct_of(s, i).name)))
    w("  fn typed_refl(n: &Self::N, name: &'static str) -> NodeRefl { match n { %s } }" % arms(lambda i, v: "%s::%s(x) => typed_refl(x, name)," % (E, v)))
    w("  fn mirror_refl(n: &Self::N) -> Vec<MirrorRefl> { match n { %s } }" % arms(lambda i, v: "%s::%s(x) => mirror_refl(x)," % (E, v)))
    w("}")
    w("}")
    return "\n".join(o) + "\n"


def meaning(s, vl=None, vr=None, ll=None, lr=None, targets=None, bidi=None, types=None, keep=None, tv=None, tl=None, union=False):
    """what the declarations mean under a (possibly wrong) reading: each argument replaces one step of the right one"""
    ident = lambda x: x
    vl, vr, ll, lr, bidi, types, tv, tl = [x or ident for x in (vl, vr, ll, lr, bidi, types, tv, tl)]
    keep = keep or (lambda *x: True)
    targets = targets or (lambda tg: [x for t in tg for x in sides(s, t)])
    pairs, ann = set(), {}
    for (v1, l1), (v2, l2) in bidi(s.bidi_decl):
        for na, a in enumerate(vl(sides(s, v1))):
            for nb, b in enumerate(vr(sides(s, v2))):
                for ni, i in enumerate(ll(expand_log(s, a, l1))):
                    for nj, j in enumerate(lr(expand_log(s, b, l2))):
                        if keep((a, i), (b, j), (na, nb), (ni, nj)):
                            pairs.add(((a, i), (b, j))); pairs.add(((b, j), (a, i)))
    for (v1, l1), tg in types(s.type_decl):
        al = frozenset(targets(tg))
        for a in tv(sides(s, v1)):
            for i in tl(expand_log(s, a, l1)):
                ann[(a, i)] = al if (a, i) not in ann else ann[(a, i)] | al if union else ann[(a, i)] & al
    return pairs, ann


def wrong_readings(s):
    """ways to get the expansion of groups wrong, as arguments of meaning()"""
    first, last, butfirst, butlast = (lambda x: x[:1]), (lambda x: x[-1:]), (lambda x: x[1:]), (lambda x: x[:-1] if len(x) > 1 else x)
    part = {"first": first, "last": last, "all but the first": butfirst, "all but the last": butlast, "sorted first": lambda x: sorted(x)[:1]}
    r = {}
    for n, f in part.items():
        for arg in ("vl", "vr", "ll", "lr", "tv", "tl"):
            r["%s: %s" % (arg, n)] = {arg: (lambda x, f=f: f(x) if len(x) > 1 else x)}
        r["bidi: " + n] = {"bidi": f}
        r["types: " + n] = {"types": f}
        r["target entries: " + n] = {"targets": lambda tg, f=f: [x for t in (f(tg) if len(tg) > 1 else tg) for x in sides(s, t)]}
        r["target group: " + n] = {"targets": lambda tg, f=f: [x for t in tg for x in (f(sides(s, t)) if t not in s.vars and len(sides(s, t)) > 1 else sides(s, t))]}
    def replace(tg):
        out = []
        for t in tg:
            if t in s.vars: out.append(s.vars.index(t))
            else: out = list(sides(s, t))
        return out
    r["a target group replaces what came before"] = {"targets": replace}
    r["target groups dropped"] = {"targets": lambda tg: [s.vars.index(t) for t in tg if t in s.vars] or [x for t in tg for x in sides(s, t)]}
    r["targets beside groups dropped"] = {"targets": lambda tg: [x for t in tg if t not in s.vars for x in sides(s, t)] or [s.vars.index(t) for t in tg]}
    def toggle(tg):
        out = set()
        for t in tg: out ^= set(sides(s, t))
        return out
    r["targets listed twice cancel out"] = {"targets": toggle}
    def common(tg):
        out = None
        for t in tg: out = set(sides(s, t)) if out is None else out & set(sides(s, t))
        return out
    r["targets common to all entries"] = {"targets": common}
    r["annotations on one link add up"] = {"union": True}
    r["zip of types"] = {"keep": lambda x, y, n, m: n[0] == n[1]}
    r["zip of links"] = {"keep": lambda x, y, n, m: m[0] == m[1]}
    r["different types only"] = {"keep": lambda x, y, n, m: x[0] != y[0]}
    r["same type only where possible"] = {"keep": lambda x, y, n, m: x[0] == y[0] or n == (0, 0)}
    r["not with itself"] = {"keep": lambda x, y, n, m: x != y}
    r["not within a type"] = {"keep": lambda x, y, n, m: x[0] != y[0] or x == y}
    r["in order only"] = {"keep": lambda x, y, n, m: x <= y}
    r["in reverse order only"] = {"keep": lambda x, y, n, m: x >= y}
    r["one link group at most"] = {"keep": lambda x, y, n, m: 0 in m}
    r["one type group at most"] = {"keep": lambda x, y, n, m: 0 in n}
    def once(decl, key):
        seen, out = set(), []
        for d in decl:
            if key(d) not in seen: seen.add(key(d)); out.append(d)
        return out
    for n, k in (("left side", lambda d: d[0]), ("right side", lambda d: d[1]), ("left type", lambda d: d[0][0]), ("right type", lambda d: d[1][0]), ("types", lambda d: (d[0][0], d[1][0])), ("links", lambda d: (d[0][1], d[1][1])), ("left link", lambda d: d[0][1])):
        r["a second declaration with the same %s is dropped" % n] = {"bidi": lambda ds, k=k: once(ds, k)}
        r["a declaration before one with the same %s is dropped" % n] = {"bidi": lambda ds, k=k: once(ds[::-1], k)}
    for n, k in (("side", lambda d: d[0]), ("type", lambda d: d[0][0]), ("link", lambda d: d[0][1])):
        r["a second annotation with the same %s is dropped" % n] = {"types": lambda ds, k=k: once(ds, k)}
        r["an annotation before one with the same %s is dropped" % n] = {"types": lambda ds, k=k: once(ds[::-1], k)}
    grp = lambda d: d[0] not in s.vars
    r["groups on the left ignored"] = {"bidi": lambda ds: [d for d in ds if not grp(d[0])]}
    r["groups on the right ignored"] = {"bidi": lambda ds: [d for d in ds if not grp(d[1])]}
    r["annotated groups ignored"] = {"types": lambda ds: [d for d in ds if not grp(d[0])]}
    # a link in several groups only counts for the first (or last) of them
    for n, pick in (("first", 0), ("last", -1)):
        def only(l, name, pick=pick): return not (name in l[2]) or l[2][pick] == name
        wrong = set()
        for (v1, l1), (v2, l2) in s.bidi_decl:
            for v, l in ((v1, l1), (v2, l2)):
                for a in sides(s, v):
                    for i in expand_log(s, a, l):
                        if struct_of(s, a).links[i][0] != l and not only(struct_of(s, a).links[i], l): wrong.add((a, i, l))
        if wrong:
            r["links count for their %s group only" % n] = {"keep": lambda x, y, n, m, wrong=frozenset((a, i) for a, i, _ in wrong): x not in wrong and y not in wrong}
    return r


def sensitive(s):
    """the wrong readings that change what this schema means"""
    right = meaning(s)
    return {"reading %s %s" % (w, n) for n, a in wrong_readings(s).items() for w, k in (("of pairs", 0), ("of types", 1)) if meaning(s, **a)[k] != right[k]}


def features(s):
    """what is interesting about a schema: the base set is chosen to cover all of it"""
    f = set()
    kd = lambda v, i: kind_of(struct_of(s, v).links[i][1])
    def shape(side):
        vs = sides(s, side[0]); grp = side[0] not in s.vars; lg = side[1] in GN
        ns = [len(expand_log(s, v, side[1])) for v in vs]
        return "%s%s%s%s" % ("T" if grp else "v", min(len(vs), 3) if grp else "", "L" if lg else "l", "0" if 0 in ns else "2" if max(ns) > 1 else "")
    for a, b in s.bidi_decl:
        x, y = sorted([shape(a), shape(b)])
        f.add("bidi %s" % x); f.add("bidi %s" % y); f.add("bidi group both" if is_group_side(s, a) and is_group_side(s, b) else "bidi %d" % (is_group_side(s, a) + is_group_side(s, b)))
        if a == b: f.add("bidi with itself " + shape(a))
    for (a, i), (b, j) in s.pairs:
        f.add("pair %s%s%s" % (kd(a, i), kd(b, j), " same type" if a == b else ""))
        if (a, i) == (b, j): f.add("self pair " + kd(a, i))
    per = {}
    for x, y in s.pairs: per.setdefault((x, y[0]), []).append(y)
    for (x, v), ys in per.items():
        if len(ys) > 1: f.add("choice %s of %d %s" % (kd(*x), min(3, len(ys)), "".join(sorted(kd(*y) for y in ys))[:3]))
    perx = {}
    for x, y in s.pairs: perx.setdefault(x, set()).add(y[0])
    for x, vs in perx.items():
        if len(vs) > 1: f.add("pairs with several types " + kd(*x))
    if len(s.bidi_decl) != len(set(map(tuple, map(sorted, s.bidi_decl)))): f.add("declared twice")
    for c, tg in s.type_decl:
        f.add("type " + shape(c))
        gi = [k for k, t in enumerate(tg) if t not in s.vars]
        for k in gi: f.add("target group %s of %s" % ("first" if k == 0 else "later", "many" if len(tg) > 1 else "one") + (" then more" if k + 1 < len(tg) else ""))
        if len(tg) > 1: f.add("several targets")
    keyed = [(v, c[1]) for c, _ in s.type_decl for v in sides(s, c[0])]
    if len(keyed) != len(set(keyed)): f.add("one name annotated twice")
    for c, tg in s.type_decl:
        if sum(len(sides(s, t)) for t in tg) != len({x for t in tg for x in sides(s, t)}): f.add("target listed twice")
    cnt = {}
    for k, al in s.ann: cnt[k] = cnt.get(k, 0) + 1; f.add("annotated " + kd(*k))
    if any(v > 1 for v in cnt.values()): f.add("several annotations on a link")
    if any(v > 2 for v in cnt.values()): f.add("three annotations on a link")
    bp = {x for p in s.pairs for x in p}
    for k in cnt:
        if k in bp: f.add("annotated and paired " + kd(*k))
    for _, vs in s.tgroups:
        f.add("type group of %d" % min(len(vs), 4))
        if vs != sorted(vs): f.add("type group unordered")
    if len(set(s.var_struct)) < len(s.var_struct): f.add("shared struct")
    for st in s.structs:
        f.add("links %d" % min(len(st.links), 4)); f.add("phantom %d" % min(len(st.phantom), 2))
        for l in st.links:
            f.add("groups of a %s link: %d" % (kind_of(l[1]), min(len(l[2]), 3)))
    return f


EXTRA = 5


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    prefix = sys.argv[4] if len(sys.argv) > 4 else "s"
    text = ["// generated by tools/gen_schemas.py %d %d: do not edit\n" % (seed, count)]
    names, twins = [], []
    fams = "ptbgmpbtgbmg"
    covered, kept = set(), []
    plain = VN[:], LN[:]
    for k in range(count):
        rng = random.Random("%d/%d" % (seed, k))
        for l, p in zip((VN, LN), plain): l[:] = [ODD.get(x, x) if k % 5 == 2 else x for x in p]
        fam = fams[k % len(fams)]
        # of the acceptable candidates, the one which adds most features not covered yet
        best = None
        for attempt in range(400):
            s = gen(rng, fam, "%s%02d%s" % (prefix, k, fam)); t = None
            if fam in "bgm" and not s.pairs: continue
            if fam == "t" and not s.ann: continue
            if fam in "gm" and len(s.pairs) > 24: continue
            if fam == "g":
                if not any(is_group_side(s, x) for d in s.bidi_decl for x in d): continue
                t = twin(s, "%s%02dx" % (prefix, k))
                if t is None: continue
            new = {"%s %s" % (fam, x) for x in features(s)} - covered
            if best is None or len(new) > best[0]: best = (len(new), s, t, new)
            if len(new) and attempt > 40: break
            if attempt > 120: break
        if best is None: continue
        _, s, t, new = best
        covered |= new
        if fam == "g": kept.append(s)
        text.append(emit(s, rng)); names.append(s.name)
        if fam == "g":
            t.tgroups = s.tgroups
            text.append(emit(t, rng)); names.append(t.name); twins.append((s.name, t.name))
    VN[:], LN[:] = plain
    # more grouped declarations with twins: small ones, each of which some wrong reading of groups changes
    seen = {}
    def note(x):
        for r in x: seen[r] = seen.get(r, 0) + 1
    for s in kept: note(sensitive(s))
    rng = random.Random("%d/groups" % seed)
    for k in range(count, count + EXTRA):
        best = None
        for attempt in range(500):
            s = gen(rng, "g", "%s%02dg" % (prefix, k), rng.choice([2, 2, 3, 3, 4]))
            if len(s.pairs) > 16 or sum(len(st.links) for st in s.structs) > 8: continue
            new = {r for r in sensitive(s) if seen.get(r, 0) < 2}
            if len(new) <= (best[0] if best else 0): continue
            t = twin(s, "%s%02dx" % (prefix, k))
            if t is not None: best = (len(new), s, t, new)
        if best is None: continue
        _, s, t, new = best
        note(sensitive(s))
        text.append(emit(s, rng)); names.append(s.name)
        t.tgroups = s.tgroups
        text.append(emit(t, rng)); names.append(t.name); twins.append((s.name, t.name))
        if "-v" in sys.argv: print(s.name, len(new), sorted(new))
    if "-v" in sys.argv:
        every = set()
        for _ in range(3000): every |= sensitive(gen(rng, "g", "xx"))
        print("never sensitive to:", sorted(r for r in every if seen.get(r, 0) < 2))
        for x in sorted(covered): print(x)
    rng = random.Random("%d/spelling" % seed)
    s = gen_spelling(rng, "%sspell" % prefix)
    text.append(emit(s, rng)); names.append(s.name)
    text.append("macro_rules! for_all_schemas { ($m:ident) => { $m! { %s } } }" % ", ".join(names))
    text.append("pub static TWINS: &[(&str, &str)] = &[%s];" % ", ".join('("%s", "%s")' % p for p in twins))
    open(out, "w").write("\n".join(text) + "\n")


main()
