#!/usr/bin/env python3
"""Property C20: generated node declarations and uses of them. Each case is a well-formed program, which must
compile, and the same program with one fault put in, which must not. Every program is compiled on its own."""
import copy, json, os, random, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

DIRECT = ["NodeIndex", "ttgraph::NodeIndex"]
SETS = ["HashSet<NodeIndex>", "std::collections::HashSet<NodeIndex>", "::std::collections::BTreeSet<NodeIndex>", "BTreeSet<ttgraph::NodeIndex>"]
VECS = ["Vec<NodeIndex>", "std::vec::Vec<ttgraph::NodeIndex>"]
DATA = ["usize", "String", "Vec<usize>", "Option<NodeIndex>", "(usize, bool)", "HashSet<u8>", "Box<str>"]
VN = ["Alpha", "Beta", "Gamma", "Delta", "Omega", "X", "Y2", "LongName"]
FN = ["a", "b", "next", "prev_one", "x1", "items", "owner", "kids", "left", "right", "the_long_name", "z"]
GN = ["grp", "grp_two", "sides", "many"]
TG = ["All", "some_types", "Few"]


class Prog:
    """a well-formed program: node structs, the enum and its declarations, and a function using them"""

    def __init__(self, rng):
        nv = rng.choice([1, 2, 2, 3, 3, 4])
        names = rng.sample(VN, nv)
        shared = rng.random() < 0.3 and nv > 1
        self.enum = rng.choice(["Node", "Kind", "N"])
        self.structs = []          # name, attrs, fields [(name, type, kind, groups, attrs)]
        self.variants = []         # (variant, type)
        for i, v in enumerate(names):
            if shared and i == nv - 1:
                self.variants.append((v, self.structs[0]["name"]))
                continue
            fs = []
            gs = rng.sample(GN, rng.choice([0, 0, 1, 2]))
            for f in rng.sample(FN, rng.randint(0 if rng.random() < 0.2 else 1, 5)):
                k = rng.choice(["d", "d", "s", "v", "x"])
                t = rng.choice({"d": DIRECT, "s": SETS, "v": VECS, "x": DATA}[k])
                # a group used in a declared pair must not hold vectors; keep vectors out of groups
                g = [x for x in gs if rng.random() < 0.5] if k in "ds" else []
                fs.append((f, t, k, g, []))
            ph = [x for x in GN if x not in gs and rng.random() < 0.15]
            self.structs.append({"name": v + rng.choice(["", "Node"]), "phantom": ph, "fields": fs, "form": "named"})
            self.variants.append((v, self.structs[-1]["name"]))
        self.groups = []           # (name, [variants])
        self.types = []            # (var or group, link or link group, [vars or groups])
        self.pairs = []            # (v, l, v, l)
        for g in rng.sample(TG, rng.choice([0, 1, 2])):
            self.groups.append((g, rng.sample(names, rng.randint(1, nv))))
        tgt = names + [g for g, _ in self.groups]
        for v in names:
            for l in self.links(v) + self.lgroups(v):
                if rng.random() < 0.35:
                    self.types.append((v, l, rng.sample(tgt, rng.randint(1, min(2, len(tgt))))))
        for g, vs in self.groups:
            common = set(self.links(vs[0]) + self.lgroups(vs[0]))
            for v in vs:
                common &= set(self.links(v) + self.lgroups(v))
            for l in sorted(common):
                if rng.random() < 0.5 and not any(a in vs and b == l for a, b, _ in self.types):
                    self.types.append((g, l, [rng.choice(tgt)]))
        ends = [(v, l) for v in names for l in self.links(v, "ds") + [g for g in self.lgroups(v)]]
        if ends:
            for _ in range(rng.choice([0, 1, 2, 3])):
                a, b = rng.choice(ends), rng.choice(ends)
                p = (a[0], a[1], b[0], b[1])
                if p not in self.pairs:
                    self.pairs.append(p)
        self.uses = True
        self.extra_items = []      # further items inside node_enum!
        self.before_enum = ""      # text before the enum inside node_enum!
        self.raw = {}              # replaces a part of the text
        self.use_lines = []

    def struct_of(self, v):
        t = dict(self.variants)[v]
        return next((s for s in self.structs if s["name"] == t), None)

    def links(self, v, kinds="dsv"):
        s = self.struct_of(v)
        return [f[0] for f in s["fields"] if f[2] in kinds] if s else []

    def datas(self, v):
        s = self.struct_of(v)
        return [f[0] for f in s["fields"] if f[2] == "x"] if s else []

    def lgroups(self, v):
        s = self.struct_of(v)
        return sorted({g for f in s["fields"] for g in f[3]} | set(s["phantom"])) if s else []

    def text(self):
        o = ["#![allow(dead_code, unused, non_camel_case_types)]", "use std::collections::*;", "use ttgraph::*;"]
        for s in self.structs:
            if s["phantom"]:
                pass
            o.append("#[derive(TypedNode)]")
            for g in s["phantom"]:
                o.append("#[phantom_group(%s)]" % g)
            if s["form"] == "named":
                o.append("pub struct %s {" % s["name"])
                for f, t, k, g, at in s["fields"]:
                    for a in at:
                        o.append("  " + a)
                    if g:
                        o.append("  #[group(%s)]" % ", ".join(g))
                    o.append("  pub %s: %s," % (f, t))
                o.append("}")
            else:
                o.append(s["form"] % s["name"])
        o.append("node_enum! {")
        if self.before_enum:
            o.append(self.before_enum)
        if "enum" in self.raw:
            o.append(self.raw["enum"])
        else:
            o.append("  pub enum %s {" % self.enum)
            for v, t in self.variants:
                o.append("    " + (t if t.startswith(v + "!") else "%s(%s)," % (v, t)).replace(v + "!", v))
            o.append("  }")
        if self.groups:
            o.append("  group! { %s }" % ", ".join("%s { %s }" % (g, ", ".join(vs)) if isinstance(vs, list) else vs for g, vs in self.groups))
        if self.types:
            o.append("  link_type! { %s }" % ", ".join(self.ty(t) for t in self.types))
        if self.pairs:
            o.append("  bidirectional! { %s }" % ", ".join(p if isinstance(p, str) else "%s.%s <-> %s.%s" % p for p in self.pairs))
        o += ["  " + i for i in self.extra_items]
        o.append("}")
        if self.uses:
            e, (v, _) = self.enum, self.variants[0]
            o.append("pub fn uses(ctx: &Context, graph: &mut Graph<%s>, other: Graph<%s>, i: NodeIndex) {" % (e, e))
            o.append("  let mut t = Transaction::new(ctx);")
            o.append("  let n = alloc_node!(t, %s::%s);" % (e, v))
            o.append("  let d = discriminant!(%s::%s);" % (e, v))
            o.append("  let c = iter_nodes!(graph, %s::%s).count();" % (e, v))
            o.append("  let g = get_node!(graph, %s::%s, i).is_some();" % (e, v))
            o.append("  mut_node!(t, %s::%s, i, |x| { });" % (e, v))
            o.append("  update_node!(t, %s::%s, i, |x| { x });" % (e, v))
            o += ["  " + l for l in self.use_lines if not l.startswith("!")]
            o.append("  t.merge(other);")
            o.append("  graph.commit(t);")
            o += ["  " + l[1:] for l in self.use_lines if l.startswith("!")]
            o.append("}")
        return "\n".join(o) + "\n"

    def ty(self, t):
        if isinstance(t, str):
            return t
        v, l, ts = t
        return "%s.%s: %s" % (v, l, ts[0] if len(ts) == 1 else "{ %s }" % ", ".join(ts))


NOPE = ["Nowhere", "nothing", "Zzz", "missing_one"]
FAULTS = {}


def fault(f):
    FAULTS[f.__name__] = f
    return f


def unknown(rng, taken):
    return rng.choice([n for n in NOPE if n not in taken])


def names(p):
    return [v for v, _ in p.variants]


def some_link(p, rng, kinds="dsv"):
    c = [(v, l) for v in names(p) for l in p.links(v, kinds)]
    return rng.choice(c) if c else None


def some_data(p, rng):
    c = [(v, l) for v in names(p) for l in p.datas(v)]
    return rng.choice(c) if c else None


@fault
def type_of_unknown_variant(p, rng):
    p.types.append((unknown(rng, names(p)), rng.choice(FN), [rng.choice(names(p))]))
    return True


@fault
def type_of_misspelt_variant(p, rng):
    l = some_link(p, rng)
    if not l:
        return False
    p.types.append((rng.choice([l[0].lower(), l[0] + "s", p.struct_of(l[0])["name"] + "_"]), l[1], [rng.choice(names(p))]))
    return p.types[-1][0] not in names(p) and p.types[-1][0] not in [g for g, _ in p.groups]


@fault
def type_of_unknown_link(p, rng):
    p.types.append((rng.choice(names(p)), unknown(rng, []), [rng.choice(names(p))]))
    return True


@fault
def type_of_data_field(p, rng):
    d = some_data(p, rng)
    if not d:
        return False
    p.types.append((d[0], d[1], [rng.choice(names(p))]))
    return True


@fault
def type_to_unknown_variant(p, rng):
    l = some_link(p, rng)
    if not l:
        return False
    p.types = [t for t in p.types if not (t[0] == l[0] and t[1] == l[1])]
    ts = [unknown(rng, names(p))]
    if rng.random() < 0.5:
        ts.insert(rng.randint(0, 1), rng.choice(names(p)))
    p.types.append((l[0], l[1], ts))
    return True


@fault
def type_of_group_lacking_the_link(p, rng):
    if not p.groups:
        return False
    g, vs = rng.choice(p.groups)
    have = {l for v in vs for l in p.links(v)}
    c = [l for l in sorted(have) if any(l not in p.links(v) + p.lgroups(v) for v in vs)]
    if not c:
        return False
    l = rng.choice(c)
    p.types = [t for t in p.types if t[1] != l]
    p.types.append((g, l, [rng.choice(names(p))]))
    return True


@fault
def type_of_link_of_another_variant(p, rng):
    l = some_link(p, rng)
    c = [v for v in names(p) if l and l[1] not in p.links(v) + p.lgroups(v)]
    if not c:
        return False
    p.types.append((rng.choice(c), l[1], [rng.choice(names(p))]))
    return True


@fault
def malformed_type(p, rng):
    l = some_link(p, rng)
    if not l:
        return False
    v, f = l
    w = rng.choice(names(p))
    p.types.append(rng.choice(["%s.%s %s" % (v, f, w), "%s.%s:" % (v, f), "%s: %s" % (v, w), "%s.%s: { %s %s }" % (v, f, w, w), "%s::%s: %s" % (v, f, w), "%s.%s -> %s" % (v, f, w), "%s.%s: [%s]" % (v, f, w), ".%s: %s" % (f, w)]))
    return True


@fault
def pair_with_unknown_variant(p, rng):
    l = some_link(p, rng, "ds")
    if not l:
        return False
    u = (unknown(rng, names(p)), rng.choice(FN))
    p.pairs.append(l + u if rng.random() < 0.5 else u + l)
    return True


@fault
def pair_with_unknown_link(p, rng):
    l = some_link(p, rng, "ds")
    if not l:
        return False
    u = (rng.choice(names(p)), unknown(rng, []))
    p.pairs.append(l + u if rng.random() < 0.5 else u + l)
    return True


@fault
def pair_with_data_field(p, rng):
    l, d = some_link(p, rng, "ds"), some_data(p, rng)
    if not l or not d:
        return False
    p.pairs.append(l + d if rng.random() < 0.5 else d + l)
    return True


@fault
def pair_with_link_of_another_variant(p, rng):
    l = some_link(p, rng, "ds")
    c = [v for v in names(p) if l and l[1] not in p.links(v) + p.lgroups(v)]
    if not c:
        return False
    u = (rng.choice(c), l[1])
    p.pairs.append(l + u if rng.random() < 0.5 else u + l)
    return True


@fault
def pair_with_group_lacking_the_link(p, rng):
    l = some_link(p, rng, "ds")
    if not l or not p.groups:
        return False
    g, vs = rng.choice(p.groups)
    c = [x for x in sorted({x for v in vs for x in p.links(v, "ds")}) if any(x not in p.links(v) + p.lgroups(v) for v in vs)]
    if not c:
        return False
    u = (g, rng.choice(c))
    p.pairs.append(l + u if rng.random() < 0.5 else u + l)
    return True


@fault
def malformed_pair(p, rng):
    l = some_link(p, rng, "ds")
    if not l:
        return False
    a = "%s.%s" % l
    p.pairs.append(rng.choice(["%s <- %s" % (a, a), "%s <-> %s" % (a, l[0]), "%s %s" % (a, a), "%s <-> " % a, "%s -> %s" % (a, a), "%s <-> %s <-> %s" % (a, a, a), "%s::%s <-> %s" % (l[0], l[1], a), "<-> %s" % a]))
    return True


@fault
def group_of_unknown_variant(p, rng):
    vs = [unknown(rng, names(p))]
    if rng.random() < 0.6:
        vs.insert(rng.randint(0, 1), rng.choice(names(p)))
    p.groups.append(("fresh_group", vs))
    return True


@fault
def malformed_group(p, rng):
    v = rng.choice(names(p))
    p.groups.append(("", rng.choice(["fresh %s" % v, "fresh { %s %s }" % (v, v), "fresh: { %s }" % v, "{ %s }" % v, "fresh ( %s )" % v, "fresh { %s.a }" % v])))
    return True


@fault
def variant_not_a_node(p, rng):
    v = "Extra"
    p.variants.append((v, rng.choice([v + "!,", v + "! { a: usize },", v + "!(),", v + "!(%s, usize)," % p.structs[0]["name"], v + "!(usize, usize),", v + "! = 3,"])))
    return True


@fault
def variant_type_not_a_node(p, rng):
    p.variants.append(("Extra", rng.choice(["usize", "String", "NodeIndex", "Vec<%s>" % p.structs[0]["name"], "Option<%s>" % p.structs[0]["name"], "NoSuchType"])))
    return True


@fault
def duplicate_variant(p, rng):
    p.variants.append(p.variants[0])
    return True


@fault
def enum_not_first(p, rng):
    p.before_enum = rng.choice(["  group! { early { %s } }" % names(p)[0], "  struct Early { a: usize }", "  fn early() {}", "  use std::fmt;", "  link_type! { }"])
    return True


@fault
def no_enum(p, rng):
    p.raw["enum"] = rng.choice(["", "  pub struct %s { a: usize }" % p.enum, "  pub type %s = usize;" % p.enum])
    p.groups, p.types, p.pairs = [], [], []
    p.uses = False
    return True


@fault
def unsupported_item(p, rng):
    p.extra_items.append(rng.choice(["struct Inner { a: usize }", "fn inner() {}", "unknown_macro! { a }", "bidirection! { }", "links_type! { }", "groups! { }", "enum Second { A(%s) }" % p.structs[0]["name"], "use std::fmt;", "const C: usize = 1;", "impl %s {}" % p.enum, "type T = usize;"]))
    return True


@fault
def node_not_a_struct_with_fields(p, rng):
    s = rng.choice(p.structs)
    p.groups, p.types, p.pairs = [], [], []
    s["form"] = rng.choice(["pub struct %s(pub NodeIndex);", "pub struct %s(pub usize, pub NodeIndex);", "pub struct %s;", "pub enum %s { A, B }", "pub union %s { a: usize, b: u8 }", "pub struct %s();"])
    s["phantom"] = []
    return True


@fault
def group_on_data_field(p, rng):
    c = [(i, j) for i, s in enumerate(p.structs) for j, f in enumerate(s["fields"]) if f[2] == "x"]
    if not c:
        return False
    i, j = rng.choice(c)
    f = p.structs[i]["fields"][j]
    p.structs[i]["fields"][j] = (f[0], f[1], f[2], [rng.choice(GN)], [])
    return True


@fault
def malformed_group_attribute(p, rng):
    c = [(i, j) for i, s in enumerate(p.structs) for j, f in enumerate(s["fields"]) if f[2] in "ds"]
    if not c:
        return False
    i, j = rng.choice(c)
    f = p.structs[i]["fields"][j]
    p.structs[i]["fields"][j] = (f[0], f[1], f[2], f[3], f[4] + [rng.choice(["#[group(a::b)]", "#[group = \"a\"]", "#[group(a b)]", "#[group]", "#[group(\"a\")]", "#[group(fresh::x, other)]", "#[group(fresh, 3)]"])])
    return True


@fault
def malformed_phantom_group(p, rng):
    s = rng.choice(p.structs)
    s["phantom"] = s["phantom"] + [rng.choice(["a::b", "\"a\"", "a b", "fresh::x, other"])]
    return True


@fault
def use_of_unknown_variant(p, rng):
    u = unknown(rng, names(p))
    e = p.enum
    p.use_lines.append(rng.choice(["let y = get_node!(graph, %s::%s, i).is_some();", "let y = iter_nodes!(graph, %s::%s).count();", "mut_node!(t, %s::%s, i, |x| { });", "mut_node!(t, %s::%s, i, move |x| { });", "mut_node!(t, %s::%s, i, x, { });",
                                   "update_node!(t, %s::%s, i, |x| { x });", "update_node!(t, %s::%s, i, x, { x });", "let y = alloc_node!(t, %s::%s);", "let y = discriminant!(%s::%s);", "let y = graph.iter_type(discriminant!(%s::%s)).count();"]) % (e, u))
    return True


@fault
def use_of_field_of_another_variant(p, rng):
    e = p.enum
    v = rng.choice(names(p))
    u = unknown(rng, [f[0] for f in p.struct_of(v)["fields"]])
    p.use_lines.append(rng.choice(["let y = get_node!(graph, %s::%s, i).map(|n| &n.%s).is_some();", "mut_node!(t, %s::%s, i, |x| { let _ = &x.%s; });", "update_node!(t, %s::%s, i, |x| { let _ = &x.%s; x });", "for (_, n) in iter_nodes!(graph, %s::%s) { let _ = &n.%s; }"]) % (e, v, u))
    return True


@fault
def path_without_variant(p, rng):
    p.use_lines.append(rng.choice(["let y = discriminant!(%s);", "let y = alloc_node!(t, %s);", "let y = iter_nodes!(graph, %s).count();"]) % rng.choice(names(p)))
    return True


@fault
def update_to_another_node_type(p, rng):
    c = [(v, s) for v, s in p.variants if any(t != s for _, t in p.variants)]
    if not c:
        return False
    v, s = rng.choice(c)
    o = rng.choice([t for _, t in p.variants if t != s])
    p.use_lines.append("update_node!(t, %s::%s, i, |x| { let y: %s = todo!(); y });" % (p.enum, v, o))
    return True


@fault
def used_after_it_was_consumed(p, rng):
    e = p.enum
    p.use_lines.append("!" + rng.choice(["graph.commit(t);", "t.remove(i);", "t.give_up();", "let y = t.is_empty();", "let y = other.len();", "let y = other.switch_context(ctx);", "t.redirect_links(i, i);", "let y = other.get(i).is_some();"]))
    return True


@fault
def graph_of_another_node_enum(p, rng):
    p.structs.append({"name": "OtherOne", "phantom": [], "fields": [("a", "usize", "x", [], [])], "form": "named"})
    p.extra = "node_enum! { pub enum Foreign { One(OtherOne) } }\n"
    p.use_lines.append(rng.choice(["let y: Graph<Foreign> = Graph::new(ctx); t.merge(y);", "let mut y: Graph<Foreign> = Graph::new(ctx); let z = Transaction::<%s>::new(ctx); y.commit(z);" % p.enum, "t.insert(Foreign::One(OtherOne { a: 1 }));",
                                   "let y = graph.iter_type(discriminant!(Foreign::One)).count();", "t.alloc(discriminant!(Foreign::One));"]))
    return True


@fault
def graph_changed_while_borrowed(p, rng):
    p.use_lines.append(rng.choice(["let y = graph.get(i); let z = Transaction::new(ctx); graph.commit(z); let w = y.is_some();", "let y = graph.iter(); let z = Transaction::new(ctx); graph.commit(z); let w = y.count();"]))
    return True


def full(p):
    return p.text() + getattr(p, "extra", "")


def make(seed):
    """(base program, faulty program, fault) for a seed; the programs differ by the fault alone"""
    rng = random.Random(seed)
    kinds = sorted(FAULTS)
    while True:
        p = Prog(rng)
        k = kinds[seed % len(kinds)] if rng.random() < 0.8 else rng.choice(kinds)
        for _ in range(12):
            q = copy.deepcopy(p)
            r = random.Random(rng.random())
            if FAULTS[k](q, r):
                return p, q, k
        # this fault does not fit: another program


def smaller(p):
    """programs with one part less"""
    for i in range(len(p.types)):
        q = copy.deepcopy(p); del q.types[i]; yield q
    for i in range(len(p.pairs)):
        q = copy.deepcopy(p); del q.pairs[i]; yield q
    for i in range(len(p.groups)):
        q = copy.deepcopy(p); del q.groups[i]; yield q
    for i in range(len(p.variants)):
        if len(p.variants) > 1:
            q = copy.deepcopy(p); del q.variants[i]; yield q
    for i, s in enumerate(p.structs):
        for j in range(len(s["fields"])):
            q = copy.deepcopy(p); del q.structs[i]["fields"][j]; yield q
        for j in range(len(s["phantom"])):
            q = copy.deepcopy(p); del q.structs[i]["phantom"][j]; yield q
        if len(p.structs) > 1:
            q = copy.deepcopy(p); del q.structs[i]; yield q
    if p.uses and not p.use_lines:
        q = copy.deepcopy(p); q.uses = False; yield q


class Compiler:
    def __init__(self, rlib, deps, scratch):
        self.rlib, self.deps, self.scratch, self.n = rlib, deps, scratch, 0

    def __call__(self, text):
        """(compiles, messages)"""
        fd, src = tempfile.mkstemp(suffix=".rs", dir=self.scratch)
        with os.fdopen(fd, "w") as f:
            f.write(text)
        out = src + ".rmeta"
        try:
            r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "case", "--emit", "metadata=" + out, "--extern", "ttgraph=" + self.rlib, "-L", "dependency=" + self.deps, "--cap-lints", "allow", src],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        finally:
            for f in (src, out):
                if os.path.exists(f):
                    os.remove(f)
        return r.returncode == 0, r.stderr


def shrink(c, base, bad, kind, budget=120):
    """fewer parts, while the faulty program still compiles; the fault stays in because it is re-injected"""
    rng = random.Random(7)
    best = (full(base), full(bad))
    cur = base
    progress = True
    while progress and budget > 0:
        progress = False
        for q in smaller(cur):
            budget -= 2
            if budget <= 0:
                break
            b = None
            for s in range(6):
                x = copy.deepcopy(q)
                try:
                    if FAULTS[kind](x, random.Random(s)):
                        b = x
                        break
                except (IndexError, KeyError, TypeError, ValueError):
                    pass
            if not b:
                continue
            if c(full(q))[0] and c(full(b))[0]:
                cur, best, progress = q, (full(q), full(b)), True
                break
    return best


def run(compiler, first, count, stop_after=None):
    """compiles `count` cases; returns a report"""
    rep = {"cases": 0, "skipped": 0, "programs": 0, "by_fault": {}, "samples": [], "bad": None, "distinct": 0}
    seen = set()

    def job(seed):
        b, q, k = make(seed)
        ok, err = compiler(full(b))
        if not ok:
            return seed, b, q, k, None, err
        ok2, err2 = compiler(full(q))
        return seed, b, q, k, ok2, err2
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for seed, b, q, k, accepted, err in ex.map(job, range(first, first + count)):
            rep["programs"] += 1
            if accepted is None:
                rep["skipped"] += 1
                rep.setdefault("skipped_error", err[:1500])
                continue
            rep["programs"] += 1
            rep["cases"] += 1
            t = full(q)
            if t not in seen:
                seen.add(t)
                rep["distinct"] += 1
                rep["by_fault"][k] = rep["by_fault"].get(k, 0) + 1
            if len(rep["samples"]) < 3 and not accepted:
                first_error = next((l for l in err.splitlines() if l.startswith("error")), "")
                rep["samples"].append({"fault": k, "program": t, "rejected_with": first_error})
            if accepted and rep["bad"] is None:
                rep["bad"] = (seed, b, q, k)
    return rep


if __name__ == "__main__":
    b, q, k = make(int(sys.argv[1]))
    print("//", k)
    print(full(q))
