"""Families of derived types: their descriptions for the specification, and the Rust code that has the crate derive them.

The descriptions are enumerated (a core of boundary shapes) and sampled from the seed.
"""
import json, os, random, subprocess

RUST = {"bool": "bool", "u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "text": "String", "bytes": "Vec<u8>",
        "b0": "[u8; 0]", "b1": "[u8; 1]", "b4": "[u8; 4]", "b24": "[u8; 24]", "scalar": "Scalar", "data": "DataOwned",
        "simple": "Simple", "list_u16": "List<u16>", "list_text": "List<String>", "list_bool": "List<bool>",
        "raw_u16": "CborDataOf<u16>", "raw_text": "CborDataOf<String>", "raw_data": "CborDataOf<DataOwned>",
        "datetime": "StandardDateTime", "posbig": "PositiveBignum", "negbig": "NegativeBignum", "encoded": "EncodedCBOR",
        "rational": "RationalNumber", "list_list_u16": "List<List<u16>>"}
LEAFS = ["bool", "u8", "u16", "u32", "u64", "text", "bytes", "b4", "scalar", "data", "simple", "list_u16", "raw_u16", "encoded"]
TAGS = [0, 1, 5, 23, 24, 30, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**63, 2**64 - 1]
STARTS = [0, 1, 2, 7, 22, 23, 24, 31, 32, 60, 63, 64, 100, 250, 255, 256, 65534, 65536, 2**31 - 2, 2**32 - 2, 2**32, 2**63 - 2, 2**64 - 20]


def be8(n):
    return list(n.to_bytes(8, "big"))


class Family:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.list = []

    def rust(self, of):
        return RUST.get(of, of)

    def field(self, i, of, must=True, vec=False):
        return {"n": "f%d" % i, "of": of, "must": must, "vec": vec}

    def struct(self, form, types, named=True, tag=None, start=0, skips=(), must=None):
        n = "S%d" % len(self.list)
        must = must if must is not None else [True] * len(types)
        fs = [self.field(i, t, must[i]) for i, t in enumerate(types)]
        self.list.append({"n": n, "t": "struct", "form": form, "tag": [] if tag is None else be8(tag), "named": named,
                          "fields": fs, "start": be8(start), "skips": [be8(x) for x in skips], "vars": [], "_tag": tag, "_start": start, "_skips": list(skips)})
        return n

    def enum(self, form, variants, start=0, skips=()):
        """variants: (kind or "", named, [types, "vec:T" for a vector of T])"""
        n = "E%d" % len(self.list)
        vs = []
        for kind, named, types in variants:
            fs = []
            for i, t in enumerate(types):
                v = t.startswith("vec:")
                fs.append(self.field(i, t[4:] if v else t, True, v))
            vs.append({"kind": kind, "named": named, "fields": fs})
        self.list.append({"n": n, "t": "enum", "form": form, "tag": [], "named": True, "fields": [], "start": be8(start),
                          "skips": [be8(x) for x in skips], "vars": vs, "_tag": None, "_start": start, "_skips": list(skips)})
        return n

    # ------------------------------------------------------------------ random
    def types(self, k, pool=LEAFS):
        return [self.r.choice(pool) for _ in range(k)]

    def skips(self, start, n):
        r = self.r
        c = r.randrange(4)
        if c == 0:
            return []
        lo = max(0, start - 3)
        s = [r.randrange(lo, start + n + 3) for _ in range(r.randrange(1, 5))]
        if c == 3:
            s += [s[0] + 1, s[0] + 2]
        return s

    def rand_struct(self, pool):
        r = self.r
        tag = r.choice(TAGS) if r.random() < 0.5 else None
        form = r.choice(["flat", "array", "lastopt", "mapint", "mapint"])
        k = r.choice([1, 2, 3, 4, 5, 7])
        ts = self.types(k, pool)
        if form == "flat":
            if tag is not None:
                ts = ts[:1]
            return self.struct(form, ts, r.random() < 0.5, tag)
        if form == "array":
            return self.struct(form, ts, r.random() < 0.6, tag)
        if form == "lastopt":
            return self.struct(form, ts, True, tag)
        start = r.choice(STARTS)
        return self.struct(form, ts, True, tag, start, self.skips(start, k), [r.random() < 0.5 for _ in ts])

    def rand_enum(self, pool):
        r = self.r
        start = r.choice(STARTS)
        n = r.choice([1, 2, 3, 4, 6, 9])
        form = r.choice(["tagvariant", "tagvariant", "enumint"])
        if form == "enumint":
            return self.enum(form, [("", True, [])] * n, start, self.skips(start, n))
        vs = []
        for _ in range(n):
            k = r.choice([0, 1, 1, 2, 3])
            named = r.random() < 0.5
            ts = self.types(k, pool)
            if not named:
                ts = ["vec:" + t if r.random() < 0.2 else t for t in ts]
            vs.append(("", named, ts))
        return self.enum(form, vs, start, self.skips(start, n))


def structs(seed, extra):
    f = Family(seed * 7919 + 1)
    S = f.struct
    # one item as it is, with and without a tag
    for i, t in enumerate(["u64", "text", "bytes", "bool", "data", "raw_u16", "list_u16", "b4"]):
        S("flat", [t], i % 2 == 0)
    for i, tag in enumerate(TAGS):
        S("flat", [["u32", "text", "list_u16"][i % 3]], i % 2 == 1, tag)
    S("flat", ["u8", "text", "bool"])
    S("flat", ["u8", "bytes", "list_u16"], False)
    # arrays of every header width that is near
    S("array", [])
    for k in [1, 2, 3, 23, 24, 25]:
        S("array", [LEAFS[(i * 5 + k) % len(LEAFS)] for i in range(k)])
    for k in [1, 2, 3, 24]:
        S("array", [LEAFS[(i * 3 + k) % len(LEAFS)] for i in range(k)], False)
    S("array", ["u64", "text"], True, 24)
    S("array", ["u64", "text"], False, 65536)
    S("array", ["datetime", "posbig", "negbig", "encoded", "rational"], True, 2**64 - 1)
    # last optional
    for k in [1, 2, 3, 24, 25]:
        S("lastopt", [LEAFS[(i * 5 + 3 * k) % len(LEAFS)] for i in range(k)], True, None if k != 2 else 258)
    S("lastopt", ["u8", "data"])
    S("lastopt", ["list_u16", "list_u16"], True, 5)
    # maps
    alt = lambda k, a, b: [(i % a) < b for i in range(k)]
    S("mapint", ["u64"], must=[True])
    S("mapint", ["u64"], must=[False])
    S("mapint", ["u8", "u8"], must=[True, False], start=1)
    S("mapint", ["u8", "text", "bool"], must=[False, True, False], skips=[0])
    S("mapint", ["u8", "text", "bool"], must=[False, True, True], skips=[1, 2], start=1)
    S("mapint", ["u8", "text", "bool", "bytes"], must=[False] * 4, skips=[3, 1], start=0, tag=5)
    S("mapint", ["u8"] * 4, must=[False, True, False, True], skips=[24, 25, 27], start=23)
    S("mapint", ["u16"] * 5, must=alt(5, 2, 1), start=22, skips=[4, 23, 100])
    S("mapint", ["u16"] * 3, must=alt(3, 2, 1), start=31)
    S("mapint", ["u16"] * 3, must=alt(3, 3, 1), start=62, skips=[63, 64], tag=256)
    S("mapint", ["u64"] * 26, must=alt(26, 5, 1))
    S("mapint", ["u64"] * 34, must=alt(34, 17, 1), start=3, skips=[7, 30, 31, 32])
    S("mapint", ["bool"] * 64, must=alt(64, 9, 1), start=0)
    S("mapint", ["u8"] * 40, must=[False] * 40, start=240, skips=[255])
    S("mapint", ["text"] * 3, must=alt(3, 2, 1), start=65534, skips=[65536])
    S("mapint", ["u8"] * 2, must=[True, True], start=2**31 - 2)
    S("mapint", ["u8"] * 3, must=[True, False, True], start=2**32 - 2, skips=[2**32])
    S("mapint", ["u8"] * 3, must=[False, True, False], start=2**64 - 8, skips=[2**64 - 7])
    # types inside types
    pt = S("array", ["u32", "u32"])
    fl = S("flat", ["u16", "text"])
    tg = S("array", ["u8"], True, 99)
    mp = S("mapint", ["u8", pt], must=[True, False], start=2)
    lo = S("lastopt", [pt, mp])
    S("array", [pt, tg, mp, lo])
    S("mapint", [pt, tg, lo], must=[False, True, False])
    S("flat", [fl, pt])
    S("array", [pt, mp], False)
    for _ in range(extra):
        pool = LEAFS if f.r.random() < 0.7 else LEAFS + [pt, tg, mp, lo]
        f.rand_struct(pool)
    return f.list


def enums(seed, extra):
    f = Family(seed * 104729 + 2)
    E = f.enum
    u = ("", True, [])
    for n, start, skips in [(1, 0, []), (2, 0, []), (3, 1, []), (3, 0, [0]), (3, 0, [1]), (4, 0, [1, 2]), (4, 5, [6]),
                            (4, 5, [5, 4]), (3, 5, [1, 2, 3]), (3, 2, [4, 3]), (26, 0, []), (5, 22, [24]), (4, 254, [255, 256]),
                            (3, 65534, [65535]), (2, 65536, []), (3, 2**31 - 2, []), (3, 2**32 - 1, [2**32]), (3, 2**63 - 1, []), (2, 2**64 - 8, [2**64 - 7]), (30, 10, [12, 20, 21, 22, 40])]:
        E("enumint", [u] * n, start, skips)
    mix = [("", True, []), ("", False, ["u64"]), ("", False, ["u64", "text"]), ("", True, ["u8", "bool"]), ("", False, ["vec:u16"]),
           ("", False, ["bytes"]), ("", False, ["vec:u8", "vec:text"]), ("", True, ["bytes"]), ("", False, ["u8", "u8", "u8", "u8"]),
           ("", True, ["raw_u16", "data", "list_u16"])]
    for i, (start, skips) in enumerate([(0, []), (1, []), (0, [1]), (0, [0, 1]), (2, [3, 4, 5]), (4, [6, 4]), (20, [22, 25]),
                                        (250, [255]), (65530, [65533, 65534]), (3, [0, 1, 2])]):
        E("tagvariant", mix[i % 3:] if i % 2 else mix, start, skips)
    E("tagvariant", [("", False, ["u8"])])
    E("tagvariant", [u])
    E("tagvariant", [u] * 3 + [("", False, ["vec:list_u16"])])
    E("tagvariant", [("", False, ["u64"] * 22), ("", False, ["u64"] * 23), ("", True, ["u64"] * 24)])
    E("tagvariant", [("", False, ["u8"])] * 26)
    # inner types
    pt = f.struct("array", ["u32", "u32"])
    mp = f.struct("mapint", ["u8", "u8"], must=[True, False])
    tg = f.struct("flat", ["u64"], True, 7)
    cl = E("enumint", [u] * 3, 1)
    tv = E("tagvariant", [u, ("", False, [pt]), ("", True, [cl, mp]), ("", False, ["vec:" + pt])], 0, [1])
    E("tagvariant", [("", False, [tv]), ("", True, [tv, "u8"]), ("", False, ["vec:" + tv]), ("", False, ["vec:" + cl, tg])])
    f.struct("array", [tv, cl])
    # by type
    K = {"Positive": ["u64", "u8", "scalar", "raw_u16", cl], "Negative": ["scalar"], "Array": ["list_u16", pt, tv, "list_text"],
         "Map": [mp], "Tag": [tg, "datetime", "posbig", "rational"], "Bytes": ["bytes", "b4"], "Text": ["text", "raw_text"]}
    N = ("Null", True, [])
    for sets in [["Positive"], ["Null"], ["Text", "Bytes"], ["Positive", "Negative"], ["Null", "Positive"], ["Array", "Map", "Tag"],
                 ["Null", "Bytes", "Text", "Positive", "Negative", "Array", "Map", "Tag"], ["Tag", "Null"], ["Map", "Text"]]:
        for i in range(2):
            E("enumtype", [N if k == "Null" else (k, i % 2 == 1, [K[k][(i + len(sets)) % len(K[k])]]) for k in sets])
    by = f.list[-5]["n"]
    E("tagvariant", [("", False, [by]), ("", True, ["u8", by])], 1)
    f.struct("array", ["u8", by])
    for _ in range(extra):
        pool = LEAFS if f.r.random() < 0.7 else LEAFS + [pt, tv, cl, by]
        f.rand_enum(pool)
    return f.list


# ---------------------------------------------------------------------- Rust
def rust_of(s, r):
    n = s["n"]
    T = lambda of: RUST.get(of, of)
    out = []
    attrs = []
    if s["t"] == "struct":
        form = {"flat": "flat", "array": "array", "lastopt": "array_lastopt", "mapint": "mapint"}[s["form"]]
        if form != "flat" or r.random() < 0.5:
            attrs.append('structure = "%s"' % form)
        if s["_tag"] is not None:
            attrs.append("tag = %d" % s["_tag"])
        if form == "mapint" and (s["_start"] or r.random() < 0.3):
            attrs.append("map_starts_at = %d" % s["_start"])
    else:
        if s["form"] != "tagvariant" or r.random() < 0.5:
            attrs.append('enumtype = "%s"' % s["form"])
        if s["_start"] or r.random() < 0.3:
            attrs.append("variant_starts_at = %d" % s["_start"])
    attrs += ["skipkey = %d" % k for k in s["_skips"]]
    r.shuffle(attrs)
    out.append("#[derive(CborRepr)]")
    while attrs:
        k = len(attrs) if r.random() < 0.6 else r.randrange(1, len(attrs) + 1)
        out.append("#[cborrepr(%s)]" % ", ".join(attrs[:k]))
        attrs = attrs[k:]
    opt = lambda i: s["t"] == "struct" and ((s["form"] == "lastopt" and i == len(s["fields"]) - 1) or
                                            (s["form"] == "mapint" and not s["fields"][i]["must"]))
    if s["t"] == "struct":
        fs = s["fields"]
        ty = [("Option<%s>" if opt(i) else "%s") % T(f["of"]) for i, f in enumerate(fs)]
        if s["named"]:
            body = []
            for i, f in enumerate(fs):
                m = "#[cborrepr(mandatory)] " if s["form"] == "mapint" and f["must"] else ""
                # says nothing more, but may be said
                if opt(i) and r.random() < 0.3:
                    m = "#[cborrepr(optional)] "
                body.append("    %s%s: %s," % (m, f["n"], ty[i]))
            out.append("pub struct %s {\n%s\n}" % (n, "\n".join(body)))
            acc = lambda i: "self.f%d" % i
            make = lambda es: "%s { %s }" % (n, ", ".join("f%d: %s" % (i, e) for i, e in enumerate(es)))
        else:
            out.append("pub struct %s(%s);" % (n, ", ".join(ty)))
            acc = lambda i: "self.%d" % i
            make = lambda es: "%s(%s)" % (n, ", ".join(es))
        show = [("opt_v(&%s)" if opt(i) else "%s.to_v()") % acc(i) for i in range(len(fs))]
        frm = [("v_opt(&v.l[%d])?" if opt(i) else "Val::from_v(&v.l[%d])?") % i for i in range(len(fs))]
        smp = ["opt_sample(g)?" if opt(i) else "Val::sample(g)?" for i in range(len(fs))]
        out.append("""impl Val for %s {
    fn to_v(&self) -> V { V::new("struct", vec![], vec![%s]) }
    fn from_v(v: &V) -> Option<Self> { if v.l.len() != %d { return None } Some(%s) }
    fn sample(g: &mut Gen) -> Option<Self> { let _ = &g; Some(%s) }
}""" % (n, ", ".join(show), len(fs), make(frm), make(smp)))
        return "\n".join(out)
    vs = s["vars"]
    body, show, frm, smp = [], [], [], []
    for i, v in enumerate(vs):
        fs = v["fields"]
        ty = [("Vec<%s>" if f["vec"] else "%s") % T(f["of"]) for f in fs]
        at = '#[cborrepr(cbortype = "%s")] ' % v["kind"].lower() if s["form"] == "enumtype" else ""
        names = ["f%d" % j for j in range(len(fs))]
        if not fs:
            body.append("    %sV%d," % (at, i))
            pat, make = "%s::V%d" % (n, i), lambda es, i=i: "%s::V%d" % (n, i)
        elif v["named"]:
            body.append("    %sV%d { %s }," % (at, i, ", ".join("%s: %s" % x for x in zip(names, ty))))
            pat = "%s::V%d { %s }" % (n, i, ", ".join(names))
            make = lambda es, i=i: "%s::V%d { %s }" % (n, i, ", ".join("f%d: %s" % (j, e) for j, e in enumerate(es)))
        else:
            fa = ['#[cborrepr(variant = "vec")] ' if f["vec"] and (f["of"] == "u8" or r.random() < 0.4) else "" for f in fs]
            body.append("    %sV%d(%s)," % (at, i, ", ".join(a + t for a, t in zip(fa, ty))))
            pat = "%s::V%d(%s)" % (n, i, ", ".join(names))
            make = lambda es, i=i: "%s::V%d(%s)" % (n, i, ", ".join(es))
        sh = [("vec_v(%s)" if f["vec"] else "%s.to_v()") % x for f, x in zip(fs, names)]
        fr = [("v_vec(&v.l[%d])?" if f["vec"] else "Val::from_v(&v.l[%d])?") % j for j, f in enumerate(fs)]
        sm = ["vec_sample(g)?" if f["vec"] else "Val::sample(g)?" for f in fs]
        show.append('            %s => V::new("enum", vec![%d], vec![%s]),' % (pat, i + 1, ", ".join(sh)))
        frm.append("            (%d, %d) => %s," % (i + 1, len(fs), make(fr)))
        smp.append("            %d => %s," % (i, make(sm)))
    out.append("pub enum %s {\n%s\n}" % (n, "\n".join(body)))
    out.append("""impl Val for %s {
    fn to_v(&self) -> V {
        match self {
%s
        }
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(match (v.b[0], v.l.len()) {
%s
            _ => return None,
        })
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        Some(match g.r.below(%d) {
%s
            _ => unreachable!(),
        })
    }
}""" % (n, "\n".join(show), "\n".join(frm), len(vs), "\n".join(smp)))
    return "\n".join(out)


HEAD = """#![allow(unused_imports, unused_variables, unused_mut, dead_code)]
use cbored::tagged::*;
use cbored::*;
use harness::gen::Gen;
use harness::typed::*;
use std::collections::BTreeMap;

fn opt_v<T: Val>(x: &Option<T>) -> V {
    match x {
        None => V::new("none", vec![], vec![]),
        Some(x) => V::new("some", vec![], vec![x.to_v()]),
    }
}
fn v_opt<T: Val>(v: &V) -> Option<Option<T>> {
    if v.k == "none" { Some(None) } else { Some(Some(T::from_v(&v.l[0])?)) }
}
fn opt_sample<T: Val>(g: &mut Gen) -> Option<Option<T>> {
    if g.r.chance(40) { Some(None) } else { Some(Some(T::sample(g)?)) }
}
fn vec_v<T: Val>(x: &Vec<T>) -> V {
    V::new("list", vec![], x.iter().map(|x| x.to_v()).collect())
}
fn v_vec<T: Val>(v: &V) -> Option<Vec<T>> {
    v.l.iter().map(T::from_v).collect()
}
fn vec_sample<T: Val>(g: &mut Gen) -> Option<Vec<T>> {
    let n = g.size().unwrap_or_else(|| g.r.below(4));
    (0..n).map(|_| T::sample(g)).collect()
}
"""


def family(name, tier, seed):
    q = tier == "quick"
    if name == "structs":
        return structs(seed, 24 if q else 160)
    if name == "enums":
        return enums(seed, 16 if q else 120)
    raise KeyError(name)


def build(run, name, tier):
    """Generates and builds the harness for a family; returns the compiler's complaint, if any."""
    fam = family(name, tier, run.seed)
    d = os.path.join(run.work, "gen-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    r = random.Random(run.seed)
    with open(os.path.join(d, "schema.json"), "w") as f:
        json.dump([{k: v for k, v in s.items() if k[0] != "_"} for s in fam], f)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "cbored-%s"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
cbored = { path = "/repo", default-features = false, features = ["derive"] }
cbored-derive = { path = "/repo/cbored-derive" }
cbored-harness = { path = "%s/harness" }

[profile.dev]
opt-level = 0
debug = false
overflow-checks = true
debug-assertions = true
incremental = false

[profile.dev.package.cbored-harness]
opt-level = 1

[workspace]
""" % (name, here))
    # several files so that they compile side by side
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(HEAD + "use cbored_derive::CborRepr;\n")
        for s in fam:
            f.write("\n" + rust_of(s, r) + "\n")
        f.write("\nfn main() {\n    let mut t: BTreeMap<String, Box<dyn Ty>> = BTreeMap::new();\n")
        for s in fam:
            f.write('    t.insert("%s".to_string(), of::<%s>());\n' % (s["n"], s["n"]))
        f.write("    harness::run::main_with(Table(t))\n}\n")
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(here, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(d, "Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return p.stdout
    run.bins[name] = os.path.join(here, "target", "debug", "cbored-" + name)
    run.schema[name] = os.path.join(d, "schema.json")
    run.note("%s: %d derived types" % (name, len(fam)))
    return None
