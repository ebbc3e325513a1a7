"""Compile-fail witnesses for the attributes of the derive macros.

Every refusal case is a module which derives one trait. It has to produce a compile error in that very module. The
acceptance cases (every documented argument, alone and combined) have to compile without any error; they contain, for
every refusal case, what is left of it when the offending part is taken out.
"""

import itertools
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, ".work")
REPO = "/repo"

SUPPORT = '''
#![allow(dead_code, unused_imports)]
pub mod support {
    use bsn1_serde::{Deserialize, Serialize};
    pub fn seven() -> u8 { 7 }
    pub fn eight() -> u8 { 8 }
    pub fn out<T>(_: &T) -> u8 { 1 }
    pub fn out2<T>(_: &T) -> u16 { 1 }
    #[derive(Clone, Default)]
    pub struct Mine(pub u8);
    impl From<u8> for Mine { fn from(v: u8) -> Self { Mine(v) } }
    impl From<u16> for Mine { fn from(v: u16) -> Self { Mine(v as u8) } }
    impl From<Mine> for u8 { fn from(v: Mine) -> u8 { v.0 } }
    impl From<Mine> for u16 { fn from(v: Mine) -> u16 { v.0 as u16 } }
    pub mod deep {
        pub fn seven() -> u8 { 7 }
        pub fn out<T>(_: &T) -> u8 { 1 }
        pub type Byte = u8;
    }
}
'''

# conversions of the item `S`, so that ignoring a conversion argument would compile
CONV = '''
impl From<u8> for S { fn from(_: u8) -> Self { loop {} } }
impl From<u16> for S { fn from(_: u16) -> Self { loop {} } }
impl From<S> for u8 { fn from(_: S) -> u8 { 0 } }
impl From<S> for u16 { fn from(_: S) -> u16 { 0 } }
'''

ID = ["id = Set", "tag_class = PRIVATE", "tag_pc = PRIMITIVE", "tag_num = 3"]
SKIP = ["skip", "skip_serializing", "skip_deserializing", 'default = "seven"']
OUT = ['into = "u8"', 'to = "out"']
IN = ['from = "u8"', 'try_from = "u8"']
CONVERT = OUT + IN
TRANS = ["transparent"]

STRUCT = "#[derive(Clone, {D})]\n#[bsn1_serde(%s)]\nstruct S(Mine8);\ntype Mine8 = u8;\n" + CONV
UNIT = "#[derive(Clone, {D})]\n#[bsn1_serde(%s)]\nstruct S;\n" + CONV
NAMED = "#[derive(Clone, {D})]\n#[bsn1_serde(%s)]\nstruct S { a: u8, b: bool }\n" + CONV
ENUM = "#[derive(Clone, {D})]\n#[bsn1_serde(%s)]\nenum S { A(u8), #[bsn1_serde(id = Set)] B { x: u8 } }\n" + CONV
VARIANT = "#[derive(Clone, {D})]\nenum S { #[bsn1_serde(%s)] A(u8), #[bsn1_serde(id = Null)] B }\n"
FIELD = "#[derive({D})]\nstruct S { a: bool, #[bsn1_serde(%s)] b: Both }\n"
TFIELD = "#[derive({D})]\nstruct S(#[bsn1_serde(%s)] Both, u8);\n"
VFIELD = "#[derive({D})]\nenum S { A { #[bsn1_serde(%s)] a: Both }, #[bsn1_serde(id = Set)] B(u8) }\n"
TVFIELD = "#[derive({D})]\nenum S { #[bsn1_serde(id = Set)] B(u8), A(#[bsn1_serde(%s)] Both) }\n"
# a field which has an encoding of its own and can be converted
BOTH = '''
#[derive(Clone, Default, Serialize, Deserialize)]
struct Both(u8);
impl From<u8> for Both { fn from(v: u8) -> Self { Both(v) } }
impl From<u16> for Both { fn from(v: u16) -> Self { Both(v as u8) } }
impl From<Both> for u8 { fn from(v: Both) -> u8 { v.0 } }
impl From<Both> for u16 { fn from(v: Both) -> u16 { v.0 as u16 } }
fn seven() -> Both { Both(7) }
fn eight() -> Both { Both(8) }
'''
FIELDS = [("field", FIELD), ("tuple-field", TFIELD), ("variant-field", VFIELD), ("variant-tuple-field", TVFIELD)]
PLACES = [("struct", STRUCT), ("unit", UNIT), ("named", NAMED), ("enum", ENUM), ("variant", VARIANT)] + FIELDS


def refusals():
    """(rule, name, source)"""
    for place, src in PLACES:
        field = place.endswith("field")
        # unknown arguments
        for a in ("unknown", "unknown = 3", 'unknown = "u8"', "Skip", "Id = Set", "tag_number = 3", "rename", "optional", "id_ = Set"):
            yield "unknown", "%s %s" % (place, a), src % a
        # not an argument at all, or half of one
        for a in ("3", '"id"', "id", "id =", "id Set", "id: Set", "(id = Set)", "= Set", "tag_class", "tag_num", "tag_pc =",
                  "tag_num 3", "tag_num: 3", "default", "default =", 'default "seven"', "into", 'into "u8"', "from =", "to", "try_from",
                  "skip = true", "skip(true)", "transparent = true", "transparent()", "skip_serializing = 1"):
            yield "malformed", "%s %s" % (place, a), src % a
        # a good argument in front of a bad one
        good = "skip" if field else ("id = Null" if place == "variant" else 'into = "u8"')
        for a in ("%s, unknown", "%s, 3", "unknown, %s", "%s; unknown"):
            yield "unknown", "%s %s" % (place, a % good), src % (a % good)
        yield "malformed", "%s as name and value" % place, src.replace("(%s)", ' = "skip"', 1)
        for a, b in itertools.product(ID + SKIP + CONVERT + TRANS, repeat=2):
            if a == b:
                yield "repeated", "%s %s" % (place, a), src % (a + ", " + b)
        yield "repeated", "%s two attributes" % place, src.replace("#[bsn1_serde(%s)]", "#[bsn1_serde(%s)] #[bsn1_serde(%s)]" % (good, good), 1)
        yield "repeated", "%s an empty and another attribute" % place, src.replace("#[bsn1_serde(%s)]", "#[bsn1_serde()] #[bsn1_serde(%s)]" % good, 1)
        # misplaced
        if place in ("struct", "unit", "named"):
            bad = SKIP
        elif place == "enum":
            bad = SKIP + ID + TRANS
        elif place == "variant":
            bad = SKIP + CONVERT + TRANS
        else:
            bad = ID + TRANS
        for a in bad:
            yield "misplaced", "%s %s" % (place, a), src % a
            yield "misplaced", "%s %s after another" % (place, a), src % (good + ", " + a)
        # exclusive
        for g, h in ((ID, SKIP), (ID, CONVERT), (SKIP, CONVERT), (ID, TRANS), (SKIP, TRANS), (CONVERT, TRANS)):
            for a in g:
                for b in h:
                    yield "exclusive", "%s %s, %s" % (place, a, b), src % (a + ", " + b)
                    yield "exclusive", "%s %s, %s" % (place, b, a), src % (b + ", " + a)
        for g in (OUT, IN):
            yield "exclusive", "%s %s, %s" % (place, g[0], g[1]), src % ", ".join(g)
            yield "exclusive", "%s %s, %s" % (place, g[1], g[0]), src % ", ".join(reversed(g))
    for place, src in PLACES[:3] + [PLACES[4]]:
        for a in ("id = Nil", "id = set", "id = SEQUENCE", "id = Utf8String", "id = 3", 'id = "Set"', "id = 'a'",
                  "tag_class = public", "tag_class = Private", "tag_class = CONTEXT", 'tag_class = "PRIVATE"', "tag_class = 3",
                  "tag_pc = BOTH", "tag_pc = primitive", "tag_pc = 0", 'tag_pc = "PRIMITIVE"',
                  "tag_num = -1", "tag_num = - 1", "tag_num = 340282366920938463463374607431768211456",
                  "tag_num = 0x100000000000000000000000000000000", "tag_num = 999999999999999999999999999999999999999999",
                  "tag_num = PRIVATE", "tag_num = 1.5", "tag_num = 1e3", "tag_num = '1'", "tag_num = \"x\"", "tag_num = b'1'",
                  "tag_num = seven()", "tag_num = (3)"):
            yield "out of range", "%s %s" % (place, a), src % a
    for place, src in PLACES[:4] + FIELDS:
        for k in ("into", "from", "to", "try_from") + (("default",) if place.endswith("field") else ()):
            pre = "skip, " if k == "default" else ""
            for v in ("u8", "3", '""', '"u8 u8"', '"1x"', '"u8,"', '"fn"', "'a'", '"&u8"'):
                yield "malformed", "%s %s%s = %s" % (place, pre, k, v), src % ("%s%s = %s" % (pre, k, v))
    # a comma between two arguments
    for place, a in (("struct", "id = Set tag_num = 3"), ("struct", 'into = "u8" from = "u8"'), ("variant", "id = Set tag_class = PRIVATE"),
                     ("field", 'skip default = "seven"'), ("field", "skip_serializing skip_deserializing")):
        yield "malformed", "%s %s" % (place, a), dict(PLACES)[place] % a
    # transparent
    t = "#[derive({D})]\n#[bsn1_serde(transparent)]\n"
    for name, s in (("unit", "struct S;"), ("no field", "struct S {}"), ("no tuple field", "struct S();"), ("two fields", "struct S(u8, u8);"),
                    ("three fields", "struct S { a: u8, b: u8, c: bool }"), ("all skipped", "struct S(#[bsn1_serde(skip)] u8);"),
                    ("two skipped", "struct S { #[bsn1_serde(skip)] a: u8, #[bsn1_serde(skip)] b: u8 }"),
                    ("two left", "struct S(u8, #[bsn1_serde(skip)] u8, u8);"),
                    ("two converted", 'struct S(#[bsn1_serde(to = "out", try_from = "u8")] u8, #[bsn1_serde(into = "u8", from = "u8")] u8);')):
        yield "transparent", name, t + s
    yield "transparent", "Serialize only: one field skipped for the other direction", t.replace("{D}", "Serialize") + "struct S(u8, #[bsn1_serde(skip_deserializing)] u8);"
    yield "transparent", "Deserialize only: one field skipped for the other direction", t.replace("{D}", "Deserialize") + "struct S(u8, #[bsn1_serde(skip_serializing)] u8);"
    yield "transparent", "Serialize only: everything skipped", t.replace("{D}", "Serialize") + "struct S(#[bsn1_serde(skip_serializing)] u8);"
    yield "transparent", "Deserialize only: everything skipped", t.replace("{D}", "Deserialize") + "struct S(#[bsn1_serde(skip_deserializing)] u8);"
    # the attributes inside of a converted type
    for c in ("into = \"u8\", from = \"u8\"", 'to = "out", try_from = "u8"'):
        h = "#[derive(Clone, {D})]\n#[bsn1_serde(%s)]\n" % c
        for a in ("unknown", "id = Set", "transparent", "skip, skip"):
            yield "inside a converted type", "field %s, %s" % (c, a), h + "struct S(#[bsn1_serde(%s)] u8);\n%s" % (a, CONV)
            yield "inside a converted type", "variant field %s, %s" % (c, a), h + "enum S { A(#[bsn1_serde(%s)] u8) }\n%s" % (a, CONV)
        for a in ("unknown", "skip", "transparent", 'into = "u8"'):
            yield "inside a converted type", "variant %s, %s" % (c, a), h + "enum S { #[bsn1_serde(%s)] A(u8) }\n%s" % (a, CONV)
    yield "union", "union", "#[derive({D})]\nunion S { a: u8, b: u8 }"


def acceptances():
    both = "Serialize, Deserialize"
    ids = ["EOC", "Boolean", "Integer", "BitString", "OctetString", "Null", "Real", "UTF8String", "Sequence", "Set"]
    classes = ["UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"]
    pcs = ["PRIMITIVE", "CONSTRUCTED"]
    nums = ["0", "30", "31", "0x1f", "0b11111", "0o37", "127", "128", "340282366920938463463374607431768211455",
            "0xffffffffffffffffffffffffffffffff", "007"]
    for i in [None] + ids:
        for c in [None] + classes:
            for p in [None] + pcs:
                a = []
                if i:
                    a.append("id = " + i)
                if c:
                    a.append("tag_class = " + c)
                if p:
                    a.append("tag_pc = " + p)
                a.append("tag_num = " + nums[(len(a) * 5 + len(str(i)) + len(str(c))) % len(nums)])
                for k, src in (("struct", STRUCT), ("variant", VARIANT)):
                    yield "%s %s" % (k, ", ".join(a)), src.replace("{D}", both) % ", ".join(a)
                if len(a) > 1:
                    yield "struct without number " + ", ".join(a), NAMED.replace("{D}", both) % ", ".join(a[:-1])
    for n in nums:
        yield "unit tag_num = " + n, UNIT.replace("{D}", both) % ("tag_num = " + n)
    for a in itertools.permutations(ID):
        yield "order " + ", ".join(a), NAMED.replace("{D}", both) % ", ".join(a)
        yield "order, trailing comma " + ", ".join(a), VARIANT.replace("{D}", both) % (", ".join(a) + ",")
    for place, src in PLACES:
        yield place + " empty", src.replace("{D}", both) % ""
        yield place + " bare", src.replace("{D}", both).replace("(%s)", "", 1)
        yield place + " without", src.replace("{D}", both).replace("#[bsn1_serde(%s)]", "", 1)
        yield place + " other attribute", src.replace("{D}", both).replace("#[bsn1_serde(%s)]", "#[allow(unused)] #[doc = \"x\"]", 1)
    conv = [(o, i) for o in OUT + ['into = "u16"', 'to = "out2"', 'to = "deep::out"', 'to = "support::deep::out::<Self>"', 'into = "deep::Byte"'] for i in IN + ['from = "u16"', 'try_from = "support::deep::Byte"']]
    for o, i in conv:
        for place, src in [("struct", STRUCT), ("unit", UNIT), ("named", NAMED), ("enum", ENUM)]:
            yield "%s %s, %s" % (place, o, i), src.replace("{D}", both) % (o + ", " + i)
            yield "%s %s only" % (place, o), src.replace("{D}", "Serialize") % o
            yield "%s %s only" % (place, i), src.replace("{D}", "Deserialize") % i
            yield "%s %s, other half plain" % (place, o), src.replace("{D}", both) % o
            yield "%s %s, other half plain" % (place, i), src.replace("{D}", both) % i
        for place, src in FIELDS:
            if "Self" in o:
                continue
            yield "%s %s, %s" % (place, o, i), src.replace("{D}", both) % (o + ", " + i)
            yield "%s %s, other half plain" % (place, o), src.replace("{D}", both) % o
            yield "%s %s, other half plain" % (place, i), src.replace("{D}", both) % i
    for place, src in FIELDS:
        for a in ("skip", "skip_serializing", "skip_deserializing", "skip_serializing, skip_deserializing",
                  'skip, default = "seven"', 'default = "seven", skip', 'skip_deserializing, default = "eight"',
                  'skip_serializing, skip_deserializing, default = "self::seven"', 'skip, default = "Both::default"', "skip,"):
            yield "%s %s" % (place, a), src.replace("{D}", both) % a
    t = "#[derive(%s)]\n#[bsn1_serde(transparent)]\n" % both
    for name, s in (("tuple", "struct S(u8);"), ("named", "struct S { a: u8 }"), ("one left", "struct S(#[bsn1_serde(skip)] u8, u8);"),
                    ("one left of three", 'struct S { #[bsn1_serde(skip)] a: u8, b: u8, #[bsn1_serde(skip, default = "deep::seven")] c: u8 }'),
                    ("converted", 'struct S(#[bsn1_serde(to = "out", try_from = "u8")] u8);'),
                    ("converted and skipped", 'struct S(#[bsn1_serde(into = "u8", from = "u8")] Mine, #[bsn1_serde(skip)] bool);'),
                    ("one each way", "struct S(#[bsn1_serde(skip_serializing)] u8, #[bsn1_serde(skip_deserializing)] bool);"),
                    ("generic", "struct S<T: ::bsn1_serde::ser::Serialize + ::bsn1_serde::de::Deserialize>(T);")):
        yield "transparent " + name, t + s
    yield "transparent Serialize only", t.replace(both, "Serialize") + "struct S(u8, #[bsn1_serde(skip_serializing)] u8);"
    yield "transparent Deserialize only", t.replace(both, "Deserialize") + "struct S(u8, #[bsn1_serde(skip_deserializing)] u8);"
    g = "T: ::bsn1_serde::ser::Serialize + ::bsn1_serde::de::Deserialize"
    for name, s in (("type", "struct S<%s>(T);" % g), ("where", "struct S<T>(T) where %s;" % g), ("default", "struct S<%s = u8> { a: T }" % g),
                    ("two", "enum S<%s, %s> { A(T), #[bsn1_serde(id = Set)] B { x: U } }" % (g, g.replace("T", "U", 1))),
                    ("constant", "struct S<const N: usize>(u8, #[bsn1_serde(skip, default = \"many\")] [u8; N]);\nfn many<const N: usize>() -> [u8; N] { [0; N] }"),
                    ("lifetime", "struct S<'a>(u8, #[bsn1_serde(skip)] Option<&'a u8>);"),
                    ("keywords", "struct S { r#type: u8, r#fn: u8 }"), ("keywords in a variant", "enum S { A { r#type: u8 }, #[bsn1_serde(id = Set)] B }"),
                    ("pub", "pub struct S { pub a: u8, pub(crate) b: u8 }"), ("nested", "struct S(Vec<Vec<u8>>, std::collections::BTreeMap<u8, String>);"),
                    ("many fields", "struct S(" + "u8, " * 20 + ");"), ("one variant", "enum S { A }"),
                    ("discriminant", "enum S { A = 3, #[bsn1_serde(id = Set)] B = 4 }")):
        yield "shape " + name, "#[derive(%s)]\n%s" % (both, s)


def module(k, src):
    extra = BOTH if "Both" in src else ""
    use = "use crate::support::{self, *};" if not extra else "use crate::support::{self, deep, out, out2, Mine};"
    return "mod m%d {\nuse bsn1_serde::{Deserialize, Serialize};\n%s\n%s\n%s}\n" % (k, use, src, extra)


def compile_crate(name, mods):
    """Errors per module, or a text when the compiler could not do its work."""
    d = os.path.join(WORK, "attributes", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'bsn1_serde = { path = "%s/bsn1_serde" }\nanyhow = "1"\n' % (name, REPO))
    lock = open(os.path.join(ROOT, "fixtures", "attributes.lock")).read().replace("attribute_witness", name)
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(lock)
    lines = SUPPORT.count("\n") + 1
    where = []
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(SUPPORT + "\n")
        for k, (_, src) in enumerate(mods):
            m = module(k, src)
            f.write(m)
            n = m.count("\n")
            where.append((lines + 1, lines + n))
            lines += n
    from check import env_base, forget
    forget([name, "bsn1", "bsn1_serde", "bsn1_serde_macros"], os.path.join(WORK, "attributes", "target"))
    e = env_base()
    e["CARGO_INCREMENTAL"] = "0"
    p = subprocess.run(["cargo", "+nightly", "check", "--message-format=json", "--target-dir", os.path.join(WORK, "attributes", "target")],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    hits = {}
    stray = []
    seen = False
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == name:
            seen = True
        if m.get("reason") != "compiler-message" or m["target"]["name"] != name:
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                stray.append(m["message"]["message"])
            continue
        if m["message"]["level"] != "error":
            continue
        seen = True
        placed = False
        for s in m["message"]["spans"]:
            for lo, hi, k in ((a, b, k) for k, (a, b) in enumerate(where)):
                if s["is_primary"] and lo <= s["line_start"] <= hi:
                    hits.setdefault(k, []).append(m["message"]["message"])
                    placed = True
        if not placed and not m["message"]["message"].startswith("aborting"):
            stray.append(m["message"]["message"])
    if not seen:
        return None, "the witness crate was not compiled:\n" + p.stderr[-3000:]
    return hits, stray


def run(prop, arg):
    import time
    bad, srcs = [], set()
    for rule, name, src in refusals():
        for d in ("Serialize", "Deserialize"):
            s = src.replace("{D}", d)
            if s in srcs:
                continue
            srcs.add(s)
            bad.append((rule, "%s: derive(%s)" % (name, d if "{D}" in src else "as named"), s))
    good = list(acceptances())
    violations, errors = [], []
    t0 = time.time()
    hits, stray = compile_crate("refusals", [(n, s) for _, n, s in bad])
    if hits is None:
        return [], [stray], {}
    per = {}
    for k, (rule, name, src) in enumerate(bad):
        per[rule] = per.get(rule, 0) + 1
        if k not in hits:
            violations.append((name, {
                "rule": rule, "msg": "the attribute is accepted, it has to be a compile error",
                "func": "derive macro", "site": "witness m%d" % k, "chain": src.splitlines(), "path": []}))
    hits, stray = compile_crate("acceptances", good)
    if hits is None:
        return [], [stray], {}
    for k in sorted(hits):
        violations.append((good[k][0], {
            "rule": "documented", "msg": "a documented combination does not compile: " + hits[k][0],
            "func": "derive macro", "site": "witness m%d" % k, "chain": good[k][1].splitlines(), "path": []}))
    if stray:
        errors += ["error outside of the witnesses: " + s for s in stray[:5]]
    floors = {"unknown": 150, "malformed": 500, "repeated": 200, "misplaced": 90, "exclusive": 1000, "out of range": 200,
              "transparent": 20, "inside a converted type": 40, "union": 2}
    for r, n in floors.items():
        if per.get(r, 0) < n:
            errors.append("only %d witnesses of the rule %s" % (per.get(r, 0), r))
    if len(good) < 500:
        errors.append("only %d acceptance witnesses" % len(good))
    return violations, errors, {
        "explanation": "Compile-fail witnesses: each violating use of an attribute has to be refused by the compiler where it "
                       "stands, and each documented use has to compile.",
        "refusal_witnesses": per, "refusal_witnesses_total": len(bad), "acceptance_witnesses": len(good),
        "witness_rule": "each refusal witness has a compile error inside its own module; the acceptance crate has none",
        "witness_wall_s": round(time.time() - t0, 1)}


def warm():
    hits, stray = compile_crate("warm", [("x", "#[derive(Serialize)]\nstruct S(u8);")])
    return hits is not None


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    v, e, x = run("C20", "")
    for n, f in v:
        print(f["rule"], "|", n, "|", f["msg"])
    print(len(v), e[:3], x)
