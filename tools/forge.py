"""What the signatures reachable by safe user code permit (elements and identifiers can not be
forged, outlived or aliased)."""

import json
import os
import subprocess

from check import ANALYZER, REPO, ROOT, TRIPLE, WORK, env_base, forget, sysroot

TARGET = os.path.join(WORK, "api")
DIR = os.path.join(ROOT, "fixtures", "api")

ELEMENTS = {"Ber", "BerRef", "Der", "DerRef"}
GUARDED = ELEMENTS | {"Id", "IdRef"}
# what a value can be taken out of without being checked again
SOURCES = {
    "Der": {"Der", "DerRef"}, "DerRef": {"Der", "DerRef"},
    "Ber": ELEMENTS, "BerRef": ELEMENTS,
    "Id": GUARDED, "IdRef": GUARDED,
}
# safe functions making a value from something else; what they make is judged by the named check
MAKERS = {
    ("Ber", "new"): "C06", ("Ber", "with_id_length"): "C06", ("Ber", "from_id_iterator"): "C06",
    ("Der", "new"): "C06", ("Der", "with_id_length"): "C06", ("Der", "from_id_iterator"): "C06",
    ("Ber", "parse"): "C03", ("BerRef", "parse"): "C03", ("BerRef", "parse_mut"): "C03",
    ("Der", "parse"): "C03", ("DerRef", "parse"): "C03", ("DerRef", "parse_mut"): "C03",
    ("Id", "parse"): "C01", ("IdRef", "parse"): "C01", ("IdRef", "parse_mut"): "C01",
    ("Id", "new"): "C06", ("BerRef", "eoc"): "C21", ("DerRef", "boolean"): "C21",
    ("bsn1_serde", "to_der"): "C21", ("bsn1_serde", "to_ber"): "C21",
}
PLAIN = {"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize", "str"}
# functions which rely on their caller, besides those whose name ends with "unchecked"
UNSAFE = {
    ("Ber", "new_indefinite"), ("Ber", "with_id_length_indefinite"), ("Ber", "from_id_iterator_indefinite"),
    ("Ber", "from_bytes_unchecked"), ("Ber", "from_vec_unchecked"), ("BerRef", "from_bytes_unchecked"),
    ("BerRef", "from_mut_bytes_unchecked"), ("Der", "from_bytes_unchecked"), ("Der", "from_vec_unchecked"),
    ("DerRef", "from_bytes_unchecked"), ("DerRef", "from_mut_bytes_unchecked"), ("Id", "from_bytes_unchecked"),
    ("IdRef", "from_bytes_unchecked"), ("IdRef", "from_mut_bytes_unchecked"), ("ContentsRef", "to_integer_unchecked"),
    ("Buffer", "push"), ("Buffer", "extend_from_slice"), ("Buffer", "set_len"), ("Deserialize", "from_ber"),
}
THREADS = {"Ber", "BerRef", "Der", "DerRef", "Id", "IdRef", "Contents", "ContentsRef", "Length", "Error", "ClassTag", "PCTag", "TagNumber"}


def last(path):
    return path.split("<")[0].split("::")[-1]


def walk(t):
    yield t
    for a in t["a"]:
        yield from walk(a)


def adts(t):
    return {last(x["n"]) for x in walk(t) if x["k"] == "adt"}


def show(t):
    k = t["k"]
    if k == "ref":
        return "&%s%s%s" % ("" if t["r"] == "erased" else "'" + t["r"] + " ", "mut " if t["mut"] else "", show(t["a"][0]))
    if k == "ptr":
        return "*%s %s" % ("mut" if t["mut"] else "const", show(t["a"][0]))
    if k in ("slice", "array"):
        return "[%s]" % show(t["a"][0])
    if k == "tuple":
        return "(%s)" % ", ".join(show(a) for a in t["a"])
    if k == "adt":
        a = t["rs"] + [show(x) for x in t["a"]]
        return last(t["n"]) + ("<%s>" % ", ".join(a) if a else "")
    return t["n"]


def regions(t, shared=False):
    """(region, whether it grants writing) a caller hands over, outermost first."""
    if t["k"] == "ref":
        if not (shared and t["mut"]):
            yield t["r"], t["mut"]
        shared = shared or not t["mut"]
    if t["k"] == "adt":
        for r in t["rs"]:
            yield r, False
    for a in t["a"]:
        yield from regions(a, shared)


def wanted(t):
    """(region, whether it grants writing) the caller receives."""
    if t["k"] == "ref":
        yield t["r"], t["mut"]
    if t["k"] == "adt":
        for r in t["rs"]:
            if r != "static":  # a type which can own its data
                yield r, False
    for a in t["a"]:
        yield from wanted(a)


def closure(have, bounds):
    have = set(have)
    more = True
    while more:
        more = False
        for b in bounds:
            if b[0] == "region" and b[1] in have and b[2] not in have and b[2] != "static":
                have.add(b[2])
                more = True
    return have


def plain(t):
    """A value which is not octets of the user's choice in the shape of an element."""
    return all(x["k"] in ("prim", "ref", "slice") and (x["k"] != "prim" or x["n"] in PLAIN) for x in walk(t))


def judge(item):
    """The rules which one public item breaks."""
    w = item["what"]
    if w == "type":
        if item["name"] in GUARDED and item["public_fields"]:
            yield "fields", "the octets are reachable through the public field %s" % ", ".join(item["public_fields"])
        if item["name"] in THREADS:
            for m in ("Send", "Sync"):
                if not item[m]:
                    yield "threads", "the type is not %s" % m
        return
    if w == "cast":
        if not any(m for t in item["in"] for _, m in regions(t)) and not any(
                x["k"] == "ptr" and x["mut"] for t in item["in"] for x in walk(t)) and any(x["k"] in ("ref", "ptr") for t in item["in"] for x in walk(t)):
            yield "shared", "a pointer for reading becomes one for writing, though no argument grants writing"
        return
    if w != "fn":
        return
    owner = last(item["owner"].replace("&'a ", "").replace("mut ", "").replace("&", ""))
    name = item["name"]
    if ((owner, name) in UNSAFE or name.endswith("_unchecked")) and item["via"] in ("", "trait") and item["safe"]:
        yield "unsafe", "the function skips validation but is not marked unsafe"
        return
    if not item["safe"]:
        return
    ins, out = item["in"], item["out"]
    rins, rout = item["in_resolved"], item["out_resolved"]
    given = set().union(*[adts(t) for t in rins]) if rins else set()
    made = adts(rout) & GUARDED
    for m in sorted(made):
        if given & SOURCES[m]:
            continue
        if (owner, name) in MAKERS and item["via"] == "":
            continue
        if m == "IdRef" and not ins and list(wanted(out)) == [("static", False)]:
            continue  # a constant
        if m in ("Ber", "Der") and last(item["via"]) == "From" and len(rins) == 1 and plain(rins[0]):
            continue  # the contents of a new element
        yield "forge", "safe code gets %s from %s without a check" % (m, ", ".join(map(show, ins)) or "nothing")
    octets = lambda t: t["k"] in ("slice", "array", "alias") or (t["k"] == "prim" and t["n"] in ("u8", "str")) or (
        t["k"] == "adt" and last(t["n"]) in ("Vec", "Buffer", "MaybeUninit"))
    if given & GUARDED and "ContentsRef" not in given:
        for t in walk(rout):
            if t["k"] in ("ref", "ptr") and t["mut"] and octets(t["a"][0]):
                yield "octets", "all octets of %s are handed out for writing" % ", ".join(sorted(given & GUARDED))
        if item["via"].startswith("std::io::Write") or last(item["via"]) == "Extend":
            yield "octets", "octets can be appended past the length"
    bounds = item["bounds"]
    have = [r for t in ins for r in regions(t)]
    shared = closure([r for r, _ in have], bounds)
    mutable = closure([r for r, m in have if m], bounds)
    for r, m in wanted(out):
        if r == "static":
            if m or any(x["k"] in ("ref", "ptr", "adt") for t in ins for x in walk(t)):
                yield "outlive", "the result claims to live forever"
        elif m and r not in mutable:
            if r in shared:
                yield "shared", "a shared argument yields a result for writing"
            else:
                yield "outlive", "the lifetime of the result is not that of an argument"
        elif r not in shared:
            yield "outlive", "the lifetime of the result is not that of an argument"


def name_of(i):
    if i["what"] == "fn":
        o = i["owner"] if not i["via"] or i["via"] == "trait" else "<%s as %s>" % (i["owner"], i["via"])
        return "%s::%s" % (o, i["name"])
    return i.get("name", "?")


def dump():
    out = os.path.join(WORK, "api_%d.json" % os.getpid())
    if os.path.exists(out):
        os.remove(out)
    e = env_base()
    e.update({
        "VERIF_CRATE": "fixture_api", "VERIF_API": "bsn1,bsn1_serde,.bad", "VERIF_OUT": out, "VERIF_REPO": REPO,
        "RUSTC_WORKSPACE_WRAPPER": ANALYZER, "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "CARGO_INCREMENTAL": "0",
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -Ainvalid_reference_casting",
    })
    forget(["fixture_api", "bsn1", "bsn1_serde", "bsn1_serde_macros"], TARGET)
    p = subprocess.run(["cargo", "+nightly", "check", "-q", "--target", TRIPLE, "--target-dir", TARGET],
                       cwd=DIR, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        return None, p.stdout
    with open(out) as f:
        r = json.load(f)
    os.remove(out)
    return r, p.stdout


def warm():
    r, log = dump()
    if r is None:
        raise SystemExit(log)


def run(prop, arg):
    roots, log = dump()
    if roots is None:
        return [], ["fixture api does not build:\n" + log[-4000:]], {}
    by = {r["root"]: r["items"] for r in roots}
    violations, errors = [], []
    for root in ("bsn1", "bsn1_serde"):
        for i in by.get(root, []):
            for rule, msg in judge(i):
                violations.append((rule, {"rule": rule, "msg": msg, "func": name_of(i), "site": i.get("site", ""), "chain": [], "path": []}))
    # an item can be reachable in more than one way
    violations = list({(v["rule"], v["func"]): (n, v) for n, v in violations}.values())
    # every rule fires on its example, and on nothing else there
    fired = {}
    for i in by.get(".bad", []):
        r = sorted({rule for rule, _ in judge(i)})
        if r:
            fired[name_of(i)] = r
    want = {
        "Ber": ["fields"], "Der": ["threads"], "DerRef::bad_forge": ["forge"], "DerRef::bad_convert": ["forge"],
        "DerRef::bad_unbound": ["outlive"], "DerRef::bad_static": ["outlive"], "DerRef::bad_mutable": ["shared"],
        "DerRef::bad_octets": ["octets"], "DerRef::bad_length": ["octets"], "DerRef::bad_skip_unchecked": ["unsafe"],
        "DerRef::bad_reborrow": ["outlive"], "<bad::Id as std::default::Default>::default": ["forge"],
        "<bad::Der as std::convert::From<std::vec::Vec<u8>>>::from": ["forge"],
        "<bad::IdRef as std::ops::DerefMut>::deref_mut": ["octets"],
        "<bad::Ber as std::io::Write>::write": ["octets"], "<bad::Ber as std::io::Write>::flush": ["octets"],
        "bad::DerRef::bad_mutable": ["shared"], "bad::DerRef::bad_transmute": ["shared"],
        "bad::DerRef::bad_cast": ["shared"], "bad::DerRef::bad_address": ["shared"],
    }
    if fired != want:
        errors.append("the rules fire on their examples as %s" % sorted(set(map(str, fired.items())) ^ set(map(str, want.items()))))
    # nothing of what is expected has gone missing
    fns = [i for r in ("bsn1", "bsn1_serde") for i in by.get(r, []) if i["what"] == "fn"]
    there = {(last(i["owner"]), i["name"]) for i in fns}
    types = {i["name"]: i for i in by.get("bsn1", []) if i["what"] == "type"}
    for n in sorted(THREADS - set(types)):
        errors.append("type %s not found" % n)
    for n in sorted(UNSAFE - there) + sorted(set(MAKERS) - there):
        errors.append("function %s::%s not found" % n)
    bodies = {r: sum(i["n"] for i in by.get(r, []) if i["what"] == "bodies") for r in by}
    for r, least in (("bsn1", 300), ("bsn1_serde", 140)):
        if bodies.get(r, 0) < least:
            errors.append("only %d bodies of %s" % (bodies.get(r, 0), r))
    if len(fns) < 500:
        errors.append("only %d functions" % len(fns))
    x = {
        "signatures": {
            "functions_judged": len(fns), "unsafe": sum(not i["safe"] for i in fns), "public_types": len(types),
            "makers_decided_elsewhere": {"%s::%s" % k: v for k, v in sorted(MAKERS.items())},
            "bodies_searched_for_casts": bodies, "examples_refused": len(want),
            "rules": ["forge", "unsafe", "octets", "fields", "outlive", "shared", "threads"],
        },
    }
    return violations, errors, x
