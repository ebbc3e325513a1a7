"""Which fixtures and driver prefixes decide each property."""

CHECKS = {
    "C01": [("core", "c01_")],
    "C02": [("core", "c02_")],
    "C03": [("core", "c03_")],
    "C06": [("core", "c06_")],
    "C07": [("core", "c07_")],
    "C08": [("core", "c08_")],
    "C09": [("core", "c09_")],
    "C10": [("core", "c10_")],
    "C11": [("core", "c11_")],
    "C04": [("core", "c04_")],
    "C05": [("core", "c05_"), ("serde", "c05_")],
    "C12": [("core", "c12_")],
    "C13": [("serde", "c13_")],
    "C14": [("serde", "c14_")],
    "C15": [("serde", "c15_")],
    "C16": [("serde", "c16_"), ("derive", "c16_")],
    "C17": [("serde", "c17_"), ("derive", "c17_")],
    "C18": [("derive", "c18_")],
    "C19": [("derive", "c19_")],
    "C20": [("@attributes", "")],
    "C21": [("@forge", ""), ("core", "c21_"), ("serde", "c21_")],
    "C22": [("core", "c22_")],
    "C23": [("core", "c23_")],
    "C24": [("core", "c24_"), ("serde", "c24_")],
}

TECH = {
    "C21": "rules over the resolved signatures and MIR casts of the public API, and abstract interpretation of MIR for the values",
    "C20": "compile-fail witnesses with compiling twins, generated for every argument, place and combination",
}

NOTES = {
    "C21": "Every function, type and implementation reachable from outside is judged by its resolved signature; the safe functions "
           "making elements and the mutable views are decided by value analysis. Nothing is executed. Mutation hidden behind "
           "unsafe code that keeps an honest signature is seen only as a pointer cast.",
    "C20": "Decided by the compiler expanding the derive macros of the current source on generated items; nothing of the "
           "result is run. Covers every argument in every place and every pair of arguments, and the listed malformed values.",
}
