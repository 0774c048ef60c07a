"""Configuration of the checks: which binaries decide which property."""
MODELS = {"base": 0, "func": 1, "any": 2}


def bins(src, cases, models=("base", "func", "any"), extra=(), suffix="", **kw):
    out = []
    for m in models:
        b = {"name": "%s%s-%s" % (src, suffix, m), "src": src + ".cpp", "defs": ["MODEL=%d" % MODELS[m]] + list(extra), "cases": cases}
        b.update(kw)
        out.append(b)
    return out


def variants(src, cases, macro, values, **kw):
    return [b for v in values for b in bins(src, cases, extra=["%s=%s" % (macro, v)], suffix="%s%s" % (macro[0].lower(), v), **kw)]


LEVEL = {"C10": "fault_enumeration"}
ASSUME = [
    "libstdc++ 13 containers, clang 18 code generation and the sanitizer runtimes are correct",
    "element types behave as documented for acceptable types (comparison and hashing of std::type_info are those of the Itanium ABI)",
]
CHECKS = {
    "C01": {"bins": bins("c01", 60000)},
    "C02": {"bins": bins("c02", 40000)},
    "C03": {"bins": bins("c03", 20000)},
    "C04": {"bins": bins("c04", 40000)},
    "C05": {"bins": bins("c05", 30000)},
    "C06": {"bins": bins("c06", 40000)},
    "C07": {"bins": bins("c07", 20000)},
    "C08": {"bins": variants("c08", 10000, "FSET", (0, 1, 2))},
    "C09": {"bins": bins("c09", 40000)},
    "C10": {"bins": variants("c10", 12000, "FSET", (0, 7))},
    "C11": {"bins": variants("c11", 70000, "GROUP", (0, 1, 2), opt="-O0")},
    "C12": {"bins": variants("c12", 40000, "GROUP", (0, 1, 2), opt="-O0")},
    "C13": {"bins": bins("c13", 15000)},
    "C14": {"bins": bins("c14", 40000)},
    "C15": {"bins": bins("c15", 40000)},
    "C16": {"bins": bins("c16", 20000, san="thread", nondet=True)},
    "C17": {"bins": bins("c17", 12000) + bins("c17s", 12000, san="none", nofuzz=True, cflags=["-fsanitize-coverage=trace-pc-guard"])},
    "C18": {"bins": bins("c18", 15000)},
    "C19": {"bins": bins("c19", 15000) + bins("c19x", 20000, so="c19so.cpp", libs=["-ldl"])},
    "C20": {"bins": bins("c20", 80000)},
    "C21": {"bins": bins("c21", 40000)},
    "C22": {"bins": bins("c22", 40000)},
    "C23": {"bins": bins("c23", 80000)},
}
