"""What each property's check runs."""

ASSUMPTIONS = [
    "TLC and the TLA+ CommunityModules evaluate the specification correctly",
    "the recording harness reports the calls' results faithfully (it compares nothing itself)",
    "the crate is sequential: a session of calls is a complete observation of it",
]


def rec(profile, kind, quick, thorough, level="value", bin="harness"):
    def make(tier):
        return dict(do="record", name=profile.split(":")[0] + ("" if bin == "harness" else "-" + bin), profile=profile,
                    kind=kind, level=level, bin=bin, count=quick if tier == "quick" else thorough)
    return make


def mc(name, module, env, quick=True, thorough=True, level="value", **kw):
    """env values are constants or (quick, thorough) pairs"""
    def make(tier):
        if not (quick if tier == "quick" else thorough):
            return None
        e = {k: (v[0 if tier == "quick" else 1] if isinstance(v, tuple) else v) for k, v in env.items()}
        return dict(do="mc", name=name + ("-" + kw["bin"] if "bin" in kw else ""), module=module, env=e, level=level, **kw)
    return make


def reader(mode, kq, kt, level="value", wrap=0):
    return mc("mc-" + mode, "MCReader", {"MODE": mode, "K": (kq, kt), "WRAP": wrap}, level=level)


def typed(mode, kq, kt, **kw):
    return mc("mc-" + mode, "MCTyped", {"MODE": mode, "K": (kq, kt)}, **kw)


def derived(b):
    return [typed("derived", 1, 3, bin=b), rec("encodes", "typed", 6000, 60000, bin=b), rec("decodes", "typed", 8000, 100000, bin=b),
            rec("whole", "typed", 4000, 60000, bin=b), rec("raws", "typed", 4000, 60000, bin=b),
            rec("encodes+big", "typed", 300, 6000, bin=b), rec("decodes+big", "typed", 300, 6000, bin=b)]


GRAMMAR = mc("mc-grammar", "MCGrammar", {}, emit=False)
FLOATS = [mc("mc-halves", "MCFloat", {"MODE": "halves", "K": 1}), mc("mc-singles", "MCFloat", {"MODE": "singles", "K": (1, 2)}),
          mc("mc-doubles", "MCFloat", {"MODE": "doubles", "K": (1, 2)})]

TAGGED = "datetime,posbig,negbig,encoded,rational"
PLAIN = ("bool,u8,u16,u32,u64,text,bytes,b0,b1,b4,b16,b24,b32,b64,b256,b300,scalar,simple,list_u8,list_u16,list_u64,list_text,list_bytes,"
         "list_bool,list_scalar,list_list_u16,list_b4")
# what can be long without much being said about every part of it
LONG = "list_u8,list_bool,text,bytes,b32,data,raw_data"
RAW = "raw_u16,raw_text,raw_data,raw_list_u16,list_raw_u16,data"

S = {
    "C01": [reader("reenc", 2, 3), rec("reencode", "reader", 15000, 300000),
            rec("reencode+big", "reader", 300, 6000),
            rec("reencode+huge", "reader", 12, 150)],
    "C02": [GRAMMAR, reader("items", 2, 3, wrap=1), rec("wellformed", "reader", 10000, 200000),
            rec("validates_one", "validator", 5000, 100000),
            rec("wellformed+big", "reader", 400, 10000), rec("wellformed+huge", "reader", 24, 600)] + [
            mc("mc-" + m, "MCHostile", {"MODE": m, "K": (30, 150)}) for m in ("nest", "flat")],
    "C03": [mc("mc-" + m, "MCHostile", {"MODE": m, "K": (30, 150)}) for m in ("nest", "flat", "claim")] + [
            rec("hostile", "total", 6000, 100000)],
    "C04": [GRAMMAR, mc("mc-feeder", "MCFeeder", {"K": (3, 4)}), rec("refills", "feeder", 6000, 100000), rec("refills_all", "feeder", 4000, 100000),
            rec("refills+big", "feeder", 250, 5000), rec("refills+huge", "feeder", 10, 120)],
    "C05": [reader("reads", 2, 3, level="pos"), rec("reads", "reader", 12000, 200000, level="pos"),
            rec("reads+big", "reader", 400, 10000, level="pos"), rec("reads+huge", "reader", 16, 400, level="pos")],
    "C06": [reader("values", 3, 4), rec("values", "reader", 15000, 300000),
            rec("values+big", "reader", 400, 10000), rec("values+huge", "reader", 40, 800)],
    "C07": [typed("native", 2, 3), rec("encodes:" + PLAIN, "typed", 12000, 200000), rec("decodes:" + PLAIN, "typed", 8000, 200000),
            rec("encodes+big:" + PLAIN, "typed", 400, 10000), rec("decodes+big:" + PLAIN, "typed", 400, 10000),
            rec("encodes+huge:" + LONG, "typed", 10, 100), rec("decodes+huge:" + LONG, "typed", 10, 100)],
    "C08": [typed("narrow", 1, 1), rec("narrow", "typed", 20000, 300000)],
    "C09": [reader("parts", 3, 4), rec("parts", "reader", 15000, 300000),
            rec("parts+big", "reader", 300, 6000), rec("parts+huge", "reader", 12, 200)],
    "C10": [mc("mc-calls", "MCWriter", {"MODE": "calls", "K": (2, 3)}), mc("mc-shapes", "MCWriter", {"MODE": "shapes", "K": (3, 4)}),
            rec("writes", "writer", 15000, 300000),
            rec("writes+big", "writer", 600, 20000), mc("mc-fills", "MCWriter", {"MODE": "fills", "K": (2, 3)}), rec("writes+huge", "writer", 40, 1000)],
    "C11": [typed("whole", 2, 6), rec("whole", "typed", 15000, 300000),
            rec("whole+big", "typed", 250, 6000), rec("whole+huge:nothing,two," + LONG, "typed", 12, 120)],
    "C12": [typed("raw", 2, 4), rec("raws", "typed", 15000, 300000),
            rec("raws+big", "typed", 250, 6000), rec("raws+huge:" + LONG, "typed", 8, 80)],
    "C13": derived("structs"),
    "C14": derived("enums"),
    "C15": [typed("tagged", 2, 5), rec("decodes:" + TAGGED, "typed", 15000, 300000), rec("encodes:" + TAGGED, "typed", 4000, 100000),
            rec("encodes+big:" + TAGGED, "typed", 200, 5000), rec("decodes+big:" + TAGGED, "typed", 300, 6000), rec("decodes+huge:" + TAGGED, "typed", 20, 400)],
    "C16": FLOATS + [rec("floats", "reader", 8000, 100000)],
    "C17": [reader("reads", 2, 3, level="report"), reader("values", 2, 3, level="report"), reader("parts", 2, 3, level="report"),
            typed("native", 1, 3, level="report"), typed("tagged", 1, 3, level="report"), typed("raw", 1, 3, level="report"), typed("whole", 1, 3, level="report"),
            typed("narrow", 1, 1, level="report"), mc("mc-validator", "MCValidator", {"K": (2, 3)}, level="report"),
            typed("derived", 1, 2, level="report", bin="structs"), typed("derived", 1, 2, level="report", bin="enums"),
            rec("errors", "reader", 15000, 200000, level="report"), rec("validates_one", "validator", 5000, 100000, level="report"),
            rec("decodes", "typed", 10000, 200000, level="report"),
            rec("decodes", "typed", 6000, 100000, level="report", bin="structs"),
            rec("decodes", "typed", 6000, 100000, level="report", bin="enums"),
            rec("errors+big", "reader", 300, 6000, level="report"), rec("errors+huge", "reader", 16, 200, level="report"), rec("decodes+big", "typed", 300, 6000, level="report"), rec("decodes+huge:" + LONG, "typed", 8, 80, level="report")],
    "C18": [mc("mc-validator", "MCValidator", {"K": (3, 4)}), rec("validates", "validator", 12000, 200000),
            rec("validates+big", "validator", 400, 10000), rec("validates+huge", "validator", 12, 300)],
    "C19": [mc("mc-paths", "MCAcceptor", {"MODE": "paths", "K": (3, 4)}),
            mc("mc-stacks", "MCAcceptor", {"MODE": "stacks", "K": (2, 3)}, cfg="MCAcceptorStacks.cfg"), rec("events", "acceptor", 15000, 300000),
            rec("events+big", "acceptor", 400, 10000)],
    "C20": [mc("mc-eq", "MCEq", {"K": (1, 2)}), rec("pairs", "pair", 15000, 300000),
            rec("pairs+big", "pair", 250, 5000), rec("pairs+huge", "pair", 5, 80)],
}

STAGES = {k: (lambda l: lambda tier: [s for s in (m(tier) for m in l) if s])(v) for k, v in S.items()}

NOTES = {
    "C01": "Every item of up to 2 (thorough: 3) pieces through 17 ways from reading to writing.",
    "C02": "All byte strings of up to 6 bytes over an alphabet of heads decide acceptor = grammar; every input of up to 2 (3) pieces, also inside each kind of container, goes through reader, validator and raw slice.",
    "C03": "Outcomes uniform in the number of repetitions of a piece are checked for few and expected for 30 (150) thousand; overflow checks on, the crate unoptimised, 128 KB of stack, memory counted, time by processor time.",
    "C04": "Every cut of every item of up to 3 (4) pieces, 7 ways to take the item, with a refill loop.",
    "C05": "Every lead byte, every input of up to 2 (3) pieces, every typed read on each.",
    "C07": "Boundary values of every native type, every spelling of each and near misses.",
    "C08": "Every header width times the numbers around every limit.",
    "C10": "Every program of up to 2 (3) calls, shapes of 3 (4).",
    "C13": "Types of a generated family, sampled schemas come from the seed.",
    "C14": "Types of a generated family, sampled schemas come from the seed.",
    "C16": "All halves; singles and doubles of every exponent around every rounding boundary. Which NaN comes out is left open.",
    "C17": "Reports are compared in full; where two reports are true either is accepted; free text has to contain its words and numbers.",
    "C18": "Every buffer of up to 3 (4) pieces, 3 calls beyond the end.",
    "C19": "Every accepted history of up to 3 (4) events; every stack of up to 2 (3) containers with counts up to 2^64-1.",
}
