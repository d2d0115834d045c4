"""Which cases and rules decide which property."""
from . import arith, arith2, wide, roots, convert, text, configs, rules, serde_, wrappers, parity, literals, floats, types, fromf64, misc


class Prop:
    def __init__(self, cases=(), rules=(), level="proof", cfgs=(), sources=None, deps=(), trusted=(), assumptions=()):
        self.cases, self.rules, self.level, self.cfgs = list(cases), list(rules), level, list(cfgs)
        self.sources, self.deps = sources or {}, list(deps)
        self.trusted, self.assumptions = list(trusted), list(assumptions)


def full(gen):
    """Every layout and precision in the quick tier too, where that is cheap."""
    def g(tier):
        return gen("thorough")
    g.__name__ = gen.__name__
    return g


PROPS = {
    "C01": Prop([full(arith.c01)]),
    "C02": Prop([full(arith2.c02), wide.c13]),
    "C05": Prop([full(arith2.c05), wide.c13]),
    "C06": Prop([full(arith2.c06)]),
    "C07": Prop([full(arith2.c07)]),
    "C08": Prop([roots.c08, wide.core]),
    "C09": Prop([full(arith2.c09)]),
    "C10": Prop([full(arith2.c10)]),
    "C11": Prop([full(convert.c11)]),
    "C12": Prop([full(arith2.c12)]),
    "C14": Prop([fromf64.c14]),
    "C15": Prop([full(floats.c15)]),
    "C16": Prop([full(text.c16)]),
    "C17": Prop([lambda tier: text.c17(tier, (1, 2, 3, 5, 6, 7, 8, 10, 12, 13, 15, 17, 19, 20, 25, 30, 37))]),
    "C18": Prop([configs.c18], rules=[rules.unsafe_sites]),
    "C19": Prop([serde_.c19], sources={"all": [serde_.HARNESS]}, deps=serde_.DEPS),
    "C20": Prop([full(serde_.c20), serde_.c20_xml], sources={"all": [serde_.HARNESS], "xml": [serde_.HARNESS, serde_.XML]}, deps=serde_.DEPS),
    "C21": Prop([full(parity.c21)], sources={"all": [parity.HARNESS]}, deps=parity.DEPS),
    "C30": Prop([configs.c30]),
    "C22": Prop([misc.c22], sources={"all": [misc.TEXT]}),
    "C29": Prop([full(misc.c29)], sources={"all": [misc.SCHEMA]}, deps=misc.SCHEMA_DEPS),
    "C24": Prop(rules=[types.rejected, types.rejected_consts, types.accepted], level="other", assumptions=["a number type behaves alike at all precisions: witnesses are enumerated for some of them in the quick tier, for all in the thorough tier"]),
    "C25": Prop([literals.c25]),
    "C26": Prop([wrappers.c26, wide.c13]),
    "C27": Prop([full(arith2.c27)], sources={"all": [arith2.HASHER]}),
    "C28": Prop([arith2.c28]),
    "C03": Prop([full(arith.c03), wide.c13]),
    "C04": Prop([full(arith.c04), wide.c13]),
    "C13": Prop([wide.c13_full, roots.c13_root]),
}
