"""C07: emission units of one substance convert exactly, others never."""
from fractions import Fraction

import z3

from pyvc.core import real
from pyvc.speclib import attempt, exc_name
from specs import unitdefs
from specs.unitdefs import GIVEN

U = "openscm.core.units:"
C = U + "UnitConverter"
B = z3.BoolVal

# The documented emission units: substance -> unit -> ratio to the first one, with further names.
ONE = Fraction(1)
SUBSTANCES = {
    "carbon": {"C": ONE, "CO2": Fraction(12, 44)},
    "methane": {"CH4": ONE},
    "nitrogen": {"N": ONE, "N2O": Fraction(14, 44), "N2ON": Fraction(14, 28), "NH3": Fraction(14, 17)},
    "NOx": {"NOx": ONE, "nox": ONE},
    "sulfur": {"S": ONE, "SO2": Fraction(32, 64), "SOx": Fraction(32, 64)},
    "black carbon": {"BC": ONE}, "organic carbon": {"OC": ONE}, "carbon monoxide": {"CO": ONE},
    "VOC": {"VOC": ONE, "NMVOC": ONE},
    "HFC4310mee": {"HFC4310mee": ONE, "HFC4310": ONE},
}
for _s in (
    "CFC11 CFC12 CFC13 CFC113 CFC114 CFC115 HCFC21 HCFC22 HCFC123 HCFC124 HCFC141b HCFC142b HCFC225ca HCFC225cb HFC23 HFC32 HFC41 HFC125 HFC134 "
    "HFC134a HFC143 HFC143a HFC152 HFC152a HFC161 HFC227ea HFC236cb HFC236ea HFC236fa HFC245ca HFC245fa HFC365mfc Halon1201 Halon1202 Halon1211 "
    "Halon1301 Halon2402 CF4 C2F6 cC3F6 C3F8 cC4F8 C4F10 C5F12 C6F14 C7F16 C8F18 C10F18 HFE125 HFE134 HFE143a HCFE235da2 HFE245cb2 HFE245fa2 "
    "HFE347mcc3 HFE347pcf2 HFE356pcc3 HFE449sl HFE569sf2 HFE4310pccc124 HFE236ca12 HFE338pcc13 HFE227ea HFE236ea2 HFE236fa HFE245fa1 HFE263fb2 "
    "HFE329mcc2 HFE338mcf2 HFE347mcf2 HFE356mec3 HFE356pcf2 HFE356pcf3 HFE365mcf3 HFE374pc2 PFPMIE CCl4 CHCl3 CH2Cl2 CH3CCl3 CH3Cl CH3Br SF5CF3 "
    "SF6 NF3"
).split():
    SUBSTANCES[_s] = {_s: ONE}
NAMES = {
    "C": ["carbon"], "CO2": ["carbon_dioxide"], "CH4": ["methane"], "N": ["nitrogen"], "N2O": ["nitrous_oxide"], "N2ON": ["nitrous_oxide_farming_style"],
    "NH3": ["ammonia"], "S": ["sulfur"], "SO2": ["sulfur_dioxide"], "BC": ["black_carbon"], "CO": ["carbon_monoxide"],
    "NMVOC": ["non_methane_volatile_organic_compounds"],
}
# units of mass and time that must keep their meaning
KEPT = {n: v for n, v in GIVEN.items() if not isinstance(v, str) and n != "kt"}
TIMES = {"a": "year", "annum": "year", "yr": "year", "h": "hour", "d": "day"}


def build(v):
    v.trust("pint: contract of definitions in specs/unitdefs.py; without context, quantities convert if and only if their base units have equal dimensions, by the ratio of their numbers; prefixes multiply the unit they precede")
    v.assume("emission units are those documented (the table in this file)")

    @v.unit("definitions", functions=[U + "ScmUnitRegistry." + f for f in ("add_standards", "_add_gases", "_add_mass_emissions_joint_version")], covers=["end"])
    def definitions(it, ctx):
        _, reg = unitdefs.standards(it)

        def get(n):
            try:
                return reg.name(n)
            except KeyError:
                return None

        roots = {}
        for sub, units in SUBSTANCES.items():
            first = next(iter(units))
            r0 = get(first)
            ok = r0 is not None and r0[0] == 1 and len(r0[1]) == 1 and list(r0[1].values()) == [1] and next(iter(r0[1])) not in unitdefs.GIVEN_DIMS
            ctx.oblige("%s: a dimension of its own" % sub, B(bool(ok)))
            if not ok:
                continue
            root = r0[1]
            roots.setdefault(reg.dim_of_root(next(iter(root))), []).append(sub)
            for u, f in units.items():
                for n in dict.fromkeys([u, u.upper()] + NAMES.get(u, [])):
                    ctx.oblige("%s is %s %s" % (n, f, first), B(get(n) == (f, root)))
                for n in dict.fromkeys([u, u.upper()]):
                    ctx.oblige("g%s and t%s are masses of %s" % (n, n, n), B(
                        get("g" + n) == (f, dict(root, gram=1)) and get("t" + n) == (f * 10 ** 6, dict(root, gram=1))))
        ctx.oblige("different substances have different dimensions", B(all(len(s) == 1 for s in roots.values())))
        ctx.oblige("units of mass and time keep their meaning", B(all(get(n) == w for n, w in KEPT.items())))
        ctx.oblige("kt is a thousand tons", B(get("kt") == (Fraction(10) ** 9, {"gram": 1})))
        for n, w in TIMES.items():
            if n in reg.d or n not in ("annum", "yr"):
                ctx.oblige("%s is a %s" % (n, w), B(get(n) == KEPT[w]))
        ctx.cover("end")

    FORMS = ["{}", "t{}", "Gt {} / yr", "kt{} / day", "g{}", "mg {} / s", "kg {} / month"]
    MASS = [1, 10 ** 6, 10 ** 15, 10 ** 9, 1, Fraction(1, 1000), 1000]
    TIME = [1, 1, KEPT["year"][0], KEPT["day"][0], 1, 1, KEPT["month"][0]]

    def compatible(i, j):
        return ((i == 0) == (j == 0)) and ("/" in FORMS[i]) == ("/" in FORMS[j])

    @v.unit("conversions within a substance", functions=[C + ".__init__", C + ".convert_from", C + ".convert_to"], covers=["end"])
    def within(it, ctx):
        unitdefs.standards(it)
        cls = it.cls(C)
        x = ctx.real("x")
        for sub, units in SUBSTANCES.items():
            names = [(n, f) for u, f in units.items() for n in dict.fromkeys([u, u.upper()])]
            good, bad = [], ""
            for k, (a, fa) in enumerate(names):
                for m, (b, fb) in enumerate(names):
                    for i, j in (((k + m) % 7, (k + 3 * m) % 7), (0, 0), (1, 4), (2, 3)):
                        if not compatible(i, j):
                            continue
                        s, t = FORMS[i].format(a), FORMS[j].format(b)
                        o, e = attempt(it, lambda: it.instantiate(cls, [s, t], {}))
                        if e is not None:
                            bad = "%s to %s: %s" % (s, t, exc_name(e))
                            break
                        r = (fa * MASS[i] / TIME[i]) / (fb * MASS[j] / TIME[j])
                        good.append(real(it.call(it.getattr(o, "convert_from"), [x], {})) == x * z3.RealVal(r))
                        good.append(real(it.call(it.getattr(o, "convert_to"), [x], {})) == x / z3.RealVal(r))
            if bad:
                ctx.fail("%s: every unit converts into every other" % sub, bad)
            else:
                ctx.oblige("%s: every unit converts into every other by the documented ratio, and back" % sub, z3.And(good))
        ctx.cover("end")

    subs = list(SUBSTANCES)
    for part in range(4):
        @v.unit("conversions between substances (part %d)" % (part + 1), functions=[C + ".__init__"], covers=["end"])
        def between(it, ctx, part=part):
            unitdefs.standards(it)
            cls = it.cls(C)
            for k, a in enumerate(subs):
                if k % 4 != part:
                    continue
                bad = ""
                for m, b in enumerate(subs):
                    if a == b:
                        continue
                    x, y = list(SUBSTANCES[a])[m % len(SUBSTANCES[a])], list(SUBSTANCES[b])[k % len(SUBSTANCES[b])]
                    form = FORMS[(k + m) % 7]
                    o, e = attempt(it, lambda: it.instantiate(cls, [form.format(x), form.format(y)], {}))
                    if e is None or exc_name(e) != "DimensionalityError":
                        bad = "%s to %s" % (form.format(x), form.format(y))
                if bad:
                    ctx.fail("%s does not convert into another substance" % a, bad)
                else:
                    ctx.oblige("%s does not convert into another substance" % a, B(True))
            ctx.cover("end")
