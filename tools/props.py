"""What each check runs: the Verus unit, the unit files whose obligations it owns, and the
bounded contract checks that accompany it (module of harness/, support modules first)."""

TERM_SUPPORT = ["terms"]

PROPS = {
    "C01": dict(unit="c01.vu", owns=["term_core.vi", "c01.vi"], harness="c01"),
    "C02": dict(unit="c02.vu", owns=["c02.vi"], harness="c02"),
    "C03": dict(unit="c03.vu", owns=["c03.vi", "lctx.vi", "c03x.vi"], harness="c03"),
    "C04": dict(unit="c04.vu", owns=["c04.vi"], harness="c04"),
    "C05": dict(unit="c05.vu", owns=["c05.vi"], harness="c05"),
    "C06": dict(unit="c06.vu", owns=["c06.vi"], harness="c06", support=["terms", "models"]),
    "C07": dict(unit="c07.vu", owns=["c07.vi"], harness="c07"),
    "C08": dict(unit="c08.vu", owns=["c08.vi"], harness="c08", support=["terms", "models"]),
    "C09": dict(unit="c09.vu", owns=["c09.vi"], harness="c09", support=["terms", "models"]),
    "C12": dict(unit="c12.vu", owns=["c12.vi"], harness="c12", support=["terms", "models"]),
    "C13": dict(unit="c13.vu", owns=["c13.vi"], harness="c13", support=[]),
    "C23": dict(unit="c23.vu", owns=["c23.vi"], harness="c23", support=[]),
    "C17": dict(unit="c17.vu", owns=["c17.vi"], harness="c17", support=[]),
    "C16": dict(unit="c16.vu", owns=["c16.vi"], harness="c16"),
}
for p in PROPS.values():
    p.setdefault("support", TERM_SUPPORT)
