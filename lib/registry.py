"""Which contract files, replays and options decide each property."""
COMMON_ASSUMPTIONS = [
    "Verus/Z3 are sound; floating point is read as exact real arithmetic (no NaN, rounding or overflow of floats) in every deductive obligation",
    "the extractor tools/rs2v preserves meaning (iterator chains, for loops and compound assignments are rewritten into while loops; casts to float into vx_to_r)",
    "Polars, PyO3, rayon, numpy, faer and cfavml behave as their contracts in contracts/prelude*.rs state, where a contract mentions them",
]
PROPS = {}


def prop(pid, **k):
    k.setdefault("units", [])
    k.setdefault("level", "proof" if k["units"] or k.get("z3") else "exploration")
    PROPS[pid] = k


Z3 = ["N01", "N02", "N03", "N04", "R01", "R02", "R03", "R05", "M01", "M02", "M03", "S01", "S02", "S03", "F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "G01", "P01", "P02", "P03", "P04"]
UNITS = {"N01": ["kdt.vrs", "okdt.vrs", "knnp.vrs"], "N02": ["kdt.vrs", "okdt.vrs", "knnp.vrs"], "N03": ["kdt.vrs", "knnr.vrs", "knnp.vrs"], "N04": ["par.vrs", "knnp.vrs", "strdist.vrs", "strsets.vrs"], "N05": ["okdt.vrs"],
         "S01": ["strdist.vrs"], "S02": ["strsets.vrs"], "F01": ["iso.vrs"], "F02": ["trapz.vrs", "conv.vrs"], "F03": ["psi.vrs", "woe.vrs"], "F04": ["benford.vrs", "iter.vrs", "jac.vrs"], "F05": ["ranks.vrs", "ttest.vrs"], "F06": ["seq.vrs", "par.vrs", "cent.vrs"], "F07": ["kendall.vrs", "xi.vrs"], "F08": ["scalar.vrs", "plug.vrs"], "G01": ["sample.vrs"], "R01": ["lr.vrs", "lrp.vrs"], "R02": ["lrp.vrs"], "R03": ["lr.vrs", "lrp.vrs"], "R04": ["lr.vrs"], "R05": ["lr.vrs", "lrp.vrs"], "M01": ["metrics.vrs", "cm.vrs"], "M02": ["metrics.vrs", "trapz.vrs"]}
# the linear-model units serve several properties: the functions whose obligations decide each (a failed obligation elsewhere is reported by its own property)
OWNS = {"R01": r"\bLR_|faer_solve_lstsq|faer_weighted|to_frame|series_to_mat|LRMethods|pl_lstsq",
        "R02": r"to_frame|series_to_mat|pl_",
        "R03": r"OnlineLR|woodbury_step|has_nan|with_inv|rolling|recursive|to_frame|series_to_mat_for_lstsq",
        "R04": r"OnlineLR|woodbury_step|has_nan|with_inv",
        "R05": r"ElasticNet|coordinate_descent|soft_threshold|LRMethods|pl_lstsq(_f32|_pred|_pred_f32)?$"}
BUDGET = {"N04": {"quick": 10}}
for _p in ("N01", "N02", "N03", "N04", "N05", "R01", "R02", "R03", "R04", "R05", "M01", "M02", "M03", "S01", "S02", "S03", "F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "G01", "P01", "P02", "P03", "P04"):
    prop(_p, units=UNITS.get(_p, []), z3=_p in Z3, **({"owns": OWNS[_p]} if _p in OWNS else {}), **({"budget": BUDGET[_p]} if _p in BUDGET else {}))
