"""Model checking of the specification itself, per property.

Each entry: module, configuration, tiers ("q": also in the quick tier), and what TLC must
say: "ok", or "violated" for a deliberately wrong variant (so that the invariants are not
vacuous).  A wrong variant is one the property would have to reject if the code did it."""
import concurrent.futures as cf

from vlib import model

Q, T = "q", "t"
MODELS = {
    "C01": [("Laws", "Laws_sum", Q, "ok")],
    "C02": [("Laws", "Laws_prod", Q, "ok"), ("Laws", "Laws_prod3", T, "ok"), ("Laws", "Laws_strassen", Q, "ok"), ("Laws", "Laws_wrong", Q, "violated")],
    "C03": [("Laws", "Laws_det2", Q, "ok"), ("Laws", "Laws_det3", T, "ok"), ("Laws", "Laws_det4", T, "ok"), ("DetGauss", "DetGauss", Q, "ok"),
            ("DetGauss", "DetGauss_4", T, "ok"), ("DetGauss", "DetGauss_anyrow", Q, "ok"), ("DetGauss", "DetGauss_anyrow4", T, "ok"), ("DetGauss", "DetGauss_euclid", Q, "ok"), ("DetGauss", "DetGauss_euclid3", T, "ok"),
            ("DetGauss", "DetGauss_nosign", Q, "violated"), ("DetGauss", "DetGauss_noswap", T, "violated"), ("DetGauss", "DetGauss_trunc", T, "violated")],
    "C04": [("Laws", "Laws_det2", Q, "ok"), ("Laws", "Laws_det3", T, "ok"), ("InvAlgo", "InvAlgo", Q, "ok"), ("InvAlgo", "InvAlgo_mod3", T, "ok"), ("InvAlgo", "InvAlgo_4", T, "ok"),
            ("InvAlgo", "InvAlgo_notrans", Q, "violated"), ("InvAlgo", "InvAlgo_nosign", T, "violated"), ("InvAlgo", "InvAlgo_order", T, "violated")],
    "C05": [("Laws", "Laws_pow3", Q, "ok"), ("PowAlgo", "PowAlgo", Q, "ok"), ("PowAlgo", "PowAlgo_3", T, "ok"),
            ("PowAlgo", "PowAlgo_absfirst", Q, "violated"), ("PowAlgo", "PowAlgo_oddlost", T, "violated")],
    "C06": [("LuAlgo", "LuAlgo", Q, "ok"), ("LuAlgo", "LuAlgo_4", T, "ok"), ("LuAlgo", "LuAlgo_nocheck", Q, "violated"), ("LuAlgo", "LuAlgo_lastfree", T, "violated")],
    "C07": [("CholAlgo", "CholAlgo", T, "ok"), ("CholAlgo", "CholAlgo_nosub", Q, "violated")],
    "C08": [("InvAlgo", "InvAlgo", Q, "ok"), ("InvAlgo", "InvAlgo_nocheck", Q, "violated"), ("LuAlgo", "LuAlgo", T, "ok"), ("LuAlgo", "LuAlgo_lastfree", T, "violated")],
    "C09": [("ConvAlgo", "ConvAlgo_12", Q, "ok"), ("ConvAlgo", "ConvAlgo", T, "ok"), ("ConvAlgo", "ConvAlgo_13", T, "ok"), ("ConvAlgo", "ConvAlgo_33", T, "ok"), ("ConvAlgo", "ConvAlgo_norot", Q, "violated"),
            ("ConvAlgo", "ConvAlgo_clamp", T, "violated"), ("ConvAlgo", "ConvAlgo_wrap", T, "violated"), ("ConvAlgo", "ConvAlgo_shift", T, "violated"),
            ("Laws", "Laws_conv", Q, "ok"), ("Laws", "Laws_convr", Q, "ok"), ("Laws", "Laws_conv4", T, "ok")],
    "C14": [("Laws", "Laws_stat", Q, "ok"), ("StatAlgo", "StatAlgo", Q, "ok"), ("StatAlgo", "StatAlgo_6", T, "ok"), ("StatAlgo", "StatAlgo_lost", Q, "violated"), ("StatAlgo", "StatAlgo_unsorted", T, "violated")],
    "C15": [("Laws", "Laws_stat", Q, "ok"), ("Laws", "Laws_stat3", T, "ok"), ("StatAlgo", "StatAlgo", Q, "ok"), ("StatAlgo", "StatAlgo_5", T, "ok"), ("StatAlgo", "StatAlgo_6", T, "ok"),
            ("StatAlgo", "StatAlgo_upper", Q, "violated"), ("StatAlgo", "StatAlgo_early", T, "violated")],
    "C21": [("Laws", "Laws_detprod3", T, "ok"), ("Laws", "Laws_prod", Q, "ok"), ("Laws", "Laws_wrong2", Q, "violated")],
    "C22": [("BigLaws", "BigLaws", Q, "ok"), ("BigLaws", "BigLaws_150", T, "ok"), ("FloatAlgo", "FloatAlgo_dotq", Q, "ok"), ("FloatAlgo", "FloatAlgo_dot", T, "ok"),
            ("FloatAlgo", "FloatAlgo_mean", T, "ok"), ("FloatAlgo", "FloatAlgo_var", Q, "ok"), ("FloatAlgo", "FloatAlgo_var4", T, "ok"),
            ("FloatAlgo", "FloatAlgo_dotlow", Q, "violated"), ("FloatAlgo", "FloatAlgo_onepass", Q, "violated")],
}


def run(prop, tier, outc, work):
    todo = [m for m in MODELS.get(prop, ()) if tier == "thorough" or m[2] == Q]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda m: model(outc, work, m[0], m[1], workers=2 if tier == "quick" else 4, expect=m[3], heap="3g"), todo))
