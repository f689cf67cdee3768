"""Which harnesses decide which property. Quick is what runs on every change,
thorough adds the slow ones. Patterns are full matches on harness names."""

PROPS = {
    "C01": dict(quick=["c01_(?!.*wide).*"], thorough=["c01_.*_wide"]),
    "C02": dict(quick=["c02_(?!.*wide).*"], thorough=["c02_.*_wide"]),
    "C03": dict(quick=["c03_(?!wrap_any).*"], thorough=["c03_wrap_any"]),
    "C04": dict(quick=["c04_(?!.*wide).*"], thorough=["c04_.*wide"], real=["slice_lerp_.*"]),
    "C05": dict(quick=["c05_node_.*", "c05_poly_w[23]", "c05_poly_four"], thorough=["c05_poly_w[45]"], real=["slice_lagrange_.*", "slice_four_.*"]),
    "C06": dict(quick=["c06_.*"], real=["lerp.*"]),
    "C07": dict(quick=["c07_.*"], real=["lagrange_.*"]),
    "C08": dict(quick=["c08_.*"]),
    "C09": dict(quick=["c09_.*"], real=["tap_.*"]),
    "C10": dict(quick=["c10_comb_[13]"], thorough=["c10_comb_2"], real=["comb.*"]),
    "C11": dict(quick=["c11_.*"], real=["all_pass"]),
    "C12": dict(real=["biquad.*"]),
    "C13": dict(real=["response_.*", "shape_.*"]),
    "C14": dict(real=["stable_.*"]),
    "C15": dict(quick=["c15_.*"]),
    "C16": dict(quick=["c16_.*"]),
    "C17": dict(quick=["c17_.*"]),
    "C18": dict(real=["dsp"]),
    "C19": dict(quick=["c19_.*"]),
    "C20": dict(quick=["c20_.*"]),
    "C21": dict(quick=["c21_.*"]),
    "C22": dict(quick=["c22_.*"]),
    "C23": dict(quick=["c23_.*"]),
    "C24": dict(quick=["c24_.*"]),
    "C25": dict(quick=["c25_history_.*", "c25_contract_.*", "c25_(attack|decay)_005", "c25_(decay|release)_20"],
                thorough=["c25_attack_20", "c25_attack_1", "c25_decay_1", "c25_release_1", "c25_release_005"]),
    "C26": dict(quick=["c26_.*"]),
    "C27": dict(quick=["c27_.*"]),
    "C28": dict(quick=["c28_.*"], real=["pan"]),
    "C29": dict(quick=["c29_.*"]),
    "C30": dict(quick=["c30_.*"]),
    "C31": dict(quick=["c31_(?!quarters_up).*"], thorough=["c31_quarters_up"]),
    "C32": dict(quick=["c32_(?!between).*"], thorough=["c32_between_.*"]),
    "C33": dict(quick=["c33_.*"], real=["sinc_.*", "si_\\d"], real_thorough=["si_more_.*"]),
    "C35": dict(quick=["c35_.*"]),
    "C34": dict(real=["fast_tan_.*"]),
    "C38": dict(quick=["c38_any_4", "c38_linear_[56]"], thorough=["c38_any_[56]"]),
}
