"""What each check runs: design models (TLC), number of generated cases, judge."""
MC = "model_checking"
NOT_APPLICABLE = {}
PLAN = {
    "C01": dict(level=MC, note="bounded", models=[dict(name="MC_Wire", cfg="MC_Wire_round2.cfg", variants=["sp"]), dict(name="MC_Wire", cfg="MC_Wire_round2nosp.cfg", variants=["nosp"]), dict(name="MC_Wire", cfg="MC_Wire_round3.cfg", tiers=["thorough"])], gen=dict(quick=3000, thorough=40000), variants=["sp", "nosp"]),
    "C02": dict(level=MC, note="bounded", models=[dict(name="MC_Wire", cfg="MC_Wire_v2.cfg", variants=["sp"]), dict(name="MC_Wire", cfg="MC_Wire_v2nosp.cfg", variants=["nosp"]), dict(name="MC_Wire", cfg="MC_Wire_perm.cfg"), dict(name="MC_Wire", cfg="MC_Wire_perm_thorough.cfg", tiers=["thorough"]), dict(name="MC_Wire", cfg="MC_Wire_two.cfg", tiers=["thorough"])], gen=dict(quick=6000, thorough=100000), variants=["sp", "nosp"]),
    "C03": dict(level=MC, note="bounded", models=[dict(name="MC_C03", cfg_thorough="MC_C03_thorough.cfg")], gen=dict(quick=10000, thorough=200000)),
    "C04": dict(level=MC, note="bounded", models=[dict(name="MC_Wire", cfg="MC_Wire_v0.cfg"), dict(name="MC_Wire", cfg="MC_Wire_round0.cfg"), dict(name="MC_Wire", cfg="MC_Wire_two0.cfg", tiers=["thorough"])], gen=dict(quick=6000, thorough=100000)),
    "C05": dict(level=MC, note="bounded", models=[dict(name="MC_C05", cfg_thorough="MC_C05_thorough.cfg")], gen=dict(quick=3000, thorough=40000)),
    "C19": dict(level=MC, note="bounded", models=[dict(name="MC_Wire", cfg="MC_Wire_sp.cfg")], gen=dict(quick=4000, thorough=60000), variants=["sp", "nosp"]),
    "C06": dict(level=MC, note="bounded", models=[dict(name="MC_C06", cfg_thorough="MC_C06_thorough.cfg")], gen=dict(quick=6000, thorough=100000)),
    "C07": dict(level=MC, note="bounded", models=[dict(name="MC_C07", cfg_thorough="MC_C07_thorough.cfg")], gen=dict(quick=4000, thorough=60000)),
    "C08": dict(level=MC, note="bounded", models=[dict(name="MC_C08", cfg_thorough="MC_C08_thorough.cfg")], gen=dict(quick=3000, thorough=40000)),
    "C09": dict(level=MC, note="bounded", models=[dict(name="MC_C09", cfg_thorough="MC_C09_thorough.cfg")], gen=dict(quick=3000, thorough=40000)),
    "C13": dict(level=MC, note="bounded", models=[dict(name="MC_C13", cfg_thorough="MC_C13_thorough.cfg")], gen=dict(quick=4000, thorough=60000)),
    "C14": dict(level=MC, note="bounded", models=[dict(name="MC_C14", cfg_thorough="MC_C14_thorough.cfg")], gen=dict(quick=4000, thorough=60000)),
    "C10": dict(level=MC, note="bounded", models=[dict(name="MC_C10"), dict(name="MC_C10", cfg="MC_C10_thorough.cfg", tiers=["thorough"])], gen=dict(quick=4000, thorough=60000)),
    "C11": dict(level=MC, note="bounded", models=[dict(name="MC_C11", cfg_thorough="MC_C11_thorough.cfg")], gen=dict(quick=4000, thorough=60000)),
    "C12": dict(level=MC, note="bounded", models=[dict(name="MC_C12"), dict(name="MC_C12", cfg="MC_C12_thorough.cfg", tiers=["thorough"])], gen=dict(quick=4000, thorough=60000)),
    "C16": dict(level=MC, note="bounded", models=[dict(name="MC_C16", cfg_thorough="MC_C16_thorough.cfg"), dict(name="MC_C16T", cfg_thorough="MC_C16T_thorough.cfg")], gen=dict(quick=3000, thorough=40000)),
    "C15": dict(level=MC, note="bounded", models=[dict(name="MC_C15", cfg_thorough="MC_C15_thorough.cfg")], gen=dict(quick=2500, thorough=40000)),
    "C26": dict(level=MC, note="bounded", models=[dict(name="MC_C26", cfg_thorough="MC_C26_thorough.cfg"), dict(name="MC_C26", cfg="MC_C26_three.cfg", cfg_thorough="MC_C26_three_thorough.cfg")], gen=dict(quick=2000, thorough=30000)),
    "C27": dict(level=MC, note="bounded", models=[dict(name="MC_C27", cfg_thorough="MC_C27_thorough.cfg"), dict(name="MC_C27", cfg="MC_C27_three.cfg", cfg_thorough="MC_C27_three_thorough.cfg")], gen=dict(quick=2000, thorough=30000)),
    "C20": dict(level=MC, note="bounded", models=[dict(name="MC_C20"), dict(name="MC_C20", cfg="MC_C20_two.cfg", cfg_thorough="MC_C20_two_thorough.cfg")], gen=dict(quick=6000, thorough=100000)),
    "C21": dict(level=MC, note="bounded", models=[dict(name="MC_C21", cfg_thorough="MC_C21_thorough.cfg")], gen=dict(quick=3000, thorough=60000)),
    "C24": dict(level=MC, note="bounded", models=[dict(name="MC_C24", cfg_thorough="MC_C24_thorough.cfg"), dict(name="MC_C24", cfg="MC_C24_two.cfg", cfg_thorough="MC_C24_two_thorough.cfg")], gen=dict(quick=4000, thorough=60000)),
    "C22": dict(level=MC, note="bounded", models=[dict(name="MC_C16", cfg_thorough="MC_C16_thorough.cfg"), dict(name="MC_C16T", cfg_thorough="MC_C16T_thorough.cfg")], gen=dict(quick=3000, thorough=40000)),
    "C17": dict(level=MC, note="bounded", models=[dict(name="MC_Fee", cfg_thorough="MC_Fee_thorough.cfg")], gen=dict(quick=6000, thorough=100000)),
    "C18": dict(level=MC, note="bounded", models=[dict(name="MC_Fee", cfg_thorough="MC_Fee_thorough.cfg")], gen=dict(quick=6000, thorough=100000)),
    "C23": dict(level=MC, note="bounded", models=[dict(name="MC_Fee", cfg_thorough="MC_Fee_thorough.cfg")], gen=dict(quick=6000, thorough=100000)),
    "C25": dict(level=MC, note="bounded", models=[dict(name="MC_C25", cfg_thorough="MC_C25_thorough.cfg")], gen=dict(quick=2000, thorough=40000)),
    "C28": dict(level=MC, note="bounded", models=[dict(name="MC_C28", cfg_thorough="MC_C28_thorough.cfg")], gen=dict(quick=2000, thorough=40000)),
}
