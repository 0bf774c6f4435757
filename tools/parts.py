"""Which part binaries decide a property, and the evidence level."""
PARTS = {"C%02d" % i: ["bb"] for i in range(4, 28)}
PARTS.update({"C01": ["libweb", "bb"], "C02": ["libweb", "bb", "sched"], "C03": ["libweb", "bb", "sched"], "C09": ["bb", "sched"],
              "C13": ["sched", "bb"], "C21": ["libweb", "sched"]})
PARTS.update({"C%02d" % i: ["libmisc"] for i in (18, 19, 20)})
LEVEL = {"C%02d" % i: "exploration" for i in range(1, 28)}
for i in ("C02", "C03", "C09", "C13"):
    LEVEL[i] = "model_checking"
for i in ("C04", "C16", "C21", "C23"):
    LEVEL[i] = "fault_enumeration"
