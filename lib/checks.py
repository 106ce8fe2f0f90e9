"""One function per property: which models are checked and which drivers run."""


def C19(r):
    drv = r.build("c19")
    r.design("Structures", workers=4)
    files = r.drive(drv, "c19")
    r.validate(files, "StructuresTrace")


def C20(r):
    drv = r.build("c20")
    r.design("Batching", workers=4)
    files = []
    for mode in ("seq", "conc", "stress"):
        files += r.drive(drv, "c20" + mode, [mode])
    r.validate(files, "BatchingTrace")


def C07(r):
    drv = r.build("dk")
    r.design("DKV", workers=4)
    files = r.drive(drv, "c07", ["c07"]) + r.drive(drv, "c07stress", ["c07stress"])
    r.validate(files, "DKVTrace")


def C08(r):
    drv = r.build("dk")
    r.design("DKV", workers=4)
    r.validate(r.drive(drv, "c08", ["c08"]), "DKVTrace")


def C09(r):
    drv = r.build("dk")
    r.design("DKV", workers=4)
    r.validate(r.drive(drv, "c09", ["c09"]), "DKVTrace")
    r.validate(r.drive(drv, "multi", ["multi"]) + r.drive(drv, "shared", ["shared"]), "DKVTrace")


def C17(r):
    drv = r.build("st")
    r.design("TableFormat", workers=4)
    r.design("WAL", workers=4)
    r.validate(r.drive(drv, "tables", ["tables"]) + r.drive(drv, "wal", ["wal"]), "TableTrace")


def C18(r):
    drv = r.build("st")
    r.design("Compaction", workers=4)
    dk = r.build("dk")
    a = r.start(r.drive, dk, "c07", ["c07"])
    r.validate(r.drive(drv, "compact", ["compact"]), "CompactionTrace")
    r.validate(a.result(), "DKVTrace")


def C05(r):
    drv = r.build("part")
    r.design("PartitioningMC", workers=4)
    files = []
    for mode in ("space", "hash", "runner", "operator"):
        files += r.drive(drv, mode, [mode])
    r.validate(files, "PartitioningTrace")


def C10(r):
    drv = r.build("tm")
    r.design("TimersMC", workers=4)
    files = []
    for mode in ("reg", "oper", "limits"):
        files += r.drive(drv, mode, [mode])
    r.validate(files, "TimersTrace", max_viol=3)


def C11(r):
    tm, srd = r.build("tm"), r.build("srd")
    r.start(r.design, "SourceRunner", workers=3)
    a = r.start(r.drive, tm, "conc", ["conc"])
    b = r.start(r.drive, tm, "marks", ["marks"])
    c = r.start(r.drive, srd, "sr", ["sr"])
    d = r.start(r.drive, tm, "oper", ["oper"])
    r.validate(b.result(), "WatermarksTrace")
    r.validate(a.result() + d.result(), "TimersTrace")
    r.validate(c.result(), "SourceRunnerTrace", env={"PROP": "C11"})


def C04(r):
    srd, c20 = r.build("srd"), r.build("c20")
    r.start(r.design, "SourceRunner", workers=3)
    a = r.start(r.drive, srd, "sr", ["sr"])
    b = r.start(r.drive, srd, "flow", ["flow"])
    c = [r.start(r.drive, c20, "c20" + m, [m]) for m in ("conc", "stress")]
    r.validate([f for x in c for f in x.result()], "BatchingTrace")
    r.validate(a.result() + b.result(), "SourceRunnerTrace", env={"PROP": "C04"})


def C02(r):
    ks = r.build("ks")
    r.start(r.design, "BarrierAlign", workers=3)
    a = r.start(r.drive, ks, "cut", ["cut"])
    b = r.start(r.drive, ks, "state", ["state"])
    if r.tier == "thorough":
        r.start(r.design, "BarrierAlign", "BarrierAlignThorough.cfg", workers=4, timeout=900)
    r.validate(a.result() + b.result(), "KeyedStateTrace")


def C03(r):
    ks, dk = r.build("ks"), r.build("dk")
    r.start(r.design, "KeyCodec", workers=3)
    a = r.start(r.drive, ks, "state", ["state"])
    b = r.start(r.drive, dk, "c07", ["c07"])
    if r.tier == "thorough":
        r.start(r.design, "KeyCodec", "KeyCodecThorough.cfg", workers=4, timeout=900)
    r.validate(a.result(), "KeyedStateTrace")
    r.validate(b.result(), "DKVTrace")


def C06(r):
    ks, dk, part = r.build("ks"), r.build("dk"), r.build("part")
    r.start(r.design, "Rescale", workers=3)
    a = r.start(r.drive, ks, "rescale", ["rescale"])
    b = r.start(r.drive, part, "assign", ["assign"])
    c = r.start(r.drive, dk, "multi", ["multi"])
    if r.tier == "thorough":
        r.start(r.design, "Rescale", "RescaleThorough.cfg", workers=4, timeout=900)
    r.validate(b.result(), "PartitioningTrace")
    r.validate(a.result(), "KeyedStateTrace")
    r.validate(c.result(), "DKVTrace")


def snap(r, *modes):
    drv = r.build("snap")
    r.start(r.design, "SnapshotStore", workers=3, timeout=800)
    if r.tier == "thorough":
        r.start(r.design, "SnapshotStore", "SnapshotStoreLive.cfg", workers=2)
    fs = [r.start(r.drive, drv, m, [m]) for m in modes]
    r.validate([f for x in fs for f in x.result()], "SnapshotTrace")


def C12(r):
    snap(r, "ack", "pub", "reuse")


def C13(r):
    dk = r.build("dk")
    a = r.start(r.drive, dk, "c09", ["c09"])
    snap(r, "pub", "names", "ack")
    r.validate(a.result(), "DKVTrace")


def C14(r):
    snap(r, "save", "ack")
