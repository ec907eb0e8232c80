"""What each property's check explores, executes and judges."""


def builder(cfg, quick, thorough):
    return {"gen": [{"module": "BuilderGen.tla", "cfg": cfg}], "system": "builder", "judge": "BuilderTrace.tla",
            "random": {"quick": quick, "thorough": thorough}}


def auth():
    return [{"gen": [{"module": "AuthGen.tla", "cfg": "AuthGen_quick.cfg"}], "tier": "quick", "system": "auth", "judge": "AuthTrace.tla"},
            {"gen": [{"module": "AuthGen.tla", "cfg": "AuthGen_thorough.cfg"}], "tier": "thorough", "system": "auth", "judge": "AuthTrace.tla"}]


def keys(cfg, quick, thorough, chunk):
    return {"gen": [{"module": "KeysGen.tla", "cfg": cfg}], "system": "keys", "judge": "KeysTrace.tla",
            "random": {"quick": quick, "thorough": thorough}, "opts": {"chunk": chunk}}


def commit():
    return [{"gen": [{"module": "CommitGen.tla", "cfg": "CommitGen.cfg"}, {"module": "CommitGen.tla", "cfg": "CommitGen_wide.cfg"}], "tier": "quick", "system": "commit", "judge": "CommitTrace.tla"},
            {"gen": [{"module": "CommitGen.tla", "cfg": "CommitGen_thorough.cfg"}, {"module": "CommitGen.tla", "cfg": "CommitGen_wide.cfg"}], "tier": "thorough", "system": "commit", "judge": "CommitTrace.tla",
             "opts": {"reps": 4}}]


def noteenc(cfg, quick, thorough):
    return [{"gen": [{"module": "NoteEncGen.tla", "cfg": cfg}], "tier": t, "system": "noteenc", "judge": "NoteEncTrace.tla",
             "random": {t: n}, "opts": {"reps": k}} for t, n, k in (("quick", quick, 1), ("thorough", thorough, 20))]


CHECKS = {
    "C09": {"stages": [{"gen": [{"module": "VerifyGen.tla", "cfg": c}], "tier": ti, "system": "verify", "judge": "VerifyTrace.tla", "opts": {"reps": k}}
                       for ti, c, k in (("quick", "VerifyGen.cfg", 1), ("thorough", "VerifyGen_thorough.cfg", 2))]},
    "C10": {"stages": [{"gen": [{"module": "BatchGen.tla", "cfg": c}], "tier": ti, "system": "batch", "judge": "BatchTrace.tla", "opts": {"reps": k}}
                       for ti, c, k in (("quick", "BatchGen.cfg", 1), ("thorough", "BatchGen_thorough.cfg", 1))]},
    "C11": {"stages": [{"gen": [{"module": "StatementGen.tla", "cfg": c}], "tier": ti, "system": "statement", "judge": "StatementTrace.tla", "opts": {"reps": k}}
                       for ti, c, k in (("quick", "StatementGen.cfg", 1), ("thorough", "StatementGen_thorough.cfg", 1))]},
    "C12": {"stages": noteenc("NoteEncGen_honest.cfg", 150, 5000)},
    "C13": {"stages": noteenc("NoteEncGen_honest.cfg", 150, 5000)},
    "C14": {"stages": noteenc("NoteEncGen_adversary.cfg", 20, 200)},
    "C07": {"stages": commit()},
    "C08": {"stages": commit()},
    "C15": {"stages": [keys("KeysGen_C15.cfg", 16, 400, 1000)]},
    "C16": {"stages": [{"gen": [{"module": "EncodingsGen.tla", "cfg": "EncodingsGen.cfg"}], "system": "enc", "judge": "EncodingsTrace.tla",
                        "random": {"quick": 300, "thorough": 20000}}]},
    "C17": {"stages": [keys("KeysGen_C17.cfg", 1, 20, 60)]},
    "C18": {"stages": [{"gen": [{"module": "Zip32Gen.tla", "cfg": "Zip32Gen.cfg"}], "system": "zip32", "judge": "Zip32Trace.tla",
                        "random": {"quick": 4, "thorough": 60}}]},
    "C19": {"stages": [{"gen": [{"module": "NotesGen.tla", "cfg": "NotesGen.cfg"}], "tier": ti, "system": "notes", "judge": "NotesTrace.tla",
                        "random": {ti: n}, "opts": {"reps": k}} for ti, n, k in (("quick", 200, 6), ("thorough", 8000, 40))]},
    "C20": {"stages": [{"gen": [{"module": "TreeGen.tla", "cfg": c}], "tier": ti, "system": "tree", "judge": "TreeTrace.tla", "opts": {"reps": k}}
                       for ti, c, k in (("quick", "TreeGen.cfg", 2), ("thorough", "TreeGen_thorough.cfg", 4))]},
    "C21": {"stages": [{"gen": [{"module": "ValuesGen.tla", "cfg": c}], "tier": ti, "system": "values", "judge": "ValuesTrace.tla",
                        "random": {ti: n}, "opts": {"reps": k}}
                       for ti, c, n, k in (("quick", "ValuesGen.cfg", 2000, 1), ("thorough", "ValuesGen_thorough.cfg", 40000, 4))]},
    "C22": {"stages": [{"gen": [{"module": "LedgerGen.tla", "cfg": mc, "workers": 4}, {"module": "LedgerGen.tla", "cfg": g, "simulate": k}, {"module": "LedgerScript.tla", "cfg": "LedgerScript.cfg"}], "tier": ti, "system": "ledger", "judge": "LedgerTrace.tla"}
                       for ti, mc, g, k in (("quick", "LedgerMC.cfg", "LedgerGen.cfg", 5), ("thorough", "LedgerMC_thorough.cfg", "LedgerGen_thorough.cfg", 60))]},
    "C23": {"stages": [{"gen": [{"module": "SignatureGen.tla", "cfg": c} for c in cs], "tier": ti, "system": "signature", "judge": "SignatureTrace.tla", "opts": {"reps": k}}
                       for ti, cs, k in (("quick", ["SignatureGen.cfg"], 1), ("thorough", ["SignatureGen.cfg", "SignatureGen_thorough.cfg"], 1))]},
    "C24": {"stages": [{"gen": [{"module": "FreshGen.tla", "cfg": c}], "tier": ti, "system": "fresh", "judge": "FreshTrace.tla"}
                       for ti, c in (("quick", "FreshGen.cfg"), ("thorough", "FreshGen_thorough.cfg"))]},
    "C25": {"stages": [{"gen": [{"module": "WireGen.tla", "cfg": c}], "tier": ti, "system": "wire", "judge": "WireTrace.tla", "opts": {"reps": k}}
                       for ti, c, k in (("quick", "WireGen.cfg", 1), ("thorough", "WireGen_thorough.cfg", 1))]},
    "C26": {"stages": [{"gen": [{"module": "PurityGen.tla", "cfg": c}], "tier": ti, "system": "purity", "judge": "PurityTrace.tla", "random": {ti: n}, "opts": {"worlds": w, "storm": st}}
                       for ti, c, n, w, st in (("quick", "PurityGen.cfg", 200, 4, 80), ("thorough", "PurityGen_thorough.cfg", 2000, 24, 1000))]},
    "C27": {"stages": [{"gen": [{"module": "SamenessGen.tla", "cfg": "SamenessGen.cfg"}], "tier": ti, "system": "same", "judge": "SamenessTrace.tla", "opts": {"reps": k}}
                       for ti, k in (("quick", 36), ("thorough", 360))]},
    "C01": {"stages": [builder("BuilderGen_C01.cfg", 400, 6000)]},
    "C02": {"stages": [builder("BuilderGen_C02.cfg", 300, 6000)]},
    "C04": {"stages": [{"gen": [{"module": "WholeGen.tla", "cfg": c}], "tier": ti, "system": "whole", "judge": "WholeTrace.tla", "random": {ti: n}}
                       for ti, c, n in (("quick", "WholeGen.cfg", 8), ("thorough", "WholeGen_thorough.cfg", 60))]},
    "C05": {"stages": auth()},
    "C06": {"stages": auth()},
    "C03": {"stages": [builder("BuilderGen_C03.cfg", 300, 6000)]},
}
