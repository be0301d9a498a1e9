"""What each property's check runs."""
import json, os
import vf

CHECKS = {}
def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check("C01")
def c01(c):
    beh = c.mc("MC_IndexSet", emit="B", workers=1)
    b = c.dump("beh.json", beh)
    p, _ = c.run("c01.py", "t.ndjson", [b])
    c.validate("Trace_IndexSet", p)


@check("C02")
def c02(c):
    b = c.dump("beh.json", c.mc("MC_MLIndex", emit="B", workers=1))
    p, _ = c.run("c02.py", "t.ndjson", [b])
    c.validate("Trace_MLIndex", p)


@check("C03")
def c03(c):
    b = c.dump("beh.json", c.mc("MC_MLTools", emit="B", workers=1))
    p, _ = c.run("c03.py", "t.ndjson", [b])
    c.validate("Trace_MLTools", p)


@check("C04")
def c04(c):
    b = c.dump("beh.json", c.mc("MC_Split", emit="B", workers=1))
    p, _ = c.run("c04.py", "t.ndjson", ["c04", b])
    c.validate("Trace_Split", p)


@check("C05")
def c05(c):
    c.mc("MC_Split", workers=4)
    p, _ = c.run("c04.py", "t.ndjson", ["c05"])
    c.validate("Trace_Split", p)


@check("C06")
def c06(c):
    b = c.dump("beh.json", c.mc("MC_ALHistory", emit="B", workers=1))
    p, _ = c.run("c06.py", "t.ndjson", ["c06", b])
    c.validate("Trace_ALHistory", p)


@check("C07")
def c07(c):
    b = c.dump("beh.json", c.mc("MC_ALHistory", emit="B", workers=1) + c.mc("MC_ALHistory", cfg="MC_ALHistory_disk.cfg", emit="B", workers=1))
    p, _ = c.run("c06.py", "t.ndjson", ["c07", b])
    c.validate("Trace_ALHistory", p)


@check("C08")
def c08(c):
    b = c.dump("beh.json", c.mc("MC_StopCrit", emit="B", workers=1))
    c.mc("MC_StopCrit", cfg="MC_StopCrit_live.cfg")
    p, _ = c.run("c08.py", "t.ndjson", [b])
    c.validate("Trace_StopCrit", p)


@check("C09")
def c09(c):
    c.mc("MC_Oracle", cfg="MC_Oracle_deep.cfg" if c.tier == "thorough" else None)
    p, _ = c.run("c09.py", "t.ndjson", ["c09"])
    c.validate("Trace_Oracle", p)


@check("C10")
def c10(c):
    b = c.dump("beh.json", c.mc("MC_Oracle", emit="B", workers=1))
    p, _ = c.run("c09.py", "t.ndjson", ["c10", b])
    c.validate("Trace_Crowd", p)


@check("C11")
def c11(c):
    b = c.dump("beh.json", c.mc("MC_KRepo", emit="B", workers=1) + c.mc("MC_KRepo", cfg="MC_KRepo_m.cfg", emit="B", workers=1))
    p, _ = c.run("c11.py", "t.ndjson", [b])
    c.validate("Trace_KRepo", p)


@check("C12")
def c12(c):
    c.mc("MC_AceThreads", cfg="MC_AceThreads_ref.cfg")
    c.mc("MC_AceThreads", cfg="MC_AceThreads_live.cfg")
    b = c.dump("beh.json", c.mc("MC_AceSched", emit="B", workers=1))
    p, _ = c.run("c12.py", "t.ndjson", [b])
    c.validate("Trace_Ace", p)


@check("C13")
def c13(c):
    c.mc("MC_AceThreads")
    if c.tier == "thorough":
        c.mc("MC_AceThreads", cfg="MC_AceThreads_deep.cfg", workers=8)
    p, _ = c.run("c13.py", "t.ndjson")
    c.validate("Trace_AceCrash", p)


@check("C14")
def c14(c):
    b = c.dump("beh.json", c.mc("MC_Pool", emit="B", workers=1))
    p, _ = c.run("c14.py", "t.ndjson", [b])
    c.validate("Trace_Pool", p)


@check("C15")
def c15(c):
    b = c.dump("beh.json", c.mc("MC_Rank", emit="B", workers=1) + c.mc("MC_Rank", cfg="MC_Rank_bin.cfg", emit="B", workers=1))
    if c.tier == "thorough":
        c.mc("MC_Rank", cfg="MC_Rank_deep.cfg", workers=8)
    p, _ = c.run("c15.py", "t.ndjson", [b])
    c.validate("Trace_Rank", p)


@check("C16")
def c16(c):
    b = c.dump("beh.json", c.mc("MC_MLQuery", emit="B", workers=1))
    p, _ = c.run("c16.py", "t.ndjson", [b])
    c.validate("Trace_MLQuery", p)


@check("C17")
def c17(c):
    b = c.dump("beh.json", c.mc("MC_Knap", emit="B", workers=1))
    c.mc("MC_Poss")
    if c.tier == "thorough":
        c.mc("MC_Knap", cfg="MC_Knap_deep.cfg", workers=8)
    p, _ = c.run("c17.py", "t.ndjson", [b])
    c.validate("Trace_Knap", p)


@check("C18")
def c18(c):
    b = c.dump("beh.json", c.mc("MC_Feat", emit="B", workers=1))
    p, _ = c.run("c18.py", "t.ndjson", [b])
    c.validate("Trace_Feat", p)


@check("C19")
def c19(c):
    b = c.dump("beh.json", c.mc("MC_Vote", emit="B", workers=1) + c.mc("MC_IE", emit="B", workers=1) + c.mc("MC_Ceal", emit="B", workers=1))
    if c.tier == "thorough":
        c.mc("MC_IE", cfg="MC_IE_deep.cfg", workers=8)
        c.mc("MC_Ceal", cfg="MC_Ceal_deep.cfg", workers=8)
    p, _ = c.run("c19.py", "t.ndjson", [b])
    c.validate("Trace_Noisy", p)


@check("C20")
def c20(c):
    c.mc("MC_ALRun", workers=8)
    c.mc("MC_ALRun", cfg="MC_ALRun_none.cfg")
    if c.tier == "thorough":
        c.mc("MC_ALRun", cfg="MC_ALRun_deep.cfg", workers=8)
    b = c.dump("beh.json", c.mc("MC_ALRun", cfg="MC_ALRun_sched.cfg", emit="B", workers=1) + c.mc("MC_ALRun", cfg="MC_ALRun_sched2.cfg", emit="B", workers=1))
    p, _ = c.run("c20.py", "t.ndjson", [b])
    c.validate("Trace_ALRun", p)


@check("C21")
def c21(c):
    b = c.dump("beh.json", c.mc("MC_Analyse", emit="B", workers=1))
    if c.tier == "thorough":
        c.mc("MC_Analyse", cfg="MC_Analyse_deep.cfg", workers=8)
    p, _ = c.run("c21.py", "t.ndjson", [b])
    c.validate("Trace_Analyse", p)


@check("C22")
def c22(c):
    b = c.dump("beh.json", c.mc("MC_ToolBox", emit="B", workers=1))
    if c.tier == "thorough":
        c.mc("MC_ToolBox", cfg="MC_ToolBox_deep.cfg", workers=8)
    p, _ = c.run("c22.py", "t.ndjson", [b])
    c.validate("Trace_ToolBox", p)


@check("C23")
def c23(c):
    b = c.dump("beh.json", c.mc("MC_Metrics", emit="B", workers=1))
    if c.tier == "thorough":
        c.mc("MC_Metrics", cfg="MC_Metrics_deep.cfg", workers=8)
    p, _ = c.run("c23.py", "t.ndjson", [b])
    c.validate("Trace_Metrics", p)


@check("C24")
def c24(c):
    b = c.dump("beh.json", c.mc("MC_Random", emit="B", workers=4))
    if c.tier == "thorough":
        c.mc("MC_Random", cfg="MC_Random_deep.cfg", workers=8)
    p, _ = c.run("c24.py", "t.ndjson", [b])
    c.validate("Trace_Random", p)


@check("C26")
def c26(c):
    b = c.dump("beh.json", c.mc("MC_Repr", emit="B", workers=8))
    if c.tier == "thorough":
        c.mc("MC_Repr", cfg="MC_Repr_deep.cfg", workers=8)
    p, _ = c.run("c26.py", "t.ndjson", [b])
    c.validate("Trace_Repr", p)


@check("C27")
def c27(c):
    b = c.dump("beh.json", c.mc("MC_ALLoop", emit="B", workers=8))
    if c.tier == "thorough":
        c.mc("MC_ALLoop", cfg="MC_ALLoop_deep.cfg", workers=8)
    p, _ = c.run("c27.py", "t.ndjson", [b])
    c.validate("Trace_ALLoop", p)


@check("C25")
def c25(c):
    b = c.dump("beh.json", c.mc("MC_Helpers", emit="B", workers=4))
    if c.tier == "thorough":
        c.mc("MC_Helpers", cfg="MC_Helpers_deep.cfg", workers=8)
    p, _ = c.run("c25.py", "t.ndjson", [b])
    c.validate("Trace_Helpers", p)
