"""What each check runs."""
from .core import QUAD
from . import gen_interval as gi, gen_poly as gp, gen_mod as gm, gen_int as gt, gen_misc as gx, gen_grid as gg, gen_alg as ga, gen_quad as gq

# models: (module, config stem) - run as <module> with <stem>_<tier>.cfg; behaviours go to the generator
PROPS = {
    "I01": dict(trace="TraceInterval", gen=gi.I01, models=["MCInterval", ("MCPower", "MCPowerIv")]),
    "I02": dict(trace="TraceInterval", gen=gi.I02, models=["MCIter"]),
    "I03": dict(trace="TraceInterval", gen=gi.I03, models=["MCInterval"]),
}
for _p in ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10"]:
    PROPS[_p] = dict(trace="TracePoly", gen=getattr(gp, _p), models=["MCPoly"])
for _p in ["P03", "P05"]:
    PROPS[_p]["models"].append("MCPrs")
PROPS["P02"]["models"].append("MCDivide")
PROPS["P06"]["models"].append("MCSturm")
PROPS["P07"]["models"].append("MCYun")
PROPS["P08"]["models"].append("MCRecombine")
PROPS["P09"]["models"].append(("MCPower", "MCPowerPoly"))
PROPS["M01"] = dict(trace="TraceMod", gen=gm.M01, models=["MCResidue"])
PROPS["M02"] = dict(trace="TraceMod", gen=gm.M02, models=["MCResidue", ("MCPower", "MCPowerRes")])
PROPS["T01"] = dict(trace="TraceInt", gen=gt.T01, models=["MCEuclid"])
PROPS["T02"] = dict(trace="TraceInt", gen=gt.T02, models=["MCNearest"])
PROPS["I04"] = dict(trace="TraceInterval", gen=gi.I04, models=["MCCache", ("MCCache", "MCCache3")],
                    models_thorough=[("MCCache", "MCCacheDeep")], shards=24)
PROPS["U01"] = dict(trace="TraceMisc", gen=gx.U01, models=["MCSearch", "MCSubsets"])
PROPS["L01"] = dict(trace="TraceMisc", gen=gx.L01, models=["MCLattice"])
PROPS["F01"] = dict(trace="TraceMisc", gen=gx.F01, models=["MCSplit"])
PROPS["D01"] = dict(trace="TraceGrid", gen=gg.D01, models=["MCGrid"])
PROPS["Q01"] = dict(trace="TraceQuad", gen=gq.Q01, models=["MCQuadratic"], hook=QUAD)
_am = dict(A01=["MCSelect", "MCField", "MCWinnow"], A02=["MCSelect", "MCField"], A03=["MCSelect", "MCField"], A04=["MCField", "MCRound"],
           A05=["MCRound", "MCShrink"], A06=["MCSelect", "MCWinnow"], A07=["MCRound", "MCShrink"])
for _p, _m in _am.items():
    PROPS[_p] = dict(trace="TraceAlg", gen=getattr(ga, _p), models=_m)
# rounds of random choices of the quick tier
for _p, _n in dict(A01=6, A02=6, A03=6, A04=4, A05=8, A06=8, A07=8, D01=6, F01=8, I01=10, I02=12, I03=10, L01=10, M01=8, M02=8,
                   P01=12, P02=12, P03=24, P04=24, P05=12, P06=8, P07=12, P08=12, P09=16, P10=8, Q01=8, T01=8, T02=6, U01=6).items():
    PROPS[_p]["reps"] = _n
