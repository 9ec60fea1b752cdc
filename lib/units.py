import json, os
_V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}
for _l in open(os.path.join(_V, "properties.jsonl")):
    if _l.strip():
        _j = json.loads(_l)
        PROPS[_j["id"]] = _j["title"]

# Parameter configurations the real code is instantiated with.
CONFIGS = {
    # shipped sets
    "real": {},
    "cggi16": {"defs": ["USE_80BIT_SECURITY"]},
    "cggi19": {"defs": ["USE_CGGI19"]},
    "concrete": {"defs": ["USE_CONCRETE"]},
    "tfhers": {"defs": ["USE_TFHE_RS"]},
    "ternary": {"defs": ["USE_TERNARY"]},
    "compress": {"defs": ["USE_COMPRESS"]},
    "realopt": {"defs": ["USE_OPTIMAL_DECOMPOSITION"]},
    "bundle": {"defs": ["USE_KEY_BUNDLE"]},
    # tiny sets
    "tiny": {"params": "tiny.hpp"},
    "tiny_k2": {"params": "tiny.hpp", "defs": ["VP_K1=2", "VP_K2=3", "VP_T0=uint32_t", "VP_L1=2", "VP_BG1=8"]},
    "tiny_cb": {"params": "tiny_cb.hpp"},
    "tiny_cb27": {"params": "tiny_cb.hpp", "defs": ["USE_COMPRESS"]},
    "tiny_tern": {"params": "tiny.hpp", "defs": ["VP_K0MIN=-1", "VP_T0=uint32_t", "USE_TERNARY"]},
    "tiny_tern_cmux": {"params": "tiny.hpp", "defs": ["VP_K0MIN=-1", "VP_T0=uint32_t", "USE_TERNARY", "USE_TERNARY_CMUX"]},
    "tiny_bundle": {"params": "tiny.hpp", "defs": ["USE_KEY_BUNDLE"]},
    "tiny_bundle_k2": {"params": "tiny.hpp", "defs": ["USE_KEY_BUNDLE", "VP_N0=4", "VP_K1=2", "VP_K2=3", "VP_T0=uint32_t", "VP_L1=2", "VP_BG1=8"]},
    "tiny_n4": {"params": "tiny.hpp", "defs": ["VP_N0=4", "VP_K2=2"]},
    "tiny_nh": {"params": "tiny.hpp", "defs": ["VP_NH=3"]},
    "tiny_rs": {"params": "tiny.hpp", "defs": ["VP_T0=uint32_t", "VP_T1=uint64_t", "VP_L1=2", "VP_BG1=12", "VP_K1=3", "VP_K2=2", "VP_NBIT2=6"]},
    "tiny_sub": {"params": "tiny.hpp", "defs": ["VP_K1=2", "VP_K2=3", "VP_T0=uint32_t", "VP_KMIN1=0"]},
    "tiny_ser": {"params": "tiny.hpp", "defs": ["VP_NBIT1=4", "VP_NBIT2=4", "VP_NBIT3=4", "VP_KS22=2,1", "VP_KS21=2,2", "VP_KS11=2,2", "VP_KS1H=3,2", "VP_NH=3"]},
    "tiny_ser_k2": {"params": "tiny.hpp", "defs": ["VP_NBIT1=4", "VP_NBIT2=4", "VP_NBIT3=4", "VP_KS22=2,1", "VP_KS21=2,2", "VP_KS11=1,2", "VP_KS1H=3,2", "VP_KS10=5,2", "VP_NH=3", "VP_K1=2", "VP_K2=3", "VP_T0=uint32_t", "VP_L1=2", "VP_BG1=8", "VP_L2=2"]},
    # circuit bootstrapping: a wide lvl2 ring, key switches precise to the last GSW digit
    "cb_tiny": {"params": "tiny.hpp", "defs": ["VP_NBIT2=7", "VP_L1=2", "VP_BG1=6", "VP_KS21=8,3", "VP_KS22=16,3", "VP_L2=3", "VP_BG2=9"]},
    "cb_k2": {"params": "tiny.hpp", "defs": ["VP_NBIT2=7", "VP_K1=2", "VP_K2=2", "VP_NBIT1=4", "VP_L1=2", "VP_BG1=6", "VP_KS21=8,3", "VP_KS22=14,3", "VP_L2=3", "VP_BG2=9", "VP_T0=uint32_t"]},
    "cb_tern": {"params": "tiny.hpp", "defs": ["VP_NBIT2=7", "VP_L1=2", "VP_BG1=6", "VP_KS21=8,3", "VP_KS22=16,3", "VP_T0=uint32_t", "VP_L2=4", "VP_BG2=8", "VP_K0MIN=-1", "USE_TERNARY"]},
    "cb_bundle": {"params": "tiny.hpp", "defs": ["VP_NBIT2=7", "VP_L1=2", "VP_BG1=6", "VP_KS21=8,3", "VP_KS22=16,3", "VP_L2=3", "VP_BG2=9", "USE_KEY_BUNDLE"]},
    "bfv_tiny": {"params": "tiny.hpp", "defs": ["VP_KS11=8,3"]},
    "bfv_bin": {"params": "tiny.hpp", "defs": ["VP_KS11=8,3", "VP_KMIN1=0", "VP_L1=2", "VP_BG1=10"]},
    "hd_tiny": {"params": "tiny.hpp", "defs": ["VP_NBIT1=7", "VP_NBIT3=3", "VP_KS31=6,4", "VP_KS1H=6,3"]},
    "tiny_opt": {"params": "tiny.hpp", "defs": ["USE_OPTIMAL_DECOMPOSITION"]},
}


def U(name, src_file, cfg, **kw):
    return dict(name=name, src_file=src_file, cfg=cfg, **kw)


UNITS = {}
for _f in sorted(os.listdir(os.path.join(_V, "units"))):
    if _f.endswith(".units.py"):
        exec(open(os.path.join(_V, "units", _f)).read())
