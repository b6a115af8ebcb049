from neutrinomass.tensormethod.parse_hs import parse
from neutrinomass.tensormethod.parse_hs import H7_LNV_NF3
from neutrinomass.tensormethod.parse_hs import H9_LNV_NF3
from neutrinomass.tensormethod.parse_hs import H11_LNV_NF3
from neutrinomass.tensormethod.contract import invariants
from neutrinomass.tensormethod.sm import H, L

def list_invariants(hs):
    out = []
    for fields in parse(hs):
        if fields == [H, H, H, H, H, H.conj, H.conj, H.conj, L, L]:
            print('Skipped!')
            continue
        invs = invariants(*fields)
        for inv in invs:
            bl = inv.BL_classification
            if bl == -1:
                out.append(inv)
    return out
