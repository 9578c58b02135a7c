"""Linear searches summarised by their loop: which candidates are known to have been rejected."""
from engine.dom import *
from engine.interp import norm_text


def texts_equal(st, a, b):
    """True/False/None: the two texts are known equal / different / unknown on this path"""
    if norm_text(a) == norm_text(b):
        return True
    for x, y in ((a, b), (b, a)):
        r = st.facts.cmp('eq', atom(('strcmp', norm_text(x), norm_text(y))), ZERO)
        if r is not None:
            return r
    return None


def exhausted(E, t, lo, hi, rejected):
    """None when on this path every index in [lo, hi) was examined and rejected; otherwise the reason"""
    if t.facts.cmp('ge', lo, hi) is True:
        return None
    why = 'no search over the entries'
    for H in E.headers.values():
        for g in H.groups:
            it = Lin(0, ((g, 1),))
            for idx, asc in ((lo + it, True), (hi - 1 - it, False)):
                if t.facts.cmp('ge' if asc else 'lt', idx, hi if asc else lo) is not True:
                    continue
                if not H.backs:
                    why = 'the search never advances'
                    continue
                bad = [b for b in H.backs if not rejected(b, idx)]
                if not bad:
                    return None
                why = 'an entry can be passed over without being compared'
    return why
