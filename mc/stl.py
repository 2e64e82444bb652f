"""Reference for the modified-STL residual: statsmodels STL directly, memoised per window."""
_MEMO = {}


def residuals(values, period, robust=True, kw=()):
    """X - seasonal - median(X) of a full window, as a tuple."""
    import numpy as np
    from statsmodels.tsa.seasonal import STL
    key = (tuple(float(v) for v in values), period, robust, kw)
    if key not in _MEMO:
        if len(_MEMO) > 200000:
            _MEMO.clear()
        x = np.array(key[0])
        s = STL(x, period=period, robust=robust, **dict(kw)).fit().seasonal
        _MEMO[key] = tuple(float(v) for v in x - np.asarray(s) - np.median(x))
    return _MEMO[key]
