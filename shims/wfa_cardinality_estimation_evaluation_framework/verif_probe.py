"""Recording points of the stand-in privacy library.

The real library is not installed in the sandbox.  This package stands in for
it: sketches are exact multisets, noise is either drawn from the caller's
random state or dictated by a script, and every noiser that is actually
applied to a quantity is recorded here, so that a check can compare what was
released with what the code under test reported to its privacy tracker.
"""

RELEASES = []  # dicts: kind, epsilon, delta, noiser, uid, value, noise
SKETCHES = []  # dicts: length, decay_rate, seed of every sketch created
ESTIMATES = []  # the raw kplus lists produced by every estimator
SCRIPT = None  # None, or a callable (kind, epsilon, value, uid) -> noise
FINGERPRINT = False  # record the state of the random source before each release
ESTIMATE_SCRIPT = None  # None, or a callable (sketch, max_freq) -> k+ list

_uid = [0]


def next_uid():
    _uid[0] += 1
    return _uid[0]


def reset():
    global SCRIPT, ESTIMATE_SCRIPT, FINGERPRINT
    del RELEASES[:]
    del SKETCHES[:]
    del ESTIMATES[:]
    SCRIPT = None
    ESTIMATE_SCRIPT = None
    FINGERPRINT = False


def fingerprint(source):
    """A short text that is the same exactly for random sources in the same state."""
    import hashlib

    if hasattr(source, "get_state"):
        s = source.get_state(legacy=False)
    elif hasattr(source, "bit_generator"):
        s = source.bit_generator.state
    else:
        return repr(source)
    s = repr({k: (v if not isinstance(v, dict) else {a: (b.tobytes() if hasattr(b, "tobytes") else b) for a, b in v.items()})
              for k, v in s.items()})
    return hashlib.md5(s.encode()).hexdigest()[:16]
