"""C21: Structured values."""
import effprop

_E = effprop.Eff(r'^src/iop/(iop|for-each|helpers|dso|cfolder|core-obj|hashing)', (200, 4000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
