"""C24: Cryptography."""
import effprop

_E = effprop.Eff(r'^src/crypto/', (100, 1200))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
