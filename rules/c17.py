"""C17: Memory pools."""
import effprop

_E = effprop.Eff(r'^src/core/(mem|qpage)', (80, 1000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
