"""C19: Text."""
import effprop

_E = effprop.Eff(r'^src/core/(str|bit-buf|bithacks|datetime|parsing)', (200, 4000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
