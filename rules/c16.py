"""C16: HTTP exchanges."""
import effprop

_E = effprop.Eff(r'^src/net/(http|hpack)', (120, 6000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
