"""C22: Stores."""
import effprop

_E = effprop.Eff(r'^src/core/(file|qps|bit-wah|farch|qlzo|zlib)', (200, 5000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
