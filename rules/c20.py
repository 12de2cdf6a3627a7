"""C20: ASN.1."""
import effprop

_E = effprop.Eff(r'^src/(asn1|pxcc)/', (70, 2000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
