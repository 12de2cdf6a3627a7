"""C23: Schema compiler."""
import effprop

_E = effprop.Eff(r'^src/(iopc/|iop/(openapi|snmp|xml-wsdl))', (120, 5000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
