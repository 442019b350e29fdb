"""
Stand-in for the Python package of clingo, which is not installed here.

It offers just what the package of clingo-dl and its monitors need, implemented with cffi on top of the installed libclingo.
"""
from .control import Control
from .solving import Model
from .symbol import Symbol, SymbolType, Function, Number, String, parse_term
