from ._core import ffi, lib, check
from .symbol import Symbol


class Model:
    def __init__(self, rep):
        self._rep = rep

    def symbols(self, atoms=False, terms=False, shown=False, theory=False):
        show = (2 if shown else 0) | (4 if atoms else 0) | (8 if terms else 0) | (16 if theory else 0)
        size = ffi.new("size_t*")
        check(lib.clingo_model_symbols_size(self._rep, show, size))
        buf = ffi.new("clingo_symbol_t[]", size[0])
        check(lib.clingo_model_symbols(self._rep, show, buf, size[0]))
        return [Symbol(x) for x in buf]

    @property
    def thread_id(self):
        ret = ffi.new("clingo_id_t*")
        check(lib.clingo_model_thread_id(self._rep, ret))
        return ret[0]

    @property
    def number(self):
        ret = ffi.new("uint64_t*")
        check(lib.clingo_model_number(self._rep, ret))
        return ret[0]


class SolveResult:
    def __init__(self, rep):
        self.satisfiable = True if rep & 1 else (False if rep & 2 else None)
        self.exhausted = bool(rep & 4)
        self.interrupted = bool(rep & 8)
