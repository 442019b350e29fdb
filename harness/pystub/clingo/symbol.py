import enum
from ._core import ffi, lib, check


class SymbolType(enum.Enum):
    Infimum = 0
    Number = 1
    String = 4
    Function = 5
    Supremum = 7


class Symbol:
    def __init__(self, rep):
        self._rep = int(rep)

    def __str__(self):
        size = ffi.new("size_t*")
        check(lib.clingo_symbol_to_string_size(self._rep, size))
        buf = ffi.new("char[]", size[0])
        check(lib.clingo_symbol_to_string(self._rep, buf, size[0]))
        return ffi.string(buf).decode()

    __repr__ = __str__

    def __eq__(self, other):
        return isinstance(other, Symbol) and lib.clingo_symbol_is_equal_to(self._rep, other._rep)

    def __lt__(self, other):
        return lib.clingo_symbol_is_less_than(self._rep, other._rep)

    def __hash__(self):
        return lib.clingo_symbol_hash(self._rep)

    @property
    def type(self):
        return SymbolType(lib.clingo_symbol_type(self._rep))

    @property
    def name(self):
        ret = ffi.new("char const **")
        check(lib.clingo_symbol_name(self._rep, ret))
        return ffi.string(ret[0]).decode()

    @property
    def number(self):
        ret = ffi.new("int*")
        check(lib.clingo_symbol_number(self._rep, ret))
        return ret[0]

    @property
    def string(self):
        ret = ffi.new("char const **")
        check(lib.clingo_symbol_string(self._rep, ret))
        return ffi.string(ret[0]).decode()

    @property
    def arguments(self):
        ret = ffi.new("clingo_symbol_t const **")
        size = ffi.new("size_t*")
        check(lib.clingo_symbol_arguments(self._rep, ret, size))
        return [Symbol(ret[0][i]) for i in range(size[0])]

    def match(self, name, arity, positive=True):
        if self.type != SymbolType.Function:
            return False
        pos = ffi.new("bool*")
        check(lib.clingo_symbol_is_positive(self._rep, pos))
        return pos[0] == positive and self.name == name and len(self.arguments) == arity


def parse_term(string):
    ret = ffi.new("clingo_symbol_t*")
    check(lib.clingo_parse_term(string.encode(), ffi.NULL, ffi.NULL, 20, ret))
    return Symbol(ret[0])


def Number(number):
    ret = ffi.new("clingo_symbol_t*")
    lib.clingo_symbol_create_number(number, ret)
    return Symbol(ret[0])


def String(string):
    ret = ffi.new("clingo_symbol_t*")
    check(lib.clingo_symbol_create_string(string.encode(), ret))
    return Symbol(ret[0])


def Function(name, arguments=(), positive=True):
    ret = ffi.new("clingo_symbol_t*")
    args = ffi.new("clingo_symbol_t[]", [x._rep for x in arguments])
    check(lib.clingo_symbol_create_function(name.encode(), args, len(arguments), positive, ret))
    return Symbol(ret[0])
