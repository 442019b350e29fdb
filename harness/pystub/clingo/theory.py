from ._core import ffi as cffi_, lib as clib, error_message, Error, addr
from .ast import AST
from .symbol import Symbol


class Theory:
    """Same interface as clingo.theory.Theory."""

    def __init__(self, prefix, lib, ffi):
        self._pre, self._lib, self._ffi = prefix, lib, ffi
        self._theory = None
        theory = ffi.new(f"{prefix}_theory_t**")
        self._call("create", theory)
        self._theory = theory[0]

        @ffi.def_extern(name=f"py{prefix}_rewrite")
        def rewrite(ast, data):
            error, add = ffi.from_handle(data)
            return error.guard(lambda: (add(AST(cffi_.cast("clingo_ast_t*", int(ffi.cast("uintptr_t", ast))))), None)[1])

    def __del__(self):
        if self._theory is not None:
            self._lib_fun("destroy")(self._theory)
            self._theory = None

    def _lib_fun(self, name):
        return getattr(self._lib, f"{self._pre}_{name}")

    def _call(self, name, *args, error=None):
        if not self._lib_fun(name)(*args):
            if error is not None and error.exc is not None:
                raise error.exc
            raise RuntimeError(error_message())

    def _cast(self, typ, ptr):
        return self._ffi.cast(typ, addr(ptr))

    def version(self):
        args = [self._ffi.new("int*") for _ in range(3)]
        self._lib_fun("version")(*args)
        return tuple(x[0] for x in args)

    def configure(self, key, value):
        self._call("configure", self._theory, key.encode(), value.encode())

    def register(self, control):
        self._call("register", self._theory, self._cast("clingo_control_t*", control._rep))

    def prepare(self, control):
        self._call("prepare", self._theory, self._cast("clingo_control_t*", control._rep))

    def rewrite_ast(self, stm, add):
        error = Error()
        data = self._ffi.new_handle((error, add))
        self._call("rewrite_ast", self._theory, self._cast("clingo_ast_t*", stm._rep), self._lib.pyclingodl_rewrite, data, error=error)

    def register_options(self, options):
        self._call("register_options", self._theory, self._cast("clingo_options_t*", options._rep))

    def validate_options(self):
        self._call("validate_options", self._theory)

    def on_model(self, model):
        self._call("on_model", self._theory, self._cast("clingo_model_t*", model._rep))

    def on_statistics(self, step, accu):
        self._call("on_statistics", self._theory, self._cast("clingo_statistics_t*", step._rep), self._cast("clingo_statistics_t*", accu._rep))

    def lookup_symbol(self, symbol):
        idx = self._ffi.new("size_t*")
        if self._lib_fun("lookup_symbol")(self._theory, symbol._rep, idx):
            return idx[0]
        return None

    def get_symbol(self, index):
        return Symbol(self._lib_fun("get_symbol")(self._theory, index))

    def has_value(self, thread_id, index):
        return self._lib_fun("assignment_has_value")(self._theory, thread_id, index)

    def get_value(self, thread_id, index):
        value = self._ffi.new(f"{self._pre}_value_t*")
        self._lib_fun("assignment_get_value")(self._theory, thread_id, index, value)
        if value.type == getattr(self._lib, f"{self._pre}_value_type_int"):
            return value.int_number
        if value.type == getattr(self._lib, f"{self._pre}_value_type_double"):
            return value.double_number
        if value.type == getattr(self._lib, f"{self._pre}_value_type_symbol"):
            return Symbol(value.symbol)
        raise RuntimeError(f"unexpected type of value {value.type}")

    def assignment(self, thread_id):
        idx = self._ffi.new("size_t*")
        self._lib_fun("assignment_begin")(self._theory, thread_id, idx)
        while self._lib_fun("assignment_next")(self._theory, thread_id, idx):
            if self.has_value(thread_id, idx[0]):
                yield self.get_symbol(idx[0]), self.get_value(thread_id, idx[0])
