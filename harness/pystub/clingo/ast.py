from ._core import ffi, lib, check, Error
from .control import _silent


class AST:
    def __init__(self, rep):
        lib.clingo_ast_acquire(rep)
        self._rep = rep

    def __del__(self):
        lib.clingo_ast_release(self._rep)

    def __str__(self):
        size = ffi.new("size_t*")
        check(lib.clingo_ast_to_string_size(self._rep, size))
        buf = ffi.new("char[]", size[0])
        check(lib.clingo_ast_to_string(self._rep, buf, size[0]))
        return ffi.string(buf).decode()


def _callback(callback, error):
    @ffi.callback("bool(clingo_ast_t*, void *)", error=False)
    def fun(ast, _data):
        def handle():
            callback(AST(ast))

        return error.guard(handle)

    return fun


def parse_string(program, callback):
    error = Error()
    fun = _callback(callback, error)
    check(lib.clingo_ast_parse_string(program.encode(), fun, ffi.NULL, ffi.NULL, _silent, ffi.NULL, 20), error)


def parse_files(files, callback):
    error = Error()
    fun = _callback(callback, error)
    names = [ffi.new("char[]", x.encode()) for x in files]
    check(lib.clingo_ast_parse_files(ffi.new("char const *[]", names), len(names), fun, ffi.NULL, ffi.NULL, _silent, ffi.NULL, 20), error)


class ProgramBuilder:
    def __init__(self, control):
        ret = ffi.new("clingo_program_builder_t**")
        check(lib.clingo_program_builder_init(control._rep, ret))
        self._rep, self._control = ret[0], control

    def __enter__(self):
        check(lib.clingo_program_builder_begin(self._rep))
        return self

    def __exit__(self, typ, value, trace):
        check(lib.clingo_program_builder_end(self._rep))
        return False

    def add(self, ast):
        check(lib.clingo_program_builder_add(self._rep, ast._rep))
