import os, re, subprocess, sys
import cffi


def _load():
    src = subprocess.run(["gcc", "-E", "-P", "-x", "c", "/usr/include/clingo.h"], stdout=subprocess.PIPE, text=True, check=True).stdout
    src = "typedef int32_t clingo_literal_t;\n" + src.split("clingo_literal_t;", 1)[1]
    src = re.sub(r'__attribute__ *\(\(visibility *\("default"\)\)\)', "", src)
    ffi = cffi.FFI()
    ffi.cdef(src)
    return ffi, ffi.dlopen("libclingo.so.4")


ffi, lib = _load()


def error_message():
    msg = lib.clingo_error_message()
    return ffi.string(msg).decode() if msg != ffi.NULL else "no message"


def check(ret, error=None):
    if not ret:
        if error is not None and error.exc is not None:
            exc, error.exc = error.exc, None
            raise exc
        raise RuntimeError(error_message())


class Error:
    """Keeps the exception raised in a callback."""

    def __init__(self):
        self.exc = None

    def guard(self, fun, *args):
        try:
            ret = fun(*args)
            return True if ret is None else ret
        except BaseException as exc:  # pylint: disable=broad-except
            if self.exc is None:
                self.exc = exc
            lib.clingo_set_error(lib.clingo_error_unknown, str(exc).encode())
            return False


def addr(ptr):
    return int(ffi.cast("uintptr_t", ptr))
