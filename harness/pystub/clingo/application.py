from ._core import ffi, lib, check, Error
from .control import Control
from .solving import Model


class Flag:
    def __init__(self, value=False):
        self._flag = ffi.new("bool*", value)

    def __bool__(self):
        return self._flag[0]


class ApplicationOptions:
    def __init__(self, rep):
        self._rep = rep

    def add_flag(self, group, option, description, target):
        check(lib.clingo_options_add_flag(self._rep, group.encode(), option.encode(), description.encode(), target._flag))


class Application:
    program_name = "clingo"
    version = "0"
    message_limit = 20

    def register_options(self, options):
        pass

    def validate_options(self):
        return True


def clingo_main(app, arguments):
    error = Error()
    keep = [ffi.new("char[]", app.program_name.encode()), ffi.new("char[]", app.version.encode())]

    @ffi.callback("char const *(void *)")
    def program_name(_data):
        return keep[0]

    @ffi.callback("char const *(void *)")
    def version(_data):
        return keep[1]

    @ffi.callback("unsigned(void *)")
    def message_limit(_data):
        return app.message_limit

    @ffi.callback("bool(clingo_control_t *, char const * const *, size_t, void *)", error=False)
    def main(control, files, size, _data):
        return error.guard(lambda: app.main(Control(rep=control), [ffi.string(files[i]).decode() for i in range(size)]))

    @ffi.callback("bool(clingo_model_t const *, clingo_default_model_printer_t, void *, void *)", error=False)
    def printer(model, default, default_data, _data):
        def call():
            check(default(default_data))

        return error.guard(lambda: app.print_model(Model(ffi.cast("clingo_model_t*", model)), call))

    @ffi.callback("bool(clingo_options_t *, void *)", error=False)
    def register_options(options, _data):
        return error.guard(lambda: app.register_options(ApplicationOptions(options)))

    @ffi.callback("bool(void *)", error=False)
    def validate_options(_data):
        return error.guard(app.validate_options)

    rep = ffi.new("clingo_application_t*")
    rep.program_name, rep.version, rep.message_limit, rep.main, rep.logger = program_name, version, message_limit, main, ffi.NULL
    rep.printer = printer if hasattr(app, "print_model") else ffi.NULL
    rep.register_options, rep.validate_options = register_options, validate_options
    args = [ffi.new("char[]", x.encode()) for x in arguments]
    return lib.clingo_main(rep, ffi.new("char const *[]", args), len(args), ffi.NULL)
