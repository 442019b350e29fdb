from ._core import ffi, lib, check, Error, addr
from .solving import Model, SolveResult
from .statistics import StatisticsMap, read


@ffi.callback("void(clingo_warning_t, char const *, void *)")
def _silent(_code, _msg, _data):
    pass


class SolveHandle:
    def __init__(self, rep, cb, error):
        self._rep, self._cb, self._error = rep, cb, error

    def __enter__(self):
        return self

    def __exit__(self, *args):
        check(lib.clingo_solve_handle_close(self._rep), self._error)
        return False

    def __iter__(self):
        while True:
            check(lib.clingo_solve_handle_resume(self._rep), self._error)
            model = ffi.new("clingo_model_t const **")
            check(lib.clingo_solve_handle_model(self._rep, model), self._error)
            if model[0] == ffi.NULL:
                break
            yield Model(ffi.cast("clingo_model_t*", model[0]))

    def get(self):
        ret = ffi.new("clingo_solve_result_bitset_t*")
        check(lib.clingo_solve_handle_get(self._rep, ret), self._error)
        return SolveResult(ret[0])


class Control:
    def __init__(self, arguments=(), rep=None):
        self._free = rep is None
        self._error = Error()
        if rep is None:
            args = [ffi.new("char[]", x.encode()) for x in arguments]
            ret = ffi.new("clingo_control_t**")
            check(lib.clingo_control_new(ffi.new("char const *[]", args), len(args), _silent, ffi.NULL, 20, ret))
            rep = ret[0]
        self._rep = rep

    def free(self):
        if self._free and self._rep is not None:
            lib.clingo_control_free(self._rep)
        self._rep = None

    def __del__(self):
        self.free()

    def add(self, name, params, program):
        pars = [ffi.new("char[]", x.encode()) for x in params]
        check(lib.clingo_control_add(self._rep, name.encode(), ffi.new("char const *[]", pars), len(pars), program.encode()))

    def ground(self, parts):
        names = [ffi.new("char[]", name.encode()) for name, _ in parts]
        args = [ffi.new("clingo_symbol_t[]", [x._rep for x in pars]) for _, pars in parts]
        arr = ffi.new("clingo_part_t[]", len(names))
        for i, (_, pars) in enumerate(parts):
            arr[i].name, arr[i].params, arr[i].size = names[i], args[i], len(pars)
        check(lib.clingo_control_ground(self._rep, arr, len(names), ffi.NULL, ffi.NULL))

    def solve(self, assumptions=(), on_model=None, on_statistics=None, yield_=False):
        error = Error()

        @ffi.callback("bool(clingo_solve_event_type_t, void *, void *, bool *)", error=False)
        def event(kind, ev, _data, goon):
            def handle():
                goon[0] = True
                if kind == lib.clingo_solve_event_type_model and on_model is not None:
                    ret = on_model(Model(ffi.cast("clingo_model_t*", ev)))
                    goon[0] = ret is None or bool(ret)
                if kind == lib.clingo_solve_event_type_statistics and on_statistics is not None:
                    stats = ffi.cast("clingo_statistics_t**", ev)
                    on_statistics(StatisticsMap(stats[0]), StatisticsMap(stats[1]))

            return error.guard(handle)

        hnd = ffi.new("clingo_solve_handle_t**")
        check(lib.clingo_control_solve(self._rep, lib.clingo_solve_mode_yield if yield_ else 0, ffi.NULL, 0, event, ffi.NULL, hnd), error)
        handle = SolveHandle(hnd[0], event, error)
        if yield_:
            return handle
        with handle:
            return handle.get()

    @property
    def statistics(self):
        stats = ffi.new("clingo_statistics_t const **")
        check(lib.clingo_control_statistics(self._rep, stats))
        return read(ffi.cast("clingo_statistics_t*", stats[0]))
