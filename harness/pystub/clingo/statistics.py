from ._core import ffi, lib, check


class StatisticsMap:
    def __init__(self, rep):
        self._rep = rep


def mutable(rep):
    return StatisticsMap(rep)


def read(stats, key=None):
    """Convert statistics to Python objects."""
    if key is None:
        ret = ffi.new("uint64_t*")
        check(lib.clingo_statistics_root(stats, ret))
        key = ret[0]
    typ = ffi.new("clingo_statistics_type_t*")
    check(lib.clingo_statistics_type(stats, key, typ))
    if typ[0] == lib.clingo_statistics_type_value:
        val = ffi.new("double*")
        check(lib.clingo_statistics_value_get(stats, key, val))
        return val[0]
    size, sub = ffi.new("size_t*"), ffi.new("uint64_t*")
    if typ[0] == lib.clingo_statistics_type_array:
        check(lib.clingo_statistics_array_size(stats, key, size))
        res = []
        for i in range(size[0]):
            check(lib.clingo_statistics_array_at(stats, key, i, sub))
            res.append(read(stats, sub[0]))
        return res
    if typ[0] == lib.clingo_statistics_type_map:
        check(lib.clingo_statistics_map_size(stats, key, size))
        res = {}
        name = ffi.new("char const **")
        for i in range(size[0]):
            check(lib.clingo_statistics_map_subkey_name(stats, key, i, name))
            check(lib.clingo_statistics_map_at(stats, key, name[0], sub))
            res[ffi.string(name[0]).decode()] = read(stats, sub[0])
        return res
    return None
