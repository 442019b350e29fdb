#!/usr/bin/env python3
"""Generate forwarding wrappers (for ld --wrap) for the clingo C API.

usage: gen_wrap.py CLINGO_H OUT_INC OUT_FLAGS
Every wrapped function that reports success through a bool can be made to fail
by the fault injector while code of the theory is running.
"""
import re, sys

src = open(sys.argv[1]).read()
src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
src = re.sub(r'//[^\n]*', '', src)
PREFIX = ('clingo_theory_atoms_', 'clingo_propagate_init_', 'clingo_propagate_control_', 'clingo_assignment_',
          'clingo_statistics_', 'clingo_model_', 'clingo_ast_', 'clingo_program_builder_', 'clingo_symbol_create_',
          'clingo_options_', 'clingo_control_add', 'clingo_control_register_propagator', 'clingo_control_ground',
          'clingo_control_solve', 'clingo_solve_handle_', 'clingo_control_release_external', 'clingo_add_string',
          'clingo_control_assign_external', 'clingo_symbol_', 'clingo_parse_term', 'clingo_control_new', 'clingo_control_load')
# functions whose bool is not an error indicator, are handled by hand, or cannot be forwarded
SKIP = {'clingo_assignment_has_conflict', 'clingo_assignment_has_literal', 'clingo_assignment_is_total',
        'clingo_propagate_control_has_watch', 'clingo_ast_less_than', 'clingo_ast_equal', 'clingo_ast_build',
        'clingo_symbol_is_equal_to', 'clingo_symbol_is_less_than'}
HAND = {'clingo_control_register_propagator', 'clingo_propagate_init_add_literal', 'clingo_propagate_init_add_clause',
        'clingo_propagate_control_add_clause', 'clingo_propagate_control_propagate',
        'clingo_propagate_control_add_watch', 'clingo_propagate_init_add_watch_to_thread'}

# functions that (might) add to tables of libclingo shared by all threads: see M::TableScope
TABLES = ('clingo_symbol_create_', 'clingo_ast_parse_', 'clingo_ast_attribute_', 'clingo_program_builder_', 'clingo_control_add',
          'clingo_control_ground', 'clingo_add_string', 'clingo_control_assign_external', 'clingo_control_release_external',
          'clingo_parse_term', 'clingo_control_new', 'clingo_control_load')

def split(args):
    out, depth, cur = [], 0, ''
    for ch in args:
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''
            continue
        depth += ch == '('
        depth -= ch == ')'
        cur += ch
    out.append(cur)
    return [a.strip() for a in out]

inc, flags = [], []
for m in re.finditer(r'CLINGO_VISIBILITY_DEFAULT\s+bool\s+(clingo_\w+)\s*\(', src):
    name = m.group(1)
    i, depth = m.end(), 1
    while depth:
        depth += src[i] == '('
        depth -= src[i] == ')'
        i += 1
    args = src[m.end():i - 1]
    if not name.startswith(PREFIX) or name in SKIP or '...' in args:
        continue
    ps = split(' '.join(args.split()))
    names = []
    for p in ps:
        f = re.match(r'.*\(\*(\w+)\)\s*\(.*\)$', p)
        names.append(f.group(1) if f else re.search(r'(\w+)(\[\])?$', p).group(1))
    flags.append(name)
    if name in HAND:
        inc.append(f'extern "C" bool __real_{name}({", ".join(ps)});')
        continue
    scope = '    M::TableScope ts;\n' if name.startswith(TABLES) else ''
    inc.append(f'extern "C" bool __real_{name}({", ".join(ps)});\n'
               f'extern "C" bool __wrap_{name}({", ".join(ps)}) {{\n{scope}'
               f'    if (M::inTheory != 0) {{\n'
               f'        if (faultHit("{name}")) {{ return false; }}\n'
               f'        M::OutScope os;\n'
               f'        return __real_{name}({", ".join(names)});\n'
               f'    }}\n'
               f'    return __real_{name}({", ".join(names)});\n}}')
flags.append('clingo_ast_build')
open(sys.argv[2], 'w').write('\n'.join(inc) + '\n')
open(sys.argv[3], 'w').write('\n'.join('-Wl,--wrap=' + f for f in flags) + '\n')
