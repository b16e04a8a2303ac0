"""All the contracts, by group."""
from . import (core, cons, arith, util_, canon, search, equality, state, preds, subshape,
               tsets, registry, testing, user, numpy_, errors, graph, unite, lexing, parsing, symbols, disc)

MODULES = {'core': core, 'cons': cons, 'arith': arith, 'util': util_, 'canon': canon,
           'search': search, 'equality': equality, 'state': state,
           'preds': preds, 'subshape': subshape, 'tsets': tsets, 'registry': registry, 'testing': testing,
           'user': user, 'numpy': numpy_, 'errors': errors, 'graph': graph, 'unite': unite, "lexing": lexing, "parsing": parsing, "symbols": symbols, "disc": disc}

# which properties a unit is part of (units reached through the contracts that
# these use are verified with them)
PROPS = {
    'c_launder': 'C03', 'c_launder_measure': 'C03',
    'c_DataShape_init': 'C03 C04 C14', 'c_Fixed_init': 'C03',
    'c_Time_init': 'C03', 'c_DateTime_init': 'C03', 'c_Ellipsis_init': 'C03',
    'c_Units_init': 'C03', 'c_Decimal_init': 'C03', 'c_Option_init': 'C03',
    'c_Map_init': 'C03', 'c_Function_init': 'C03', 'c_Tuple_init': 'C03',
    'c_Record_init': 'C03', 'c_Categorical_init': 'C03', 'c_TypeVar_init': 'C03',
    'c_isidentifier': 'C03 C13',
    'c_subarray_D': 'C04', 'c_rmul_D': 'C04', 'c_shape_D': 'C04', 'c_shape_M': 'C04',
    'c_measure_D': 'C04', 'c_measure_M': 'C04', 'c_len_D': 'C04', 'c_len_M': 'C04',
    'c_getitem_D': 'C04', 'c_getitem_M': 'C04', 'c_subarray_M': 'C04', 'c_mul': 'C04',
    'c_rmul_M': 'C04',
    'c_cat': 'C20',
    'c_normalize_time_unit': 'C23', 'c_TimeDelta_init': 'C23 C03',
    'c_String_init': 'C23 C03',
    'c_validate_node': 'C14', 'c_traverse': 'C14', 'c_validate': 'C14',
    'c_optionify': 'C07', 'c_promote': 'C07', 'c_lemma_commutes': 'C07',
    'c_lemma_optional': 'C07', 'c_from_numpy_dtype': 'C06 C07',
    'c_isnumeric': 'C15', 'c_unpack_slice': 'C03', 'c_record_literal': 'C03', 'c_dshape': 'C15 C14', 'c_parse': 'C12 C14 C15',
}


def load(reg):
    for name, m in MODULES.items():
        for f in m.CONTRACTS:
            c = f()
            c.group = name
            c.key = f.__name__
            c.props = tuple(PROPS.get(c.key, getattr(m, 'PROP', '')).split())
            reg.add(c)
