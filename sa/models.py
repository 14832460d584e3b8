"""All transfer functions, re-exported for the interpreter."""
from .m_core import *  # noqa
from .m_ext import *  # noqa
from .m_meth import getattr, arr_setattr, call_method, call_special, mkindexof, mkcolumns, mkshift  # noqa
from .m_core import apply_path, put_path, list_extend, dict_set, dict_update, dict_items, elem_of, truth_of, delitem, concrete_items, loop_elem, close_mu, mkmap, builtin, binop, unop, compare, compare_is, contains, getitem, setitem  # noqa
from .m_ext import exc_name, handler_names, exc_matches, with_enter, ext_attr, call_ext, is_dataclass, dataclass_init  # noqa
