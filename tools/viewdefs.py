"""Default inlining policy for canonical views."""
GLUE = [
    r"std::unique_ptr::.*", r"std::__uniq_ptr_(impl|data)::.*", r"std::tuple::.*", r"std::_(Tuple_impl|Head_base)::.*",
    r"std::(get|__get_helper|move|forward|addressof|__addressof|swap|exchange|__exchange|min|max|distance|__distance|__iterator_category|advance|__advance|next|prev|declval|make_pair|operator&|operator\||__niter_base|__niter_wrap|__miter_base|begin|end|cbegin|cend|tie|ref|cref|as_const|make_tuple)",
    r"std::(atomic|__atomic_base|atomic_flag|__atomic_flag_base|__atomic_impl)(::.*)?",
    r"std::(lock_guard|unique_lock|mutex|__mutex_base)::.*",
    r"std::chrono::.*", r"std::array::.*", r"std::pair::.*", r"std::initializer_list::.*", r"std::reference_wrapper::.*",
    r"std::__array_traits::.*",
    r"__gnu_cxx::__normal_iterator::.*", r"__gnu_cxx::operator[-+=!<>]+", r"__gnu_cxx::(__ops::)?.*iter.*",
    r"std::operator(==|!=|<|>|<=|>=|-|\+)?",
    r"std::vector::(begin|end|cbegin|cend|size|empty|operator\[\]|data|back|front|capacity|_M_data_ptr)",
    r"std::(copy_n|__copy_n|__copy_n_a|copy|__copy_move_a|__copy_move_a1|__copy_move_a2|__size_to_integer|fill|__fill_a|__fill_a1|fill_n|__fill_n_a)", r"std::__copy_move::.*",
    r"std::(__shared_ptr|__shared_ptr_access|shared_ptr)::(get|operator->|operator\*|operator bool|_M_get)",
    r"std::(numeric_limits|integral_constant|is_.*)::.*",
    r"std::__(invoke|invoke_impl|invfwd).*", r"std::__bit_cast.*",
    r"std::reverse_iterator::.*", r"std::back_insert_iterator::.*", r"std::(back_inserter|transform|for_each|accumulate)",
    r"operator new\[\]$",
]
REPO_INLINE = [r"lightstep::.*", r"verif::.*", r"\(anon\)::.*", r".*\(lambda:[0-9]+\).*"]

def spec(name, roots, barriers=(), inlines=(), replaces=()):
    s = ["view " + name]
    s += ["root " + r for r in roots]
    s += ["barrier " + r.replace(" ", ".") for r in barriers]
    s += ["inline " + r.replace(" ", ".") for r in list(GLUE) + REPO_INLINE + list(inlines)]
    s += ["replace %s %s" % r for r in replaces]
    return "\n".join(s) + "\n"
