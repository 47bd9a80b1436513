"""What each property's check runs: harness entry points, bounds per tier, language modes."""
import props
COMMON_ASSUMPTIONS = props.COMMON
META = {q["id"]: dict(bounds=q["bounds"], outside=q["outside"], assumptions=q["extra"]) for q in props.PROPS}
WIDE = [dict(h="enum_wide.cpp", entry=e) for e in ("enum_wide1", "enum_wide2", "enum_wide3", "enum_wide4", "enum_wide7", "enum_wide9", "enum_wide17")] + \
       [dict(h="enum_wide.cpp", entry=e, defs=["-DWIDE"], native=False, cost=9) for e in ("enum_wide33", "enum_wide66", "enum_wide128")] + \
       [dict(h="enum_wide.cpp", entry=e, defs=["-DWIDER"], native=False, cost=9) for e in ("enum_wide129", "enum_wide255")]
JOBS = {
 "C01": [
  dict(h="seq_vector.cpp", entry="vec_history_tr", params=dict(n0=3, k=2, mx=3), thorough=dict(k=3), cost=9),
  dict(h="seq_vector.cpp", entry="vec_long_tr", params=dict(n=33), cost=3),
 ],
 "C02": [
  dict(h="seq_fixed.cpp", entry="arrvec_history3_tr", params=dict(k=3), cost=9),
  dict(h="seq_fixed.cpp", entry="arrvec_history1_tr", params=dict(k=3), cost=5),
  dict(h="seq_fixed.cpp", entry="arrvec_history4_int", params=dict(k=2), cost=5),
  dict(h="seq_fixed.cpp", entry="arrvec_long_tr", params=dict(k=1), cost=5),
  dict(h="seq_fixed.cpp", entry="array_case_tr", params=dict(k=2), cost=5),
  dict(h="seq_fixed.cpp", entry="array_case_int", params=dict(k=2), cost=5),
  dict(h="seq_fixed.cpp", entry="init_lists", cost=5),
 ],
 "C03": [
  dict(h="seq_vector.cpp", entry="vec_history_tr", params=dict(n0=2, k=2, mx=2), thorough=dict(n0=3, mx=4), cost=9),
  dict(h="seq_vector.cpp", entry="vec_long_tr", params=dict(n=17), thorough=dict(n=40), cost=3),
  dict(h="seq_fixed.cpp", entry="arrvec_history3_tr", params=dict(k=2), thorough=dict(k=3), cost=9),
  dict(h="seq_fixed.cpp", entry="array_case_tr", params=dict(k=2), cost=5),
  dict(h="seq_fixed.cpp", entry="init_lists", cost=5),
 ] + [dict(h="seq_value.cpp", entry=e) for e in "value_array_tr value_arrvec_tr value_vector_tr conversions".split()],
 "C04": [dict(h="seq_value.cpp", entry=e) for e in "value_array_tr value_arrvec_tr value_vector_tr value_array_int value_arrvec_int value_vector_int conversions".split()],

 "C05": [dict(h="cyclic.cpp", entry=e, params=dict(k=k)) for e, k in (("vcb1", 8), ("vcb2", 8), ("vcb3", 10), ("vcb5", 16), ("vcb16", 50))] + [dict(h="cyclic.cpp", entry="vcb_write_through", known=True)],
 "C06": [dict(h="cyclic.cpp", entry=e, params=dict(k=k)) for e, k in (("vcq1", 6), ("vcq2", 6), ("vcq3", 5), ("vcq4", 4), ("vcq12", 2))] + [dict(h="cyclic.cpp", entry="vcq_write_through", known=True)],
 "C07": [dict(h="cyclic.cpp", entry=e) for e in ("vcb_values_tr", "vcb_values1_tr", "vcb_values_int", "vcq_values_tr", "vcq_values1_tr", "vcq_values_int")],

 "C08": [dict(h="enums.cpp", entry="enum_history", params=dict(n=3), thorough=dict(n=4), std=["17", "11"]), dict(h="enums.cpp", entry="enum_moveout")] +
        WIDE,
 "C09": [dict(h="enums.cpp", entry=e, std=["11", "17", "20"]) for e in ("match_dispatch",)] + WIDE,
 "C10": [dict(h="maybe.cpp", entry="maybe_laws", std=["17", "11"]), dict(h="maybe.cpp", entry="maybe_history", params=dict(n=5), thorough=dict(n=6))],
 "C12": [dict(h="hof.cpp", entry=e) for e in "hof_array hof_array1 hof_arrvec hof_vector hof_stdarray hof_stdvector hof_arrayview hof_arrvecview hof_vectorview hof2_array_array hof2_array_arrvec hof2_arrvec_arrvec hof2_arrvec_vector hof2_vector_array hof2_vector_stdvector hof2_views mut_array_arrvec mut_vector_vector mut_arrvec_std hof3_fixed hof3_arrays hof3_mixed hof3_dyn hof_lifetime".split()],
 "C13": [dict(h="build_seq.cpp", entry=e) for e in "from_function_case append_arrays append_arrvecs append_vectors append_views concat_aa concat_av concat_va concat_vv concat_dyn cart_array_array cart_arrvec_array cart_vector_arrvec cart_std_view".split()],
 "C14": [dict(h="views.cpp", entry=e) for e in "view_array3 view_array4 view_arrvec view_vector view_stdvector view_stdarray view_vectorview view_arrvecview".split()],
 "C15": [dict(h="search.cpp", entry=e) for e in "search_array search_arrvec search_vector search_stdvector search_stdarray search_arrayview search_arrvecview search_vectorview".split()],
 "C16": [dict(h="sorting.cpp", entry=e, params=dict(n=6), thorough=dict(n=7)) for e in "sort_unstable_plain sort_quick sort_heap sort_insertion sort_intro sort_merge".split()] +
        [dict(h="sorting.cpp", entry=e, params=dict(n=5), thorough=dict(n=6)) for e in "sort_by_desc sort_by_low sort_by_lambda sort_range".split()] + [dict(h="sorting.cpp", entry=e) for e in ("sort_lifetime", "sort_ints")],
 "C17": [dict(h="sorting.cpp", entry=e, params=dict(n=6), thorough=dict(n=7)) for e in "sort_plain sort_tim sort_insertion".split()] + [dict(h="sorting.cpp", entry=e, thorough=dict(two=1)) for e in ("sort_runs", "sort_runs_by")] + [dict(h="sorting.cpp", entry="sort_by_low", params=dict(n=5), thorough=dict(n=6)), dict(h="sorting.cpp", entry="sort_by_desc", params=dict(n=5), thorough=dict(n=6))],
 "C18": [dict(h="str.cpp", entry="string_history", params=dict(k=2, lo=lo, hi=hi), thorough=dict(k=3), cost=9) for lo, hi in ((0, 1), (2, 2), (3, 3), (4, 4), (5, 5))] + [dict(h="str.cpp", entry="wstring_history", params=dict(k=1), thorough=dict(k=2), cost=5), dict(h="str.cpp", entry="u16string_history", params=dict(k=1), thorough=dict(k=2), cost=5), dict(h="str.cpp", entry="u32string_history", params=dict(k=1), thorough=dict(k=2), cost=5), dict(h="str.cpp", entry="string_join")],
 "C19": [dict(h="str.cpp", entry=e) for e in "string_compare u16string_compare wstring_compare string_c_equal u32string_c_equal string_std".split()],
 "C20": [dict(h="files.cpp", entry="file_lines", params=dict(len=6), thorough=dict(len=8)), dict(h="files.cpp", entry="file_writes", params=dict(k=3, budget=7), thorough=dict(k=4, budget=9)), dict(h="files.cpp", entry="file_roundtrip"), dict(h="files.cpp", entry="file_long_line"), dict(h="files.cpp", entry="file_long_write"), dict(h="files.cpp", entry="file_many_lines"), dict(h="files.cpp", entry="file_handles", params=dict(k=4), thorough=dict(k=6))],
 "C21": [dict(h="conc.cpp", entry=e, params=dict(spurious=1)) for e in "bq_dyn_1p1c bq_dyn_2p1c bq_dyn_1p2c bq_fix_1p1c bq_fix_2p1c bq_fix_1p2c".split()] + [dict(h="conc.cpp", entry=e, params=dict(spurious=1)) for e in "bq_dyn_2p2c bq_fix_2p2c bq_fix_2p1c_2 bq_dyn_2p1c_2".split()] + [dict(h="conc.cpp", entry=e) for e in "bq_fifo_dyn bq_fifo_fix2 bq_fifo_fix3 bq_life_dyn bq_life_fix bq_over_1p1c".split()],
 "C22": [dict(h="conc.cpp", entry=e) for e in "nq_dyn_1p1c nq_dyn_2p1c nq_dyn_1p2c nq_dyn_peek nq_fix_1p1c nq_fix_2p1c nq_fix_1p2c nq_fix_peek nq_fifo_dyn nq_fifo_fix2 nq_life_dyn nq_life_fix nq_dyn_stocked nq_fix_stocked nq_fix_stocked3 nq_over_1p1c".split()],
 "C23": [dict(h="conc.cpp", entry=e) for e in "db_1p db_1p3 db_2p db_2p2 db_history db_life db_over".split()],
}

def L(*es): return [dict(h="long.cpp", entry=e, cost=4) for e in es]
JOBS["C12"] += L("long_hof_vector", "long_hof_arrvec", "long_hof_array", "long_hof_stdvector", "long_hof_view", "long_mut_vector", "long_mut_array", "long_filter_vector", "long_filter_arrvec", "long_filter_array")
JOBS["C13"] += L("long_append_vectors", "long_append_arrvec", "long_from_function", "long_concat", "long_cartesian")
JOBS["C14"] += L("long_view_vector", "long_view_arrvec", "long_view_array")
JOBS["C15"] += L("long_search_vector", "long_search_arrvec", "long_search_array", "long_search_view")
JOBS["C18"] += [dict(h="str.cpp", entry=e, cost=7) for e in ("string_long_op", "u16string_long_op")]
JOBS["C19"] += [dict(h="str.cpp", entry=e, cost=7) for e in ("string_long_compare", "u16string_long_compare", "wstring_long_compare")]
JOBS["C24"] = [dict(h="numeric.cpp", entry=e) for e in "num_int num_i8 num_u16 num_i64 num_full num_product num_long num_long_extremes num_double num_float num_empty num_scalar num_approx".split()] + [dict(h="lists.cpp", entry="num_lists", optional=True)]
JOBS["C25"] = [dict(h="stats.cpp", entry=e, flags=["--real"]) for e in "st_one_vector st_one_arrvec st_one_std st_one_view st_one_array3 st_one_array1 st_two_vector st_two_arrvec_std st_two_array3 st_lag_vector st_lag_array3 st_trend_vector st_trend_arrvec st_trend_array3 st_trend_std st_long st_long_two st_huge_trend st_ints st_i8 st_int_errors st_narrow_trend".split()]
for j in JOBS["C25"]:
    if j["entry"] == "st_int_errors": pass
    elif j["entry"] in ("st_ints", "st_i8"): pass
    elif j["entry"].startswith("st_two"): j["params"] = dict(n=3)
    else: j["params"] = dict(n=5)
JOBS["C28"] = [dict(h="alloc.cpp", entry=e, params=dict(k=2), thorough=dict(k=3)) for e in ("alloc_vector_int", "alloc_vector_tr", "alloc_string")]
JOBS["C11"] = [dict(h="core.cpp", entry=e, std=["17", "11"]) for e in ("tuple_values", "tuple_equal", "tuple_lifetime", "tuple_wide")]
JOBS["C27"] = [dict(h="core.cpp", entry=e, std=["17", "11"]) for e in ("compose_laws", "compose_values", "compose_owned", "func_ptr_calls")]
JOBS["C26"] = [dict(h="fmt.cpp", entry=e) for e in "fmt_i8 fmt_i16 fmt_i32 fmt_u32 fmt_i64 fmt_u64 fmt_long_int fmt_specs fmt_args fmt_strings fmt_vector fmt_arrvec fmt_array fmt_vcb fmt_vcq fmt_elements fmt_long fmt_many fmt_nested fmt_texts fmt_print".split()]
for j in JOBS["C26"]:
    if j["entry"] == "fmt_many": j["cost"] = 6
    if j["entry"] == "fmt_i16": j["thorough"] = dict(max=32768)
    if j["entry"] in ("fmt_vector", "fmt_arrvec"): j["thorough"] = dict(n=4)

JOBS["C21"] += [dict(h="conc.cpp", entry=e, cost=8) for e in "bq_dyn_2p2c_2 bq_fix_2p2c_2 bq_dyn_3p1c bq_fix_1p3c".split()]
JOBS["C22"] += [dict(h="conc.cpp", entry=e, cost=8) for e in "nq_dyn_2p2c nq_fix_2p2c nq_fix_3p1c".split()]
JOBS["C23"] += [dict(h="conc.cpp", entry=e, cost=8) for e in "db_3p db_2p_3 db_1p4".split()]

JOBS["C16"] += [dict(h="sorting.cpp", entry=e, cost=6) for e in "sort_big_quick sort_big_heap sort_big_intro sort_big_unstable sort_big_unstable_by sort_big_merge sort_big_range sort_mid sort_big_tim sort_big_insertion".split()] + [dict(h="sorting.cpp", entry="sort_huge", cost=6, params=dict(lo=k, hi=k)) for k in (0, 1, 2, 3, 4)]
JOBS["C17"] += [dict(h="sorting.cpp", entry=e, cost=6) for e in "sort_big_insertion sort_big_tim sort_many_runs".split()] + [dict(h="sorting.cpp", entry="sort_huge", cost=6, params=dict(lo=0, hi=0))]

JOBS["C16"] += [dict(h="sorting.cpp", entry=e, params=dict(n=4), thorough=dict(n=5)) for e in ("sort_rows", "sort_rows_stable")]
JOBS["C17"] += [dict(h="sorting.cpp", entry="sort_rows_stable", params=dict(n=4), thorough=dict(n=5))]
JOBS["C21"] += [dict(h="conc.cpp", entry=e, cost=6) for e in ("bq_many_dyn", "bq_many_fix")] + [dict(h="conc.cpp", entry=e) for e in ("bq_load_dyn", "bq_load_fix")]
JOBS["C22"] += [dict(h="conc.cpp", entry=e, cost=6) for e in ("nq_many_dyn", "nq_many_fix")] + [dict(h="conc.cpp", entry=e) for e in ("nq_load_dyn", "nq_load_fix")]
JOBS["C23"] += [dict(h="conc.cpp", entry="db_many", cost=6), dict(h="conc.cpp", entry="db_load")]

def G(*es): return [dict(h="huge.cpp", entry=e, cost=6) for e in es]
JOBS["C01"] += G("huge_vector"); JOBS["C03"] += G("huge_vector", "huge_arrvec"); JOBS["C04"] += G("huge_vector", "huge_arrvec", "huge_array"); JOBS["C07"] += G("huge_vcb_tr", "huge_vcq_tr"); JOBS["C28"] += [dict(h="alloc.cpp", entry="alloc_huge", cost=6)]; JOBS["C02"] += G("huge_arrvec", "huge_array"); JOBS["C05"] += G("huge_vcb"); JOBS["C06"] += G("huge_vcq"); JOBS["C18"] += G("huge_string", "huge_u16string")
JOBS["C12"] += G("huge_hof"); JOBS["C13"] += G("huge_build"); JOBS["C14"] += G("huge_views"); JOBS["C15"] += G("huge_search"); JOBS["C24"] += G("huge_reduce")
def A(*es): return [dict(h="align.cpp", entry=e) for e in es]
JOBS["C08"] += A("align_enum"); JOBS["C03"] += A("align_arrvec", "align_vector", "align_array"); JOBS["C07"] += A("align_vcb", "align_vcq")
def N(*es): return [dict(h="nested.cpp", entry=e, params=dict(k=3), cost=7) for e in es]
JOBS["C01"] += N("nested_vector"); JOBS["C02"] += N("nested_arrvec"); JOBS["C03"] += N("nested_vector", "nested_arrvec"); JOBS["C04"] += N("nested_vector", "nested_arrvec"); JOBS["C05"] += N("nested_vcb"); JOBS["C07"] += N("nested_vcb", "nested_vcq", "nested_vcq_pop"); JOBS["C06"] += N("nested_vcq_pop"); JOBS["C08"] += N("nested_enum"); JOBS["C09"] += N("nested_enum"); JOBS["C10"] += N("nested_maybe")
def B(*es): return [dict(h="nested.cpp", entry=e) for e in es]
JOBS["C01"] += B("bag_vector", "bag_vector_list"); JOBS["C02"] += B("bag_array", "bag_arrvec", "bag_arrvec_list", "bag_arrvec_wider"); JOBS["C03"] += B("nested_tree"); JOBS["C04"] += B("bag_array", "bag_arrvec", "bag_vector")
JOBS["C05"] += B("bag_vcb"); JOBS["C06"] += B("bag_vcq"); JOBS["C07"] += B("bag_vcb", "bag_vcq"); JOBS["C08"] += B("nested_tree", "bag_enum"); JOBS["C10"] += B("bag_enum")
for _js in JOBS.values():
    for _j in _js:
        if _j["entry"] == "nested_vcq_pop": _j["params"] = dict(k=6); _j["thorough"] = dict(k=8)

# every language level the library supports: C++17 everywhere, C++11 (the level of its own build) for all but the longest
# runs, and C++11, 14 and 20 for everything in the thorough tier
_LONG = set("""arrvec_history3_tr arrvec_history4_int arrvec_long_tr st_two_array3 st_two_vector st_two_arrvec_std fmt_vcq fmt_vcb fmt_print fmt_specs fmt_vector fmt_array fmt_args
long_search_vector long_search_arrvec long_search_view sort_insertion sort_tim long_concat num_i64 long_filter_vector st_i8 st_int_errors num_approx""".split())
for _js in JOBS.values():
    for _j in _js:
        if _j.get("known"): continue
        _s = _j.setdefault("std", ["17"])
        if _j["h"] == "align.cpp": _j["std_thorough"] = ["20"]; continue   # new of over-aligned types needs C++17
        if _j["h"] != "huge.cpp" and "11" not in _s and _j["entry"] not in _LONG and _j.get("cost", 0) < 6: _s.append("11")
        _j["std_thorough"] = [x for x in ("11", "14", "20") if x not in _s and not (_j["h"] == "huge.cpp" and x == "11")]
