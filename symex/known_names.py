"""attribute names of the real numpy/pandas objects (to tell unmodelled from non-existent)"""
KNOWN_NUMPY = set('ALLOW_THREADS BUFSIZE CLIP DataSource ERR_CALL ERR_DEFAULT ERR_IGNORE ERR_LOG ERR_PRINT ERR_RAISE ERR_WARN FLOATING_POINT_SUPPORT FPE_DIVIDEBYZERO FPE_INVALID FPE_OVERFLOW FPE_UNDERFLOW False_ Inf Infinity MAXDIMS MAY_SHARE_BOUNDS MAY_SHARE_EXACT NAN NINF NZERO NaN PINF PZERO RAISE RankWarning SHIFT_DIVIDEBYZERO SHIFT_INVALID SHIFT_OVERFLOW SHIFT_UNDERFLOW ScalarType True_ UFUNC_BUFSIZE_DEFAULT UFUNC_PYVALS_NAME WRAP _CopyMode _NoValue _UFUNC_API _add_newdoc_ufunc _builtins _core _distributor_init _financial_names _get_promotion_state _globals _int_extended_msg _mat _no_nep50_warning _pyinstaller_hooks_dir _pytesttester _set_promotion_state _specific_msg _typing _using_numpy2_behavior _utils abs absolute add add_docstring add_newdoc add_newdoc_ufunc all allclose alltrue amax amin angle any append apply_along_axis apply_over_axes arange arccos arccosh arcsin arcsinh arctan arctan2 arctanh argmax argmin argpartition argsort argwhere around array array2string array_equal array_equiv array_repr array_split array_str asanyarray asarray asarray_chkfinite ascontiguousarray asfarray asfortranarray asmatrix atleast_1d atleast_2d atleast_3d average bartlett base_repr binary_repr bincount bitwise_and bitwise_not bitwise_or bitwise_xor blackman block bmat bool_ broadcast broadcast_arrays broadcast_shapes broadcast_to busday_count busday_offset busdaycalendar byte byte_bounds bytes_ c_ can_cast cast cbrt cdouble ceil cfloat char character chararray choose clip clongdouble clongfloat column_stack common_type compare_chararrays compat complex128 complex256 complex64 complex_ complexfloating compress concatenate conj conjugate convolve copy copysign copyto corrcoef correlate cos cosh count_nonzero cov cross csingle ctypeslib cumprod cumproduct cumsum datetime64 datetime_as_string datetime_data deg2rad degrees delete deprecate deprecate_with_doc diag diag_indices diag_indices_from diagflat diagonal diff digitize disp divide divmod dot double dsplit dstack dtype dtypes e ediff1d einsum einsum_path emath empty empty_like equal errstate euler_gamma exceptions exp exp2 expand_dims expm1 extract eye fabs fastCopyAndTranspose fft fill_diagonal find_common_type finfo fix flatiter flatnonzero flexible flip fliplr flipud float128 float16 float32 float64 float_ float_power floating floor floor_divide fmax fmin fmod format_float_positional format_float_scientific format_parser frexp from_dlpack frombuffer fromfile fromfunction fromiter frompyfunc fromregex fromstring full full_like gcd generic genfromtxt geomspace get_array_wrap get_include get_printoptions getbufsize geterr geterrcall geterrobj gradient greater greater_equal half hamming hanning heaviside histogram histogram2d histogram_bin_edges histogramdd hsplit hstack hypot i0 identity iinfo imag in1d index_exp indices inexact inf info infty inner insert int16 int32 int64 int8 int_ intc integer interp intersect1d intp invert is_busday isclose iscomplex iscomplexobj isfinite isfortran isin isinf isnan isnat isneginf isposinf isreal isrealobj isscalar issctype issubclass_ issubdtype issubsctype iterable ix_ kaiser kernel_version kron lcm ldexp left_shift less less_equal lexsort lib linalg linspace little_endian load loadtxt log log10 log1p log2 logaddexp logaddexp2 logical_and logical_not logical_or logical_xor logspace longcomplex longdouble longfloat longlong lookfor ma mask_indices mat matmul matrix max maximum maximum_sctype may_share_memory mean median memmap meshgrid mgrid min min_scalar_type minimum mintypecode mod modf moveaxis msort multiply nan nan_to_num nanargmax nanargmin nancumprod nancumsum nanmax nanmean nanmedian nanmin nanpercentile nanprod nanquantile nanstd nansum nanvar nbytes ndarray ndenumerate ndim ndindex nditer negative nested_iters newaxis nextafter nonzero not_equal numarray number obj2sctype object_ ogrid oldnumeric ones ones_like outer packbits pad partition percentile pi piecewise place poly poly1d polyadd polyder polydiv polyfit polyint polymul polynomial polysub polyval positive power printoptions prod product promote_types ptp put put_along_axis putmask quantile r_ rad2deg radians random ravel ravel_multi_index real real_if_close rec recarray recfromcsv recfromtxt reciprocal record remainder repeat require reshape resize result_type right_shift rint roll rollaxis roots rot90 round round_ row_stack s_ safe_eval save savetxt savez savez_compressed sctype2char sctypeDict sctypes searchsorted select set_numeric_ops set_printoptions set_string_function setbufsize setdiff1d seterr seterrcall seterrobj setxor1d shape shares_memory short show_config show_runtime sign signbit signedinteger sin sinc single singlecomplex sinh size sometrue sort sort_complex source spacing split sqrt square squeeze stack std str_ string_ subtract sum swapaxes take take_along_axis tan tanh tensordot test testing tile timedelta64 trace tracemalloc_domain transpose trapz tri tril tril_indices tril_indices_from trim_zeros triu triu_indices triu_indices_from true_divide trunc typecodes typename ubyte ufunc uint uint16 uint32 uint64 uint8 uintc uintp ulonglong unicode_ union1d unique unpackbits unravel_index unsignedinteger unwrap ushort vander var vdot vectorize version void vsplit vstack where who zeros zeros_like'.split())
KNOWN_NDARRAY = set('T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split())
KNOWN_PANDAS = set('ArrowDtype BooleanDtype Categorical CategoricalDtype CategoricalIndex DataFrame DateOffset DatetimeIndex DatetimeTZDtype ExcelFile ExcelWriter Flags Float32Dtype Float64Dtype Grouper HDFStore Index IndexSlice Int16Dtype Int32Dtype Int64Dtype Int8Dtype Interval IntervalDtype IntervalIndex MultiIndex NA NaT NamedAgg Period PeriodDtype PeriodIndex RangeIndex Series SparseDtype StringDtype Timedelta TimedeltaIndex Timestamp UInt16Dtype UInt32Dtype UInt64Dtype UInt8Dtype _built_with_meson _config _is_numpy_dev _libs _pandas_datetime_CAPI _pandas_parser_CAPI _testing _typing _version_meson annotations api array arrays bdate_range compat concat core crosstab cut date_range describe_option errors eval factorize from_dummies get_dummies get_option infer_freq interval_range io isna isnull json_normalize lreshape melt merge merge_asof merge_ordered notna notnull offsets option_context options pandas period_range pivot pivot_table plotting qcut read_clipboard read_csv read_excel read_feather read_fwf read_gbq read_hdf read_html read_json read_orc read_parquet read_pickle read_sas read_spss read_sql read_sql_query read_sql_table read_stata read_table read_xml reset_option set_eng_float_format set_option show_versions test testing timedelta_range to_datetime to_numeric to_pickle to_timedelta tseries unique util value_counts wide_to_long'.split())
KNOWN_SERIES = set('T _AXIS_LEN _AXIS_ORDERS _AXIS_TO_AXIS_NUMBER _HANDLED_TYPES _accessors _accum_func _agg_examples_doc _agg_see_also_doc _align_for_op _align_frame _align_series _append _arith_method _as_manager _attrs _binop _can_hold_na _check_inplace_and_allows_duplicate_labels _check_is_chained_assignment_possible _check_label_or_level_ambiguity _check_setitem_copy _clear_item_cache _clip_with_one_bound _clip_with_scalar _cmp_method _consolidate _consolidate_inplace _construct_axes_dict _construct_result _constructor _constructor_expanddim _constructor_expanddim_from_mgr _constructor_from_mgr _data _deprecate_downcast _dir_additions _dir_deletions _drop_axis _drop_labels_or_levels _duplicated _find_valid_index _flags _flex_method _from_mgr _get_axis _get_axis_name _get_axis_number _get_axis_resolvers _get_block_manager_axis _get_bool_data _get_cacher _get_cleaned_column_resolvers _get_index_resolvers _get_label_or_level_values _get_numeric_data _get_rows_with_mask _get_value _get_values_tuple _get_with _getitem_slice _gotitem _hidden_attrs _indexed_same _info_axis _info_axis_name _info_axis_number _init_dict _init_mgr _inplace_method _internal_names _internal_names_set _is_cached _is_copy _is_label_or_level_reference _is_label_reference _is_level_reference _is_mixed_type _is_view _is_view_after_cow_rules _item_cache _ixs _logical_func _logical_method _map_values _maybe_update_cacher _memory_usage _metadata _mgr _min_count_stat_function _name _needs_reindex_multi _pad_or_backfill _protect_consolidate _reduce _references _reindex_axes _reindex_indexer _reindex_multi _reindex_with_indexers _rename _replace_single _repr_data_resource_ _repr_latex_ _reset_cache _reset_cacher _set_as_cached _set_axis _set_axis_name _set_axis_nocheck _set_is_copy _set_labels _set_name _set_value _set_values _set_with _set_with_engine _shift_with_freq _slice _stat_function _stat_function_ddof _take_with_is_copy _to_latex_via_styler _typ _update_inplace _validate_dtype _values _where abs add add_prefix add_suffix agg aggregate align all any apply argmax argmin argsort array asfreq asof astype at at_time attrs autocorr axes backfill between between_time bfill bool case_when clip combine combine_first compare convert_dtypes copy corr count cov cummax cummin cumprod cumsum describe diff div divide divmod dot drop drop_duplicates droplevel dropna dtype dtypes duplicated empty eq equals ewm expanding explode factorize ffill fillna filter first first_valid_index flags floordiv ge get groupby gt hasnans head hist iat idxmax idxmin iloc index infer_objects info interpolate is_monotonic_decreasing is_monotonic_increasing is_unique isin isna isnull item items keys kurt kurtosis last last_valid_index le list loc lt map mask max mean median memory_usage min mod mode mul multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe plot pop pow prod product quantile radd rank ravel rdiv rdivmod reindex reindex_like rename rename_axis reorder_levels repeat replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample searchsorted sem set_axis set_flags shape shift size skew sort_index sort_values squeeze std struct sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_frame to_hdf to_json to_latex to_list to_markdown to_numpy to_period to_pickle to_sql to_string to_timestamp to_xarray transform transpose truediv truncate tz_convert tz_localize unique unstack update value_counts values var view where xs'.split())
KNOWN_FRAME = set('T _AXIS_LEN _AXIS_ORDERS _AXIS_TO_AXIS_NUMBER _HANDLED_TYPES _accessors _accum_func _agg_examples_doc _agg_see_also_doc _align_for_op _align_frame _align_series _append _arith_method _arith_method_with_reindex _as_manager _attrs _box_col_values _can_fast_transpose _check_inplace_and_allows_duplicate_labels _check_is_chained_assignment_possible _check_label_or_level_ambiguity _check_setitem_copy _clear_item_cache _clip_with_one_bound _clip_with_scalar _cmp_method _combine_frame _consolidate _consolidate_inplace _construct_axes_dict _construct_result _constructor _constructor_from_mgr _constructor_sliced _constructor_sliced_from_mgr _create_data_for_split_and_tight_to_dict _data _deprecate_downcast _dir_additions _dir_deletions _dispatch_frame_op _drop_axis _drop_labels_or_levels _ensure_valid_index _find_valid_index _flags _flex_arith_method _flex_cmp_method _from_arrays _from_mgr _get_agg_axis _get_axis _get_axis_name _get_axis_number _get_axis_resolvers _get_block_manager_axis _get_bool_data _get_cleaned_column_resolvers _get_column_array _get_index_resolvers _get_item_cache _get_label_or_level_values _get_numeric_data _get_value _get_values_for_csv _getitem_bool_array _getitem_multilevel _getitem_nocopy _getitem_slice _gotitem _hidden_attrs _indexed_same _info_axis _info_axis_name _info_axis_number _info_repr _init_mgr _inplace_method _internal_names _internal_names_set _is_copy _is_homogeneous_type _is_label_or_level_reference _is_label_reference _is_level_reference _is_mixed_type _is_view _is_view_after_cow_rules _iset_item _iset_item_mgr _iset_not_inplace _item_cache _iter_column_arrays _ixs _logical_func _logical_method _maybe_align_series_as_frame _maybe_cache_changed _maybe_update_cacher _metadata _mgr _min_count_stat_function _needs_reindex_multi _pad_or_backfill _protect_consolidate _reduce _reduce_axis1 _reindex_axes _reindex_multi _reindex_with_indexers _rename _replace_columnwise _repr_data_resource_ _repr_fits_horizontal_ _repr_fits_vertical_ _repr_html_ _repr_latex_ _reset_cache _reset_cacher _sanitize_column _series _set_axis _set_axis_name _set_axis_nocheck _set_is_copy _set_item _set_item_frame_value _set_item_mgr _set_value _setitem_array _setitem_frame _setitem_slice _shift_with_freq _should_reindex_frame_op _slice _stat_function _stat_function_ddof _take_with_is_copy _to_dict_of_blocks _to_latex_via_styler _typ _update_inplace _validate_dtype _values _where abs add add_prefix add_suffix agg aggregate align all any apply applymap asfreq asof assign astype at at_time attrs axes backfill between_time bfill bool boxplot clip columns combine combine_first compare convert_dtypes copy corr corrwith count cov cummax cummin cumprod cumsum describe diff div divide dot drop drop_duplicates droplevel dropna dtypes duplicated empty eq equals eval ewm expanding explode ffill fillna filter first first_valid_index flags floordiv from_dict from_records ge get groupby gt head hist iat idxmax idxmin iloc index infer_objects info insert interpolate isetitem isin isna isnull items iterrows itertuples join keys kurt kurtosis last last_valid_index le loc lt map mask max mean median melt memory_usage merge min mod mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe pivot pivot_table plot pop pow prod product quantile query radd rank rdiv reindex reindex_like rename rename_axis reorder_levels replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags set_index shape shift size skew sort_index sort_values sparse squeeze stack std style sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_feather to_gbq to_hdf to_html to_json to_latex to_markdown to_numpy to_orc to_parquet to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray to_xml transform transpose truediv truncate tz_convert tz_localize unstack update value_counts values var where xs'.split())
KNOWN_INDEX = set('T _accessors _arith_method _assert_can_do_setop _attributes _cache _can_hold_identifiers_and_holds_name _can_hold_na _can_hold_strings _can_use_libjoin _check_indexing_error _check_indexing_method _cleanup _cmp_method _comparables _concat _construct_result _constructor _convert_can_do_setop _convert_slice_indexer _convert_tolerance _data _data_cls _default_na_rep _difference _difference_compat _dir_additions _dir_additions_for_owner _dir_deletions _drop_level_numbers _dti_setop_align_tzs _dtype_to_subclass _duplicated _engine _engine_type _engine_types _ensure_array _filter_indexer_tolerance _find_common_type_compat _format_attrs _format_data _format_duplicate_message _format_flat _format_with_header _formatter_func _from_join_target _get_default_index_names _get_engine_target _get_fill_indexer _get_fill_indexer_searchsorted _get_indexer _get_indexer_non_comparable _get_indexer_strict _get_join_target _get_level_names _get_level_number _get_level_values _get_names _get_nearest_indexer _get_reconciled_name_object _get_string_slice _get_values_for_csv _getitem_slice _hidden_attrs _holds_integer _id _index_as_unique _inner_indexer _intersection _intersection_via_get_indexer _is_all_dates _is_comparable_dtype _is_memory_usage_qualified _is_multi _is_strictly_monotonic_decreasing _is_strictly_monotonic_increasing _isnan _join_empty _join_level _join_monotonic _join_multi _join_non_unique _join_via_get_indexer _left_indexer _left_indexer_unique _logical_method _map_values _maybe_cast_indexer _maybe_cast_listlike_indexer _maybe_cast_slice_bound _maybe_check_unique _maybe_disable_logical_methods _maybe_disallow_fill _maybe_downcast_for_indexing _maybe_preserve_names _memory_usage _mpl_repr _na_value _name _no_setting_name _outer_indexer _raise_if_missing _raise_invalid_indexer _raise_scalar_data_error _references _reindex_non_unique _rename _requires_unique_msg _reset_cache _reset_identity _searchsorted_monotonic _set_names _shallow_copy _should_compare _should_fallback_to_positional _should_partial_index _simple_new _sort_levels_monotonic _summary _supports_partial_string_indexing _transform_index _typ _unary_method _union _validate_can_reindex _validate_fill_value _validate_index_level _validate_indexer _validate_names _validate_positional_slice _validate_sort_keyword _values _view _with_infer _wrap_difference_result _wrap_intersection_result _wrap_joined_index _wrap_reindex_result _wrap_setop_result all any append argmax argmin argsort array asof asof_locs astype copy delete diff difference drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna format get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_slice_bound groupby has_duplicates hasnans holds_integer identical infer_objects inferred_type insert intersection is_ is_boolean is_categorical is_floating is_integer is_interval is_monotonic_decreasing is_monotonic_increasing is_numeric is_object is_unique isin isna isnull item join map max memory_usage min name names nbytes ndim nlevels notna notnull nunique putmask ravel reindex rename repeat round searchsorted set_names shape shift size slice_indexer slice_locs sort sort_values sortlevel symmetric_difference take to_flat_index to_frame to_list to_numpy to_series transpose union unique value_counts values view where'.split())
KNOWN_DTINDEX = set('T _abc_impl _accessors _arith_method _as_range_index _assert_can_do_setop _attributes _cache _can_fast_intersect _can_fast_union _can_hold_identifiers_and_holds_name _can_hold_na _can_hold_strings _can_partial_date_slice _can_range_setop _can_use_libjoin _check_indexing_error _check_indexing_method _cleanup _cmp_method _comparables _concat _construct_result _constructor _convert_can_do_setop _convert_slice_indexer _convert_tolerance _data _data_cls _default_na_rep _difference _difference_compat _dir_additions _dir_additions_for_owner _dir_deletions _disallow_mismatched_indexing _drop_level_numbers _dti_setop_align_tzs _dtype_to_subclass _duplicated _engine _engine_type _engine_types _ensure_array _fast_intersect _fast_union _filter_indexer_tolerance _find_common_type_compat _format_attrs _format_data _format_duplicate_message _format_flat _format_with_header _formatter_func _from_join_target _get_default_index_names _get_delete_freq _get_engine_target _get_fill_indexer _get_fill_indexer_searchsorted _get_indexer _get_indexer_non_comparable _get_indexer_strict _get_insert_freq _get_join_freq _get_join_target _get_level_names _get_level_number _get_level_values _get_names _get_nearest_indexer _get_reconciled_name_object _get_string_slice _get_time_micros _get_values_for_csv _getitem_slice _hidden_attrs _holds_integer _id _index_as_unique _inner_indexer _intersection _intersection_via_get_indexer _is_all_dates _is_comparable_dtype _is_dates_only _is_memory_usage_qualified _is_monotonic_decreasing _is_monotonic_increasing _is_multi _is_strictly_monotonic_decreasing _is_strictly_monotonic_increasing _is_unique _isnan _join_empty _join_level _join_monotonic _join_multi _join_non_unique _join_via_get_indexer _left_indexer _left_indexer_unique _logical_method _map_values _maybe_cast_indexer _maybe_cast_listlike_indexer _maybe_cast_slice_bound _maybe_check_unique _maybe_disable_logical_methods _maybe_disallow_fill _maybe_downcast_for_indexing _maybe_preserve_names _memory_usage _mpl_repr _na_value _name _no_setting_name _outer_indexer _parse_with_reso _parsed_string_to_bounds _partial_date_slice _raise_if_missing _raise_invalid_indexer _raise_scalar_data_error _range_intersect _range_union _references _reindex_non_unique _rename _requires_unique_msg _reset_cache _reset_identity _resolution_obj _searchsorted_monotonic _set_names _shallow_copy _should_compare _should_fallback_to_positional _should_partial_index _simple_new _sort_levels_monotonic _summary _supports_partial_string_indexing _transform_index _typ _unary_method _union _validate_can_reindex _validate_fill_value _validate_index_level _validate_indexer _validate_names _validate_positional_slice _validate_sort_keyword _values _view _with_freq _with_infer _wrap_difference_result _wrap_intersection_result _wrap_joined_index _wrap_range_setop _wrap_reindex_result _wrap_setop_result all any append argmax argmin argsort array as_unit asi8 asof asof_locs astype ceil copy date day day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth delete diff difference drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna floor format freq freqstr get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_slice_bound groupby has_duplicates hasnans holds_integer hour identical indexer_at_time indexer_between_time infer_objects inferred_freq inferred_type insert intersection is_ is_boolean is_categorical is_floating is_integer is_interval is_leap_year is_monotonic_decreasing is_monotonic_increasing is_month_end is_month_start is_normalized is_numeric is_object is_quarter_end is_quarter_start is_unique is_year_end is_year_start isin isna isnull isocalendar item join map max mean memory_usage microsecond min minute month month_name name names nanosecond nbytes ndim nlevels normalize notna notnull nunique putmask quarter ravel reindex rename repeat resolution round searchsorted second set_names shape shift size slice_indexer slice_locs snap sort sort_values sortlevel std strftime symmetric_difference take time timetz to_flat_index to_frame to_julian_date to_list to_numpy to_period to_pydatetime to_series transpose tz tz_convert tz_localize tzinfo union unique unit value_counts values view weekday where year'.split())
KNOWN_INTERVALINDEX = set('T _accessors _arith_method _assert_can_do_setop _attributes _cache _can_hold_identifiers_and_holds_name _can_hold_na _can_hold_strings _can_use_libjoin _check_indexing_error _check_indexing_method _cleanup _cmp_method _comparables _concat _construct_result _constructor _convert_can_do_setop _convert_slice_indexer _convert_tolerance _data _data_cls _default_na_rep _difference _difference_compat _dir_additions _dir_additions_for_owner _dir_deletions _drop_level_numbers _dti_setop_align_tzs _dtype_to_subclass _duplicated _engine _engine_type _engine_types _ensure_array _filter_indexer_tolerance _find_common_type_compat _format_attrs _format_data _format_duplicate_message _format_flat _format_with_header _formatter_func _from_join_target _get_default_index_names _get_engine_target _get_fill_indexer _get_fill_indexer_searchsorted _get_indexer _get_indexer_non_comparable _get_indexer_pointwise _get_indexer_strict _get_indexer_unique_sides _get_join_target _get_level_names _get_level_number _get_level_values _get_names _get_nearest_indexer _get_reconciled_name_object _get_string_slice _get_values_for_csv _getitem_slice _hidden_attrs _holds_integer _id _index_as_unique _inner_indexer _intersection _intersection_non_unique _intersection_unique _intersection_via_get_indexer _is_all_dates _is_comparable_dtype _is_memory_usage_qualified _is_multi _is_strictly_monotonic_decreasing _is_strictly_monotonic_increasing _isnan _join_empty _join_level _join_monotonic _join_multi _join_non_unique _join_via_get_indexer _left_indexer _left_indexer_unique _logical_method _map_values _maybe_cast_indexer _maybe_cast_listlike_indexer _maybe_cast_slice_bound _maybe_check_unique _maybe_convert_i8 _maybe_disable_logical_methods _maybe_disallow_fill _maybe_downcast_for_indexing _maybe_preserve_names _memory_usage _mpl_repr _multiindex _na_value _name _needs_i8_conversion _no_setting_name _outer_indexer _raise_if_missing _raise_invalid_indexer _raise_scalar_data_error _references _reindex_non_unique _rename _requires_unique_msg _reset_cache _reset_identity _searchsorted_monotonic _set_names _shallow_copy _should_compare _should_fallback_to_positional _should_partial_index _simple_new _sort_levels_monotonic _summary _supports_partial_string_indexing _transform_index _typ _unary_method _union _validate_can_reindex _validate_fill_value _validate_index_level _validate_indexer _validate_names _validate_positional_slice _validate_sort_keyword _values _view _with_infer _wrap_difference_result _wrap_intersection_result _wrap_joined_index _wrap_reindex_result _wrap_setop_result all any append argmax argmin argsort array asof asof_locs astype closed closed_left closed_right contains copy delete diff difference drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna format from_arrays from_breaks from_tuples get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_slice_bound groupby has_duplicates hasnans holds_integer identical infer_objects inferred_type insert intersection is_ is_boolean is_categorical is_empty is_floating is_integer is_interval is_monotonic_decreasing is_monotonic_increasing is_non_overlapping_monotonic is_numeric is_object is_overlapping is_unique isin isna isnull item join left length map max memory_usage mid min name names nbytes ndim nlevels notna notnull nunique open_left open_right overlaps putmask ravel reindex rename repeat right round searchsorted set_closed set_names shape shift size slice_indexer slice_locs sort sort_values sortlevel symmetric_difference take to_flat_index to_frame to_list to_numpy to_series to_tuples transpose union unique value_counts values view where'.split())
KNOWN_TIMESTAMP = set('_creso _date_repr _from_dt64 _from_value_and_reso _repr_base _round _time_repr _value as_unit asm8 astimezone ceil combine ctime date day day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth dst floor fold fromisocalendar fromisoformat fromordinal fromtimestamp hour is_leap_year is_month_end is_month_start is_quarter_end is_quarter_start is_year_end is_year_start isocalendar isoformat isoweekday max microsecond min minute month month_name nanosecond normalize now quarter replace resolution round second strftime strptime time timestamp timetuple timetz to_datetime64 to_julian_date to_numpy to_period to_pydatetime today toordinal tz tz_convert tz_localize tzinfo tzname unit utcfromtimestamp utcnow utcoffset utctimetuple value week weekday weekofyear year'.split())
KNOWN_TIMEDELTA = set('_creso _d _from_value_and_reso _h _is_populated _m _maybe_cast_to_matching_resos _ms _ns _repr_base _req_any_kwargs_new _round _s _unit _us _value as_unit asm8 ceil components days floor isoformat max microseconds min nanoseconds resolution resolution_string round seconds to_numpy to_pytimedelta to_timedelta64 total_seconds unit value view'.split())
KNOWN_API_TYPES = set('CategoricalDtype DatetimeTZDtype IntervalDtype PeriodDtype infer_dtype is_any_real_numeric_dtype is_array_like is_bool is_bool_dtype is_categorical_dtype is_complex is_complex_dtype is_datetime64_any_dtype is_datetime64_dtype is_datetime64_ns_dtype is_datetime64tz_dtype is_dict_like is_dtype_equal is_extension_array_dtype is_file_like is_float is_float_dtype is_hashable is_int64_dtype is_integer is_integer_dtype is_interval is_interval_dtype is_iterator is_list_like is_named_tuple is_number is_numeric_dtype is_object_dtype is_period_dtype is_re is_re_compilable is_scalar is_signed_integer_dtype is_sparse is_string_dtype is_timedelta64_dtype is_timedelta64_ns_dtype is_unsigned_integer_dtype pandas_dtype union_categoricals'.split())
