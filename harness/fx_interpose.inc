NC(nc__create)
NC(nc__create_mp)
NC(nc__enddef)
NC(nc__open)
NC(nc__open_mp)
NC(nc__pseudofd)
NC(nc__testurl)
NC(nc_abort)
NC(nc_advise)
NC(nc_close)
NC(nc_close_memio)
NC(nc_create)
NC(nc_create_par)
NC(nc_create_par_fortran)
NC(nc_def_compound)
NC(nc_def_dim)
NC(nc_def_enum)
NC(nc_def_grp)
NC(nc_def_opaque)
NC(nc_def_user_format)
NC(nc_def_var)
NC(nc_def_var_blosc)
NC(nc_def_var_bzip2)
NC(nc_def_var_chunking)
NC(nc_def_var_chunking_ints)
NC(nc_def_var_deflate)
NC(nc_def_var_endian)
NC(nc_def_var_fill)
NC(nc_def_var_filter)
NC(nc_def_var_fletcher32)
NC(nc_def_var_quantize)
NC(nc_def_var_szip)
NC(nc_def_var_zstandard)
NC(nc_def_vlen)
NC(nc_del_att)
NC(nc_delete)
NC(nc_delete_mp)
NC(nc_dump_data)
NC(nc_enddef)
NC(nc_free_vlen)
NC(nc_free_vlens)
NC(nc_get_NC)
NC(nc_get_att)
NC(nc_get_att_double)
NC(nc_get_att_float)
NC(nc_get_att_int)
NC(nc_get_att_long)
NC(nc_get_att_longlong)
NC(nc_get_att_schar)
NC(nc_get_att_short)
NC(nc_get_att_string)
NC(nc_get_att_text)
NC(nc_get_att_ubyte)
NC(nc_get_att_uchar)
NC(nc_get_att_uint)
NC(nc_get_att_ulonglong)
NC(nc_get_att_ushort)
NC(nc_get_chunk_cache)
NC(nc_get_chunk_cache_ints)
NC(nc_get_default_format)
NC(nc_get_rec)
NC(nc_get_var)
NC(nc_get_var1)
NC(nc_get_var1_double)
NC(nc_get_var1_float)
NC(nc_get_var1_int)
NC(nc_get_var1_long)
NC(nc_get_var1_longlong)
NC(nc_get_var1_schar)
NC(nc_get_var1_short)
NC(nc_get_var1_string)
NC(nc_get_var1_text)
NC(nc_get_var1_ubyte)
NC(nc_get_var1_uchar)
NC(nc_get_var1_uint)
NC(nc_get_var1_ulonglong)
NC(nc_get_var1_ushort)
NC(nc_get_var_chunk_cache)
NC(nc_get_var_chunk_cache_ints)
NC(nc_get_var_double)
NC(nc_get_var_float)
NC(nc_get_var_int)
NC(nc_get_var_long)
NC(nc_get_var_longlong)
NC(nc_get_var_schar)
NC(nc_get_var_short)
NC(nc_get_var_string)
NC(nc_get_var_text)
NC(nc_get_var_ubyte)
NC(nc_get_var_uchar)
NC(nc_get_var_uint)
NC(nc_get_var_ulonglong)
NC(nc_get_var_ushort)
NC(nc_get_vara)
NC(nc_get_vara_double)
NC(nc_get_vara_float)
NC(nc_get_vara_int)
NC(nc_get_vara_long)
NC(nc_get_vara_longlong)
NC(nc_get_vara_schar)
NC(nc_get_vara_short)
NC(nc_get_vara_string)
NC(nc_get_vara_text)
NC(nc_get_vara_ubyte)
NC(nc_get_vara_uchar)
NC(nc_get_vara_uint)
NC(nc_get_vara_ulonglong)
NC(nc_get_vara_ushort)
NC(nc_get_varm)
NC(nc_get_varm_double)
NC(nc_get_varm_float)
NC(nc_get_varm_int)
NC(nc_get_varm_long)
NC(nc_get_varm_longlong)
NC(nc_get_varm_schar)
NC(nc_get_varm_short)
NC(nc_get_varm_string)
NC(nc_get_varm_text)
NC(nc_get_varm_ubyte)
NC(nc_get_varm_uchar)
NC(nc_get_varm_uint)
NC(nc_get_varm_ulonglong)
NC(nc_get_varm_ushort)
NC(nc_get_vars)
NC(nc_get_vars_double)
NC(nc_get_vars_float)
NC(nc_get_vars_int)
NC(nc_get_vars_long)
NC(nc_get_vars_longlong)
NC(nc_get_vars_schar)
NC(nc_get_vars_short)
NC(nc_get_vars_string)
NC(nc_get_vars_text)
NC(nc_get_vars_ubyte)
NC(nc_get_vars_uchar)
NC(nc_get_vars_uint)
NC(nc_get_vars_ulonglong)
NC(nc_get_vars_ushort)
NC(nc_get_vlen_element)
NC(nc_http_close)
NC(nc_http_init)
NC(nc_http_init_verbose)
NC(nc_http_read)
NC(nc_http_request_setheaders)
NC(nc_http_reset)
NC(nc_http_response_headers)
NC(nc_http_response_headset)
NC(nc_http_set_method)
NC(nc_http_set_payload)
NC(nc_http_set_response)
NC(nc_http_size)
NC(nc_http_write)
NC(nc_inq)
NC(nc_inq_att)
NC(nc_inq_attid)
NC(nc_inq_attlen)
NC(nc_inq_attname)
NC(nc_inq_atttype)
NC(nc_inq_base_pe)
NC(nc_inq_compound)
NC(nc_inq_compound_field)
NC(nc_inq_compound_fielddim_sizes)
NC(nc_inq_compound_fieldindex)
NC(nc_inq_compound_fieldname)
NC(nc_inq_compound_fieldndims)
NC(nc_inq_compound_fieldoffset)
NC(nc_inq_compound_fieldtype)
NC(nc_inq_compound_name)
NC(nc_inq_compound_nfields)
NC(nc_inq_compound_size)
NC(nc_inq_dim)
NC(nc_inq_dimid)
NC(nc_inq_dimids)
NC(nc_inq_dimlen)
NC(nc_inq_dimname)
NC(nc_inq_enum)
NC(nc_inq_enum_ident)
NC(nc_inq_enum_member)
NC(nc_inq_filter_avail)
NC(nc_inq_format)
NC(nc_inq_format_extended)
NC(nc_inq_grp_full_ncid)
NC(nc_inq_grp_ncid)
NC(nc_inq_grp_parent)
NC(nc_inq_grpname)
NC(nc_inq_grpname_full)
NC(nc_inq_grpname_len)
NC(nc_inq_grps)
NC(nc_inq_natts)
NC(nc_inq_ncid)
NC(nc_inq_ndims)
NC(nc_inq_nvars)
NC(nc_inq_opaque)
NC(nc_inq_path)
NC(nc_inq_rec)
NC(nc_inq_type)
NC(nc_inq_type_equal)
NC(nc_inq_typeid)
NC(nc_inq_typeids)
NC(nc_inq_unlimdim)
NC(nc_inq_unlimdims)
NC(nc_inq_user_format)
NC(nc_inq_user_type)
NC(nc_inq_var)
NC(nc_inq_var_blosc)
NC(nc_inq_var_bzip2)
NC(nc_inq_var_chunking)
NC(nc_inq_var_chunking_ints)
NC(nc_inq_var_deflate)
NC(nc_inq_var_endian)
NC(nc_inq_var_fill)
NC(nc_inq_var_filter)
NC(nc_inq_var_filter_ids)
NC(nc_inq_var_filter_info)
NC(nc_inq_var_fletcher32)
NC(nc_inq_var_quantize)
NC(nc_inq_var_szip)
NC(nc_inq_var_zstandard)
NC(nc_inq_vardimid)
NC(nc_inq_varid)
NC(nc_inq_varids)
NC(nc_inq_varname)
NC(nc_inq_varnatts)
NC(nc_inq_varndims)
NC(nc_inq_vartype)
NC(nc_inq_vlen)
NC(nc_insert_array_compound)
NC(nc_insert_compound)
NC(nc_insert_enum)
NC(nc_open)
NC(nc_open_mem)
NC(nc_open_memio)
NC(nc_open_par)
NC(nc_open_par_fortran)
NC(nc_print_data)
NC(nc_put_att)
NC(nc_put_att_double)
NC(nc_put_att_float)
NC(nc_put_att_int)
NC(nc_put_att_long)
NC(nc_put_att_longlong)
NC(nc_put_att_schar)
NC(nc_put_att_short)
NC(nc_put_att_string)
NC(nc_put_att_text)
NC(nc_put_att_ubyte)
NC(nc_put_att_uchar)
NC(nc_put_att_uint)
NC(nc_put_att_ulonglong)
NC(nc_put_att_ushort)
NC(nc_put_rec)
NC(nc_put_var)
NC(nc_put_var1)
NC(nc_put_var1_double)
NC(nc_put_var1_float)
NC(nc_put_var1_int)
NC(nc_put_var1_long)
NC(nc_put_var1_longlong)
NC(nc_put_var1_schar)
NC(nc_put_var1_short)
NC(nc_put_var1_string)
NC(nc_put_var1_text)
NC(nc_put_var1_ubyte)
NC(nc_put_var1_uchar)
NC(nc_put_var1_uint)
NC(nc_put_var1_ulonglong)
NC(nc_put_var1_ushort)
NC(nc_put_var_double)
NC(nc_put_var_float)
NC(nc_put_var_int)
NC(nc_put_var_long)
NC(nc_put_var_longlong)
NC(nc_put_var_schar)
NC(nc_put_var_short)
NC(nc_put_var_string)
NC(nc_put_var_text)
NC(nc_put_var_ubyte)
NC(nc_put_var_uchar)
NC(nc_put_var_uint)
NC(nc_put_var_ulonglong)
NC(nc_put_var_ushort)
NC(nc_put_vara)
NC(nc_put_vara_double)
NC(nc_put_vara_float)
NC(nc_put_vara_int)
NC(nc_put_vara_long)
NC(nc_put_vara_longlong)
NC(nc_put_vara_schar)
NC(nc_put_vara_short)
NC(nc_put_vara_string)
NC(nc_put_vara_text)
NC(nc_put_vara_ubyte)
NC(nc_put_vara_uchar)
NC(nc_put_vara_uint)
NC(nc_put_vara_ulonglong)
NC(nc_put_vara_ushort)
NC(nc_put_varm)
NC(nc_put_varm_double)
NC(nc_put_varm_float)
NC(nc_put_varm_int)
NC(nc_put_varm_long)
NC(nc_put_varm_longlong)
NC(nc_put_varm_schar)
NC(nc_put_varm_short)
NC(nc_put_varm_string)
NC(nc_put_varm_text)
NC(nc_put_varm_ubyte)
NC(nc_put_varm_uchar)
NC(nc_put_varm_uint)
NC(nc_put_varm_ulonglong)
NC(nc_put_varm_ushort)
NC(nc_put_vars)
NC(nc_put_vars_double)
NC(nc_put_vars_float)
NC(nc_put_vars_int)
NC(nc_put_vars_long)
NC(nc_put_vars_longlong)
NC(nc_put_vars_schar)
NC(nc_put_vars_short)
NC(nc_put_vars_string)
NC(nc_put_vars_text)
NC(nc_put_vars_ubyte)
NC(nc_put_vars_uchar)
NC(nc_put_vars_uint)
NC(nc_put_vars_ulonglong)
NC(nc_put_vars_ushort)
NC(nc_put_vlen_element)
NC(nc_reclaim_data)
NC(nc_reclaim_data_all)
NC(nc_redef)
NC(nc_rename_att)
NC(nc_rename_dim)
NC(nc_rename_grp)
NC(nc_rename_var)
NC(nc_set_base_pe)
NC(nc_set_chunk_cache)
NC(nc_set_chunk_cache_ints)
NC(nc_set_default_format)
NC(nc_set_fill)
NC(nc_set_var_chunk_cache)
NC(nc_set_var_chunk_cache_ints)
NC(nc_show_metadata)
NC(nc_sync)
NC(nc_utf8_normalize)
NC(nc_utf8_to_utf16)
NC(nc_utf8_validate)
NC(nc_utf8proc_NFC)
NC(nc_utf8proc_NFD)
NC(nc_utf8proc_NFKC)
NC(nc_utf8proc_NFKD)
NC(nc_utf8proc_category)
NC(nc_utf8proc_category_string)
NC(nc_utf8proc_charwidth)
NC(nc_utf8proc_codepoint_valid)
NC(nc_utf8proc_decompose)
NC(nc_utf8proc_decompose_char)
NC(nc_utf8proc_decompose_custom)
NC(nc_utf8proc_encode_char)
NC(nc_utf8proc_errmsg)
NC(nc_utf8proc_get_property)
NC(nc_utf8proc_grapheme_break)
NC(nc_utf8proc_grapheme_break_stateful)
NC(nc_utf8proc_iterate)
NC(nc_utf8proc_map)
NC(nc_utf8proc_map_custom)
NC(nc_utf8proc_normalize_utf32)
NC(nc_utf8proc_reencode)
NC(nc_utf8proc_tolower)
NC(nc_utf8proc_totitle)
NC(nc_utf8proc_toupper)
NC(nc_utf8proc_version)
NC(nc_var_par_access)
UT(ut_accept_visitor)
UT(ut_add_name_prefix)
UT(ut_add_symbol_prefix)
UT(ut_are_convertible)
UT(ut_clone)
UT(ut_compare)
UT(ut_decode_time)
UT(ut_divide)
UTD(ut_encode_clock)
UTD(ut_encode_date)
UTD(ut_encode_time)
UT(ut_form_plural)
UT(ut_format)
UT(ut_free_system)
UT(ut_get_converter)
UT(ut_get_dimensionless_unit_one)
UT(ut_get_name)
UT(ut_get_path_xml)
UT(ut_get_status)
UT(ut_get_symbol)
UT(ut_get_system)
UT(ut_get_unit_by_name)
UT(ut_get_unit_by_symbol)
UT(ut_invert)
UT(ut_is_dimensionless)
UT(ut_log)
UT(ut_map_name_to_unit)
UT(ut_map_symbol_to_unit)
UT(ut_map_unit_to_name)
UT(ut_map_unit_to_symbol)
UT(ut_multiply)
UT(ut_new_base_unit)
UT(ut_new_dimensionless_unit)
UT(ut_new_system)
UT(ut_offset)
UT(ut_offset_by_time)
UT(ut_parse)
UT(ut_raise)
UT(ut_read_xml)
UT(ut_root)
UT(ut_same_system)
UT(ut_scale)
UT(ut_set_second)
UT(ut_set_status)
UT(ut_trim)
UT(ut_unmap_name_to_unit)
UT(ut_unmap_symbol_to_unit)
UT(ut_unmap_unit_to_name)
UT(ut_unmap_unit_to_symbol)
