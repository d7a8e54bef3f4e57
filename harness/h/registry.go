// Code generated by tools/genreg.sh. DO NOT EDIT.
package h

// Registry maps harness names to functions for native replay.
var Registry = map[string]func(){
	"C01_fields": C01_fields,
	"C01_header": C01_header,
	"C01_mixed": C01_mixed,
	"C01_pieces": C01_pieces,
	"C01_shapes": C01_shapes,
	"C01_unicode": C01_unicode,
	"C02_fields": C02_fields,
	"C02_foreign": C02_foreign,
	"C02_mixed": C02_mixed,
	"C02_shapes": C02_shapes,
	"C02_unicode": C02_unicode,
	"C03_bytes": C03_bytes,
	"C03_cut": C03_cut,
	"C03_header": C03_header,
	"C03_long": C03_long,
	"C03_noise": C03_noise,
	"C03_scan": C03_scan,
	"C03_tokens": C03_tokens,
	"C04_again": C04_again,
	"C04_limit": C04_limit,
	"C04_parse": C04_parse,
	"C05_any": C05_any,
	"C05_copies": C05_copies,
	"C05_fields": C05_fields,
	"C05_index": C05_index,
	"C05_shapes": C05_shapes,
	"C06_absent": C06_absent,
	"C06_create": C06_create,
	"C06_fields": C06_fields,
	"C06_flagtext": C06_flagtext,
	"C06_lists": C06_lists,
	"C06_shapes": C06_shapes,
	"C07_cleared": C07_cleared,
	"C07_fields": C07_fields,
	"C07_gaps": C07_gaps,
	"C07_shapes": C07_shapes,
	"C07_stored": C07_stored,
	"C08_construct": C08_construct,
	"C08_from3": C08_from3,
	"C08_ops": C08_ops,
	"C09_construct": C09_construct,
	"C09_identifiers": C09_identifiers,
	"C09_numbers": C09_numbers,
	"C09_refs": C09_refs,
	"C09_stringarray": C09_stringarray,
	"C09_stringlist": C09_stringlist,
	"C10_deep": C10_deep,
	"C10_json": C10_json,
	"C10_jsondoc": C10_jsondoc,
	"C10_mutated": C10_mutated,
	"C10_mutatedjson": C10_mutatedjson,
	"C10_shapes": C10_shapes,
	"C10_structure": C10_structure,
	"C10_text": C10_text,
	"C10_truncated": C10_truncated,
	"C10_values": C10_values,
	"C11_bool": C11_bool,
	"C11_booltext": C11_booltext,
	"C11_duration": C11_duration,
	"C11_duration_seconds": C11_duration_seconds,
	"C11_float32json": C11_float32json,
	"C11_floatjson": C11_floatjson,
	"C11_floattext": C11_floattext,
	"C11_guid": C11_guid,
	"C11_lists": C11_lists,
	"C11_nullint": C11_nullint,
	"C11_nullstring": C11_nullstring,
	"C11_rational": C11_rational,
	"C11_rational_decimal": C11_rational_decimal,
	"C11_rational_int": C11_rational_int,
	"C11_splitint": C11_splitint,
	"C11_splitint_number": C11_splitint_number,
	"C11_splitint_parts": C11_splitint_parts,
	"C11_splitint_range": C11_splitint_range,
	"C12_count": C12_count,
	"C12_framerate": C12_framerate,
	"C12_frameratetext": C12_frameratetext,
	"C12_mediatext": C12_mediatext,
	"C12_mediatime": C12_mediatime,
	"C12_nodiv": C12_nodiv,
	"C12_order": C12_order,
	"C12_orderrates": C12_orderrates,
	"C12_part": C12_part,
	"C12_partcounts": C12_partcounts,
	"C12_partlist": C12_partlist,
	"C12_parttext": C12_parttext,
	"C12_range": C12_range,
	"C12_rangefull": C12_rangefull,
	"C12_rangemax": C12_rangemax,
	"C12_rate": C12_rate,
	"C12_ratetext": C12_ratetext,
	"C12_samples": C12_samples,
	"C12_sort": C12_sort,
	"C12_tcformat": C12_tcformat,
	"C12_timecode": C12_timecode,
	"C12_timecodejson": C12_timecodejson,
	"C12_timecodetext": C12_timecodetext,
	"C12_types": C12_types,
	"C13_bytearray": C13_bytearray,
	"C13_bytetext": C13_bytetext,
	"C13_cfa": C13_cfa,
	"C13_devicesettings": C13_devicesettings,
	"C13_flash": C13_flash,
	"C13_functions": C13_functions,
	"C13_genre": C13_genre,
	"C13_genretext": C13_genretext,
	"C13_genrev1": C13_genrev1,
	"C13_gpscoord": C13_gpscoord,
	"C13_identifier": C13_identifier,
	"C13_ixmlbool": C13_ixmlbool,
	"C13_ixmllists": C13_ixmllists,
	"C13_oecf": C13_oecf,
	"C13_pmtime": C13_pmtime,
	"C13_point": C13_point,
	"C13_pointtext": C13_pointtext,
	"C13_prefs": C13_prefs,
	"C13_prefstext": C13_prefstext,
	"C13_rating": C13_rating,
	"C13_ratingtext": C13_ratingtext,
	"C13_rifflist": C13_rifflist,
	"C13_smpb": C13_smpb,
	"C13_tablesize": C13_tablesize,
	"C13_tracknum": C13_tracknum,
	"C13_tracktext": C13_tracktext,
	"C14_between": C14_between,
	"C14_order": C14_order,
	"C14_parse": C14_parse,
	"C14_text": C14_text,
	"C14_transitive": C14_transitive,
	"C15_diff": C15_diff,
	"C15_fields": C15_fields,
	"C15_namespaces": C15_namespaces,
	"C15_parts": C15_parts,
	"C15_shapes": C15_shapes,
	"C15_stored": C15_stored,
	"C16_edit": C16_edit,
	"C16_exifdate": C16_exifdate,
	"C16_from": C16_from,
	"C16_gpstime": C16_gpstime,
	"C16_id3date": C16_id3date,
	"C16_identifiers": C16_identifiers,
	"C16_list": C16_list,
	"C16_location": C16_location,
	"C16_missing": C16_missing,
	"C16_multi": C16_multi,
	"C16_own": C16_own,
	"C16_scalar": C16_scalar,
	"C16_standard": C16_standard,
	"C16_subseconds": C16_subseconds,
	"C16_to": C16_to,
	"C16_twice": C16_twice,
	"C17_apply": C17_apply,
	"C17_models": C17_models,
	"C17_text": C17_text,
	"C18_fields": C18_fields,
	"C18_history": C18_history,
	"C19_exif": C19_exif,
	"C19_exifprint": C19_exifprint,
	"C19_id3": C19_id3,
	"C19_layouts": C19_layouts,
	"C19_print": C19_print,
	"C19_time": C19_time,
	"C20_index": C20_index,
	"C20_lang": C20_lang,
	"C20_names": C20_names,
	"C20_push": C20_push,
	"C20_text": C20_text,
	"C20_use": C20_use,
	"C21_prefix": C21_prefix,
	"C21_registry": C21_registry,
	"C21_separate": C21_separate,
	"C21_set": C21_set,
	"C21_special": C21_special,
	"C21_uri": C21_uri,
	"C22_fields": C22_fields,
	"C22_ops": C22_ops,
	"C22_shapes": C22_shapes,
	"C23_fields": C23_fields,
	"C23_locale": C23_locale,
	"C23_names": C23_names,
	"C23_quicktime": C23_quicktime,
	"C23_taglist": C23_taglist,
	"C23_unknown": C23_unknown,
	"C23_versions": C23_versions,
	"C24_fields": C24_fields,
	"C24_numbers": C24_numbers,
	"C24_range": C24_range,
	"C24_tags": C24_tags,
	"C24_versions": C24_versions,
	"C25_functions": C25_functions,
	"C25_history": C25_history,
	"C25_identifiers": C25_identifiers,
	"C25_markers": C25_markers,
	"C25_pantry": C25_pantry,
	"C25_parts": C25_parts,
	"C25_refs": C25_refs,
	"C25_selfref": C25_selfref,
	"C25_sets": C25_sets,
	"C25_versions": C25_versions,
	"C26_fields": C26_fields,
	"C26_hostile": C26_hostile,
	"C26_structure": C26_structure,
	"C26_unknown": C26_unknown,
	"C26_upgrade": C26_upgrade,
}
