// Code generated by gen.py; DO NOT EDIT.

package main

import (
	"verif/harness/hamf"
	"verif/harness/hflv"
	"verif/harness/hgop"
	"verif/harness/hparser"
	"verif/harness/hself"
	"verif/harness/hsips"
	"verif/harness/hts"
)

var harnesses = map[string]func(){
	"hamf.A01_bytes": hamf.A01_bytes,
	"hamf.A01_deep": hamf.A01_deep,
	"hamf.A01_lengths": hamf.A01_lengths,
	"hamf.A02_bytes": hamf.A02_bytes,
	"hamf.A02_deep": hamf.A02_deep,
	"hamf.A02_external": hamf.A02_external,
	"hamf.A02_lengths": hamf.A02_lengths,
	"hamf.A03_batch": hamf.A03_batch,
	"hamf.A03_deep": hamf.A03_deep,
	"hamf.A03_leaf": hamf.A03_leaf,
	"hamf.A03_long": hamf.A03_long,
	"hamf.A03_members": hamf.A03_members,
	"hamf.A03_nested": hamf.A03_nested,
	"hamf.A03_refused": hamf.A03_refused,
	"hamf.A03_self": hamf.A03_self,
	"hamf.A03_special": hamf.A03_special,
	"hamf.A03_spine": hamf.A03_spine,
	"hamf.A03_wide": hamf.A03_wide,
	"hamf.A04_amf3": hamf.A04_amf3,
	"hamf.A04_leaf": hamf.A04_leaf,
	"hamf.A04_long": hamf.A04_long,
	"hamf.A04_nested": hamf.A04_nested,
	"hamf.A04_reference": hamf.A04_reference,
	"hamf.A04_special": hamf.A04_special,
	"hamf.A04_spine": hamf.A04_spine,
	"hamf.A04_wide": hamf.A04_wide,
	"hamf.A05_batch": hamf.A05_batch,
	"hamf.A05_deep": hamf.A05_deep,
	"hamf.A05_leaf": hamf.A05_leaf,
	"hamf.A05_long": hamf.A05_long,
	"hamf.A05_members": hamf.A05_members,
	"hamf.A05_nested": hamf.A05_nested,
	"hamf.A05_self": hamf.A05_self,
	"hamf.A05_spine": hamf.A05_spine,
	"hamf.A05_toolong": hamf.A05_toolong,
	"hamf.A05_typed": hamf.A05_typed,
	"hamf.A05_wide": hamf.A05_wide,
	"hamf.A06_decode": hamf.A06_decode,
	"hamf.A06_encheader": hamf.A06_encheader,
	"hamf.A06_encode": hamf.A06_encode,
	"hamf.A06_header": hamf.A06_header,
	"hamf.A07_deep": hamf.A07_deep,
	"hamf.A07_huge": hamf.A07_huge,
	"hamf.A07_many": hamf.A07_many,
	"hamf.A07_mixed": hamf.A07_mixed,
	"hamf.A07_refs": hamf.A07_refs,
	"hamf.A08_huge": hamf.A08_huge,
	"hamf.A08_many": hamf.A08_many,
	"hamf.A08_strings": hamf.A08_strings,
	"hamf.A08_traits": hamf.A08_traits,
	"hamf.A08_values": hamf.A08_values,
	"hamf.A09_abstract": hamf.A09_abstract,
	"hamf.A09_acknowledge": hamf.A09_acknowledge,
	"hamf.A09_async": hamf.A09_async,
	"hamf.A09_collection": hamf.A09_collection,
	"hamf.A09_handler": hamf.A09_handler,
	"hamf.A09_last": hamf.A09_last,
	"hamf.A09_many": hamf.A09_many,
	"hamf.A09_members": hamf.A09_members,
	"hamf.A09_second": hamf.A09_second,
	"hamf.A10_batch": hamf.A10_batch,
	"hamf.A10_broken": hamf.A10_broken,
	"hamf.A10_bytes": hamf.A10_bytes,
	"hamf.A10_cut": hamf.A10_cut,
	"hamf.A10_long": hamf.A10_long,
	"hamf.A10_values": hamf.A10_values,
	"hamf.A11_amf0": hamf.A11_amf0,
	"hamf.A11_amf3": hamf.A11_amf3,
	"hamf.A11_batch": hamf.A11_batch,
	"hamf.A11_long": hamf.A11_long,
	"hamf.A11_special": hamf.A11_special,
	"hamf.A12_any": hamf.A12_any,
	"hamf.A12_inverse": hamf.A12_inverse,
	"hamf.A12_names": hamf.A12_names,
	"hamf.A13_bytes": hamf.A13_bytes,
	"hamf.A13_inside": hamf.A13_inside,
	"hamf.A14_bytes": hamf.A14_bytes,
	"hamf.A14_inside": hamf.A14_inside,
	"hamf.A15_decode": hamf.A15_decode,
	"hamf.A15_encode": hamf.A15_encode,
	"hamf.A15_handlers": hamf.A15_handlers,
	"hamf.A15_kept": hamf.A15_kept,
	"hamf.A15_metadata": hamf.A15_metadata,
	"hflv.F01_limit": hflv.F01_limit,
	"hflv.F01_many": hflv.F01_many,
	"hflv.F01_sizes": hflv.F01_sizes,
	"hflv.F01_tags": hflv.F01_tags,
	"hflv.F02_history": hflv.F02_history,
	"hflv.F02_long": hflv.F02_long,
	"hflv.F02_many": hflv.F02_many,
	"hflv.F03_large": hflv.F03_large,
	"hflv.F03_object": hflv.F03_object,
	"hflv.F03_refused": hflv.F03_refused,
	"hflv.F03_replace": hflv.F03_replace,
	"hflv.F04_again": hflv.F04_again,
	"hflv.F04_large": hflv.F04_large,
	"hflv.F04_many": hflv.F04_many,
	"hflv.F04_packets": hflv.F04_packets,
	"hflv.F04_tag": hflv.F04_tag,
	"hflv.F05_mux": hflv.F05_mux,
	"hflv.F05_start": hflv.F05_start,
	"hflv.F06_buffers": hflv.F06_buffers,
	"hflv.F06_demuxed": hflv.F06_demuxed,
	"hflv.F06_mixers": hflv.F06_mixers,
	"hgop.G01_groups": hgop.G01_groups,
	"hgop.G01_history": hgop.G01_history,
	"hgop.G02_capacity": hgop.G02_capacity,
	"hgop.G02_full": hgop.G02_full,
	"hgop.G02_headers": hgop.G02_headers,
	"hgop.G02_many": hgop.G02_many,
	"hgop.G02_orphans": hgop.G02_orphans,
	"hgop.G03_failing": hgop.G03_failing,
	"hgop.G03_groups": hgop.G03_groups,
	"hgop.G04_caches": hgop.G04_caches,
	"hgop.G04_packets": hgop.G04_packets,
	"hparser.P01_bytes": hparser.P01_bytes,
	"hparser.P01_failing": hparser.P01_failing,
	"hparser.P01_long": hparser.P01_long,
	"hparser.P01_many": hparser.P01_many,
	"hparser.P01_prefix": hparser.P01_prefix,
	"hparser.P01_size": hparser.P01_size,
	"hparser.P01_units": hparser.P01_units,
	"hparser.P02_broken": hparser.P02_broken,
	"hparser.P02_header": hparser.P02_header,
	"hparser.P02_history": hparser.P02_history,
	"hparser.P02_long": hparser.P02_long,
	"hparser.P02_many": hparser.P02_many,
	"hparser.P02_sets": hparser.P02_sets,
	"hparser.P02_units": hparser.P02_units,
	"hparser.P03_any": hparser.P03_any,
	"hparser.P03_audio": hparser.P03_audio,
	"hparser.P03_demuxed": hparser.P03_demuxed,
	"hparser.P03_nil": hparser.P03_nil,
	"hparser.P04_codec": hparser.P04_codec,
	"hparser.P04_extended": hparser.P04_extended,
	"hparser.P04_failing": hparser.P04_failing,
	"hparser.P04_history": hparser.P04_history,
	"hparser.P04_length": hparser.P04_length,
	"hparser.P04_many": hparser.P04_many,
	"hparser.P05_aac": hparser.P05_aac,
	"hparser.P05_codec": hparser.P05_codec,
	"hparser.P05_mp3": hparser.P05_mp3,
	"hparser.P06_aac": hparser.P06_aac,
	"hparser.P06_buffers": hparser.P06_buffers,
	"hparser.P06_h264": hparser.P06_h264,
	"hself.X01_bytes": hself.X01_bytes,
	"hself.X02_strings": hself.X02_strings,
	"hself.X03_io": hself.X03_io,
	"hself.X04_lang": hself.X04_lang,
	"hself.X05_more": hself.X05_more,
	"hsips.S01_again": hsips.S01_again,
	"hsips.S01_args": hsips.S01_args,
	"hsips.S01_auth": hsips.S01_auth,
	"hsips.S01_bytes": hsips.S01_bytes,
	"hsips.S01_cseq": hsips.S01_cseq,
	"hsips.S01_header": hsips.S01_header,
	"hsips.S01_headers": hsips.S01_headers,
	"hsips.S01_line": hsips.S01_line,
	"hsips.S01_request": hsips.S01_request,
	"hsips.S01_user": hsips.S01_user,
	"hsips.S01_via": hsips.S01_via,
	"hsips.S02_any": hsips.S02_any,
	"hsips.S02_code": hsips.S02_code,
	"hsips.S02_request": hsips.S02_request,
	"hsips.S02_status": hsips.S02_status,
	"hsips.S02_version": hsips.S02_version,
	"hsips.S03_blanks": hsips.S03_blanks,
	"hsips.S03_compact": hsips.S03_compact,
	"hsips.S03_continued": hsips.S03_continued,
	"hsips.S03_copy": hsips.S03_copy,
	"hsips.S03_fold": hsips.S03_fold,
	"hsips.S03_length": hsips.S03_length,
	"hsips.S03_many": hsips.S03_many,
	"hsips.S03_name": hsips.S03_name,
	"hsips.S03_repeat": hsips.S03_repeat,
	"hsips.S03_set": hsips.S03_set,
	"hsips.S03_setters": hsips.S03_setters,
	"hsips.S03_typed": hsips.S03_typed,
	"hsips.S03_typedset": hsips.S03_typedset,
	"hsips.S04_convert": hsips.S04_convert,
	"hsips.S04_cseq": hsips.S04_cseq,
	"hsips.S04_forms": hsips.S04_forms,
	"hsips.S04_header": hsips.S04_header,
	"hsips.S04_request": hsips.S04_request,
	"hsips.S04_user": hsips.S04_user,
	"hsips.S04_via": hsips.S04_via,
	"hsips.S04_viaforms": hsips.S04_viaforms,
	"hsips.S05_auth": hsips.S05_auth,
	"hsips.S05_comma": hsips.S05_comma,
	"hsips.S05_del": hsips.S05_del,
	"hsips.S05_equals": hsips.S05_equals,
	"hsips.S05_list": hsips.S05_list,
	"hsips.S05_many": hsips.S05_many,
	"hsips.S05_quoted": hsips.S05_quoted,
	"hsips.S05_repeated": hsips.S05_repeated,
	"hsips.S05_written": hsips.S05_written,
	"hsips.S06_long": hsips.S06_long,
	"hsips.S06_many": hsips.S06_many,
	"hsips.S06_parsed": hsips.S06_parsed,
	"hsips.S06_repeat": hsips.S06_repeat,
	"hsips.S06_request": hsips.S06_request,
	"hsips.S06_response": hsips.S06_response,
	"hsips.S07_body": hsips.S07_body,
	"hsips.S07_failing": hsips.S07_failing,
	"hsips.S07_lines": hsips.S07_lines,
	"hsips.S07_long": hsips.S07_long,
	"hsips.S07_many": hsips.S07_many,
	"hsips.S07_next": hsips.S07_next,
	"hsips.S07_number": hsips.S07_number,
	"hsips.S08_kept": hsips.S08_kept,
	"hsips.S08_parse": hsips.S08_parse,
	"hsips.S08_shared": hsips.S08_shared,
	"hsips.S08_written": hsips.S08_written,
	"hts.T01_crc": hts.T01_crc,
	"hts.T01_long": hts.T01_long,
	"hts.T02_counters": hts.T02_counters,
	"hts.T02_sdt": hts.T02_sdt,
	"hts.T02_start": hts.T02_start,
	"hts.T02_tables": hts.T02_tables,
	"hts.T03_failing": hts.T03_failing,
	"hts.T03_frames": hts.T03_frames,
	"hts.T03_long": hts.T03_long,
	"hts.T03_other": hts.T03_other,
	"hts.T03_sequence": hts.T03_sequence,
	"hts.T04_history": hts.T04_history,
	"hts.T04_mixer": hts.T04_mixer,
	"hts.T05_header": hts.T05_header,
	"hts.T05_muxed": hts.T05_muxed,
	"hts.T06_clock": hts.T06_clock,
	"hts.T06_write": hts.T06_write,
	"hts.T07_demuxed": hts.T07_demuxed,
	"hts.T07_video": hts.T07_video,
	"hts.T08_endless": hts.T08_endless,
	"hts.T08_eons": hts.T08_eons,
	"hts.T08_long": hts.T08_long,
	"hts.T08_rate": hts.T08_rate,
	"hts.T08_steps": hts.T08_steps,
	"hts.T08_video": hts.T08_video,
	"hts.T09_metadata": hts.T09_metadata,
	"hts.T09_service": hts.T09_service,
	"hts.T09_several": hts.T09_several,
	"hts.T09_table": hts.T09_table,
	"hts.T10_large": hts.T10_large,
	"hts.T10_many": hts.T10_many,
	"hts.T10_stream": hts.T10_stream,
	"hts.T11_frame": hts.T11_frame,
	"hts.T11_mixer": hts.T11_mixer,
	"hts.T11_start": hts.T11_start,
	"hts.T12_descriptors": hts.T12_descriptors,
	"hts.T12_headers": hts.T12_headers,
	"hts.T12_mixers": hts.T12_mixers,
	"hts.T12_muxers": hts.T12_muxers,
	"hts.T12_shared": hts.T12_shared,
}
