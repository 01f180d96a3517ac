// Code generated by gosym gen. DO NOT EDIT.

package main

import (
	"verif.local/harness/hbw"
	"verif.local/harness/hdump"
	"verif.local/harness/hspeed"
)

var harnesses = map[string]func(){
	"C24_alias": hbw.C24_alias,
	"C24_large": hbw.C24_large,
	"C24_mapped": hbw.C24_mapped,
	"C24_mapped_large": hbw.C24_mapped_large,
	"C24_write_raw": hbw.C24_write_raw,
	"C24_write_typed": hbw.C24_write_typed,
	"C24_write_val": hbw.C24_write_val,
	"C26_large": hdump.C26_large,
	"C26_one": hdump.C26_one,
	"C26_repeat": hdump.C26_repeat,
	"C26_schedule": hdump.C26_schedule,
	"C26_sections": hdump.C26_sections,
	"C26_strings": hdump.C26_strings,
	"C27_all": hdump.C27_all,
	"C27_large": hdump.C27_large,
	"C27_one": hdump.C27_one,
	"C27_two": hdump.C27_two,
	"C28_any": hdump.C28_any,
	"C28_laid": hdump.C28_laid,
	"C28_large": hdump.C28_large,
	"C28_sink": hdump.C28_sink,
	"C29_print": hdump.C29_print,
	"C29_unit": hdump.C29_unit,
	"C29_value": hdump.C29_value,
	"C01_counts": hspeed.C01_counts,
	"C01_equal": hspeed.C01_equal,
	"C01_flags": hspeed.C01_flags,
	"C01_large": hspeed.C01_large,
	"C01_pairs": hspeed.C01_pairs,
	"C02_empty": hspeed.C02_empty,
	"C02_equal": hspeed.C02_equal,
	"C02_fields": hspeed.C02_fields,
	"C02_kinds": hspeed.C02_kinds,
	"C02_large": hspeed.C02_large,
	"C02_string": hspeed.C02_string,
	"C03_desc": hspeed.C03_desc,
	"C03_equal": hspeed.C03_equal,
	"C03_large": hspeed.C03_large,
	"C03_names": hspeed.C03_names,
	"C03_shapes": hspeed.C03_shapes,
	"C03_shared": hspeed.C03_shared,
	"C04_equal": hspeed.C04_equal,
	"C04_instances": hspeed.C04_instances,
	"C04_large": hspeed.C04_large,
	"C04_scalars": hspeed.C04_scalars,
	"C04_updated": hspeed.C04_updated,
	"C05_large": hspeed.C05_large,
	"C05_one": hspeed.C05_one,
	"C05_seq": hspeed.C05_seq,
	"C05_strings": hspeed.C05_strings,
	"C06_indom": hspeed.C06_indom,
	"C06_metric": hspeed.C06_metric,
	"C06_values": hspeed.C06_values,
	"C06_vectors": hspeed.C06_vectors,
	"C07_names": hspeed.C07_names,
	"C07_order": hspeed.C07_order,
	"C08_files": hspeed.C08_files,
	"C08_restart": hspeed.C08_restart,
	"C08_stores": hspeed.C08_stores,
	"C09_domains": hspeed.C09_domains,
	"C09_empty": hspeed.C09_empty,
	"C09_large": hspeed.C09_large,
	"C09_one": hspeed.C09_one,
	"C09_restart": hspeed.C09_restart,
	"C09_shared": hspeed.C09_shared,
	"C09_texts": hspeed.C09_texts,
	"C09_three": hspeed.C09_three,
	"C09_two": hspeed.C09_two,
	"C09_v2": hspeed.C09_v2,
	"C10_after": hspeed.C10_after,
	"C10_cycle": hspeed.C10_cycle,
	"C10_during": hspeed.C10_during,
	"C10_large": hspeed.C10_large,
	"C10_refused": hspeed.C10_refused,
	"C10_seq": hspeed.C10_seq,
	"C11_history": hspeed.C11_history,
	"C11_start": hspeed.C11_start,
	"C11_start2": hspeed.C11_start2,
	"C11_stop": hspeed.C11_stop,
	"C12_descs": hspeed.C12_descs,
	"C12_equal": hspeed.C12_equal,
	"C12_indom": hspeed.C12_indom,
	"C12_large": hspeed.C12_large,
	"C12_long": hspeed.C12_long,
	"C12_many": hspeed.C12_many,
	"C12_seq": hspeed.C12_seq,
	"C13_clients": hspeed.C13_clients,
	"C13_pairs": hspeed.C13_pairs,
	"C13_readers": hspeed.C13_readers,
	"C13_start": hspeed.C13_start,
	"C13_stop": hspeed.C13_stop,
	"C13_three": hspeed.C13_three,
	"C14_new": hspeed.C14_new,
	"C14_set": hspeed.C14_set,
	"C15_concurrent": hspeed.C15_concurrent,
	"C15_counter": hspeed.C15_counter,
	"C15_vector": hspeed.C15_vector,
	"C16_gauge": hspeed.C16_gauge,
	"C16_large": hspeed.C16_large,
	"C16_vector": hspeed.C16_vector,
	"C17_long": hspeed.C17_long,
	"C17_timer": hspeed.C17_timer,
	"C18_limits": hspeed.C18_limits,
	"C18_many": hspeed.C18_many,
	"C18_once": hspeed.C18_once,
	"C18_small": hspeed.C18_small,
	"C19_more": hspeed.C19_more,
	"C19_pairs": hspeed.C19_pairs,
	"C19_start": hspeed.C19_start,
	"C19_stop": hspeed.C19_stop,
	"C19_two": hspeed.C19_two,
	"C20_compose": hspeed.C20_compose,
	"C20_constants": hspeed.C20_constants,
	"C20_file": hspeed.C20_file,
	"C20_string": hspeed.C20_string,
	"C21_client": hspeed.C21_client,
	"C21_ids": hspeed.C21_ids,
	"C21_kinds": hspeed.C21_kinds,
	"C22_ascii": hspeed.C22_ascii,
	"C22_large": hspeed.C22_large,
	"C22_lists": hspeed.C22_lists,
	"C22_unicode": hspeed.C22_unicode,
	"C23_large": hspeed.C23_large,
	"C23_new": hspeed.C23_new,
	"C23_ops": hspeed.C23_ops,
	"C23_shared": hspeed.C23_shared,
	"C25_before": hspeed.C25_before,
	"C25_between": hspeed.C25_between,
	"C25_dir": hspeed.C25_dir,
	"C25_name": hspeed.C25_name,
	"C27_client": hspeed.C27_client,
	"C28_client": hspeed.C28_client,
	"C29_names": hspeed.C29_names,
	"C29_units": hspeed.C29_units,
	"C30_large": hspeed.C30_large,
	"C30_lines": hspeed.C30_lines,
	"C30_location": hspeed.C30_location,
	"C31_concurrent": hspeed.C31_concurrent,
	"C31_kinds": hspeed.C31_kinds,
	"C31_large": hspeed.C31_large,
	"C31_names": hspeed.C31_names,
	"C31_orders": hspeed.C31_orders,
	"C32_long": hspeed.C32_long,
	"C32_mapped": hspeed.C32_mapped,
	"C32_pairs": hspeed.C32_pairs,
	"C32_refused": hspeed.C32_refused,
}
