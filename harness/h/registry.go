// Code generated by genreg.sh. DO NOT EDIT.

package h

// Registry names the harnesses for the native replay.
var Registry = map[string]func(){
	"C01_long":         C01_long,
	"C01_many":         C01_many,
	"C01_negate":       C01_negate,
	"C01_pair":         C01_pair,
	"C01_subsets":      C01_subsets,
	"C01_twice":        C01_twice,
	"C01_wide":         C01_wide,
	"C02_build":        C02_build,
	"C02_conjoin":      C02_conjoin,
	"C02_derived":      C02_derived,
	"C02_long":         C02_long,
	"C02_many":         C02_many,
	"C02_negated":      C02_negated,
	"C02_sizes":        C02_sizes,
	"C03_deep":         C03_deep,
	"C03_grown":        C03_grown,
	"C03_many":         C03_many,
	"C03_roomy":        C03_roomy,
	"C03_sizes":        C03_sizes,
	"C03_wide":         C03_wide,
	"C04_again":        C04_again,
	"C04_bytes":        C04_bytes,
	"C04_clause":       C04_clause,
	"C04_faults":       C04_faults,
	"C04_file":         C04_file,
	"C04_lengths":      C04_lengths,
	"C04_long":         C04_long,
	"C04_wide":         C04_wide,
	"C05_contexts":     C05_contexts,
	"C05_far":          C05_far,
	"C05_history":      C05_history,
	"C05_large":        C05_large,
	"C05_many":         C05_many,
	"C05_names":        C05_names,
	"C06_deep":         C06_deep,
	"C06_history":      C06_history,
	"C06_long":         C06_long,
	"C06_many":         C06_many,
	"C06_names":        C06_names,
	"C06_nest":         C06_nest,
	"C07_declared":     C07_declared,
	"C07_many":         C07_many,
	"C07_names":        C07_names,
	"C07_wide":         C07_wide,
	"C08_bulk":         C08_bulk,
	"C08_chain":        C08_chain,
	"C08_large":        C08_large,
	"C08_nots":         C08_nots,
	"C08_small":        C08_small,
	"C09_broken":       C09_broken,
	"C09_complete":     C09_complete,
	"C09_deep":         C09_deep,
	"C09_long":         C09_long,
	"C09_visits":       C09_visits,
	"C10_again":        C10_again,
	"C10_apart":        C10_apart,
	"C10_formulas":     C10_formulas,
	"C10_levels":       C10_levels,
	"C10_long":         C10_long,
	"C10_many":         C10_many,
	"C10_relations":    C10_relations,
	"C11_huge":         C11_huge,
	"C11_uniform":      C11_uniform,
	"C11_versions":     C11_versions,
	"C11_wide":         C11_wide,
	"C12_huge":         C12_huge,
	"C12_uniform":      C12_uniform,
	"C12_versions":     C12_versions,
	"C12_wide":         C12_wide,
	"C13_big":          C13_big,
	"C13_deep":         C13_deep,
	"C13_long":         C13_long,
	"C13_many":         C13_many,
	"C13_versions":     C13_versions,
	"C14_big":          C14_big,
	"C14_deep":         C14_deep,
	"C14_long":         C14_long,
	"C14_many":         C14_many,
	"C14_versions":     C14_versions,
	"C15_huge":         C15_huge,
	"C15_uniform":      C15_uniform,
	"C15_versions":     C15_versions,
	"C15_wide":         C15_wide,
	"C16_big":          C16_big,
	"C16_deep":         C16_deep,
	"C16_long":         C16_long,
	"C16_many":         C16_many,
	"C16_versions":     C16_versions,
	"C17_huge":         C17_huge,
	"C17_uniform":      C17_uniform,
	"C17_versions":     C17_versions,
	"C17_wide":         C17_wide,
	"C18_huge":         C18_huge,
	"C18_uniform":      C18_uniform,
	"C18_versions":     C18_versions,
	"C18_wide":         C18_wide,
	"C19_huge":         C19_huge,
	"C19_uniform":      C19_uniform,
	"C19_versions":     C19_versions,
	"C19_wide":         C19_wide,
	"C20_alike":        C20_alike,
	"C20_changed":      C20_changed,
	"C20_combinations": C20_combinations,
	"C20_digits":       C20_digits,
	"C20_hepr":         C20_hepr,
	"C20_kinds":        C20_kinds,
	"C20_leh":          C20_leh,
	"C20_lel":          C20_lel,
	"C20_many":         C20_many,
	"C20_models":       C20_models,
	"C20_preferences":  C20_preferences,
	"C21_bottom":       C21_bottom,
	"C21_dimension":    C21_dimension,
	"C21_equal":        C21_equal,
	"C21_instance":     C21_instance,
	"C21_long":         C21_long,
	"C21_longer":       C21_longer,
	"C21_node":         C21_node,
	"C21_parts":        C21_parts,
	"C21_text":         C21_text,
	"C22_changed":      C22_changed,
	"C22_context":      C22_context,
	"C22_deep":         C22_deep,
	"C22_dimension":    C22_dimension,
	"C22_empty":        C22_empty,
	"C22_late":         C22_late,
	"C22_longer":       C22_longer,
	"C22_missing":      C22_missing,
	"C22_nodes":        C22_nodes,
	"C22_preference":   C22_preference,
	"C22_wide":         C22_wide,
	"C23_atom":         C23_atom,
	"C23_deep":         C23_deep,
	"C23_many":         C23_many,
	"C23_members":      C23_members,
	"C23_nested":       C23_nested,
	"C23_shared":       C23_shared,
	"C24_failures":     C24_failures,
	"C24_long":         C24_long,
	"C24_optimum":      C24_optimum,
	"C24_orders":       C24_orders,
	"C24_steps":        C24_steps,
	"C24_wide":         C24_wide,
	"C25_faults":       C25_faults,
	"C25_long":         C25_long,
	"C25_outcomes":     C25_outcomes,
	"C25_output":       C25_output,
	"C25_programs":     C25_programs,
	"C25_texts":        C25_texts,
	"C26_contexts":     C26_contexts,
	"C26_garbage":      C26_garbage,
	"C26_histories":    C26_histories,
	"C26_layouts":      C26_layouts,
	"C26_long":         C26_long,
	"C26_messages":     C26_messages,
	"C26_numbers":      C26_numbers,
	"C26_partial":      C26_partial,
	"C26_several":      C26_several,
	"C26_signs":        C26_signs,
	"C27_again":        C27_again,
	"C27_answers":      C27_answers,
	"C27_changed":      C27_changed,
	"C27_inputs":       C27_inputs,
	"C27_long":         C27_long,
	"C27_models":       C27_models,
	"C27_reset":        C27_reset,
	"C27_universal":    C27_universal,
	"C28_big":          C28_big,
	"C28_explanations": C28_explanations,
	"C28_external":     C28_external,
	"C28_long":         C28_long,
	"C28_minimum":      C28_minimum,
	"C28_reason":       C28_reason,
}
