----------------------------- MODULE ConfigTable -----------------------------
(* The command-line options of the engine: name, the one setting it sets, kind  *)
(* of value, value when given without one ("" when a value is required).        *)
Options == <<
  [o |-> "enable-watchdog", f |-> "exec.watchdog.enable", k |-> "bool", imp |-> "1"],
  [o |-> "enable-dynamic-watchdog", f |-> "exec.watchdog.enable_dynamic", k |-> "bool", imp |-> "1"],
  [o |-> "dynamic-watchdog-time-limit", f |-> "exec.watchdog.time_limit", k |-> "nat", imp |-> ""],
  [o |-> "watchdog-baseline-max-groups", f |-> "exec.watchdog.baseline_max_groups", k |-> "nat", imp |-> ""],
  [o |-> "parallel-top-max", f |-> "exec.watchdog.parallel_top_max", k |-> "nat", imp |-> ""],
  [o |-> "enable-cpu-sub-tasks", f |-> "exec.sub_tasks.enable", k |-> "bool", imp |-> "1"],
  [o |-> "cpu-sub-task-size", f |-> "exec.sub_tasks.sub_task_size", k |-> "nat", imp |-> ""],
  [o |-> "enable-loop-join", f |-> "exec.join.allow_loop_joins", k |-> "bool", imp |-> "1"],
  [o |-> "loop-join-limit", f |-> "exec.join.trivial_loop_join_threshold", k |-> "nat4", imp |-> ""],
  [o |-> "huge-join-hash-threshold", f |-> "exec.join.huge_join_hash_threshold", k |-> "nat", imp |-> ""],
  [o |-> "huge-join-hash-min-load", f |-> "exec.join.huge_join_hash_min_load", k |-> "nat", imp |-> ""],
  [o |-> "bigint-count", f |-> "exec.group_by.bigint_count", k |-> "bool", imp |-> "1"],
  [o |-> "default-max-groups-buffer-entry-guess", f |-> "exec.group_by.default_max_groups_buffer_entry_guess", k |-> "nat", imp |-> ""],
  [o |-> "big-group-threshold", f |-> "exec.group_by.big_group_threshold", k |-> "nat", imp |-> ""],
  [o |-> "use-groupby-buffer-desc", f |-> "exec.group_by.use_groupby_buffer_desc", k |-> "bool", imp |-> "1"],
  [o |-> "enable-gpu-shared-mem-group-by", f |-> "exec.group_by.enable_gpu_smem_group_by", k |-> "bool", imp |-> "1"],
  [o |-> "enable-gpu-shared-mem-non-grouped-agg", f |-> "exec.group_by.enable_gpu_smem_non_grouped_agg", k |-> "bool", imp |-> "1"],
  [o |-> "enable-gpu-shared-mem-grouped-non-count-agg", f |-> "exec.group_by.enable_gpu_smem_grouped_non_count_agg", k |-> "bool", imp |-> "1"],
  [o |-> "enable-cpu-groupby-multifrag-kernels", f |-> "exec.group_by.enable_cpu_multifrag_kernels", k |-> "bool", imp |-> "1"],
  [o |-> "gpu-shared-mem-threshold", f |-> "exec.group_by.gpu_smem_threshold", k |-> "nat", imp |-> ""],
  [o |-> "hll-precision-bits", f |-> "exec.group_by.hll_precision_bits", k |-> "nat4", imp |-> ""],
  [o |-> "groupby-baseline-threshold", f |-> "exec.group_by.baseline_threshold", k |-> "nat", imp |-> ""],
  [o |-> "large-ndv-threshold", f |-> "exec.group_by.large_ndv_threshold", k |-> "int", imp |-> ""],
  [o |-> "large-ndv-multiplier", f |-> "exec.group_by.large_ndv_multiplier", k |-> "nat", imp |-> ""],
  [o |-> "enable-cpu-partitioned-groupby", f |-> "exec.group_by.enable_cpu_partitioned_groupby", k |-> "bool", imp |-> "1"],
  [o |-> "groupby-partitioning-buffer-size-threshold", f |-> "exec.group_by.partitioning_buffer_size_threshold", k |-> "nat", imp |-> ""],
  [o |-> "groupby-partitioning-group-size-threshold", f |-> "exec.group_by.partitioning_group_size_threshold", k |-> "real", imp |-> ""],
  [o |-> "groupby-min-partitions", f |-> "exec.group_by.min_partitions", k |-> "nat", imp |-> ""],
  [o |-> "groupby-max-partitions", f |-> "exec.group_by.max_partitions", k |-> "nat", imp |-> ""],
  [o |-> "groupby-partitioning-target-buffer-size", f |-> "exec.group_by.partitioning_buffer_target_size", k |-> "nat", imp |-> ""],
  [o |-> "enable-window-functions", f |-> "exec.window_func.enable", k |-> "bool", imp |-> "1"],
  [o |-> "enable-parallel-window-partition-compute", f |-> "exec.window_func.parallel_window_partition_compute", k |-> "bool", imp |-> "1"],
  [o |-> "parallel-window-partition-compute-threshold", f |-> "exec.window_func.parallel_window_partition_compute_threshold", k |-> "nat", imp |-> ""],
  [o |-> "enable-parallel-window-partition-sort", f |-> "exec.window_func.parallel_window_partition_sort", k |-> "bool", imp |-> "1"],
  [o |-> "parallel-window-partition-sort-threshold", f |-> "exec.window_func.parallel_window_partition_sort_threshold", k |-> "nat", imp |-> ""],
  [o |-> "enable-heterogeneous", f |-> "exec.heterogeneous.enable_heterogeneous_execution", k |-> "bool", imp |-> "1"],
  [o |-> "enable-multifrag-heterogeneous", f |-> "exec.heterogeneous.enable_multifrag_heterogeneous_execution", k |-> "bool", imp |-> "1"],
  [o |-> "force-heterogeneous-distribution", f |-> "exec.heterogeneous.forced_heterogeneous_distribution", k |-> "bool", imp |-> "1"],
  [o |-> "force-cpu-proportion", f |-> "exec.heterogeneous.forced_cpu_proportion", k |-> "nat4", imp |-> ""],
  [o |-> "force-gpu-proportion", f |-> "exec.heterogeneous.forced_gpu_proportion", k |-> "nat4", imp |-> ""],
  [o |-> "allow-cpu-retry", f |-> "exec.heterogeneous.allow_cpu_retry", k |-> "bool", imp |-> "1"],
  [o |-> "allow-query-step-cpu-retry", f |-> "exec.heterogeneous.allow_query_step_cpu_retry", k |-> "bool", imp |-> "1"],
  [o |-> "enable-runtime-query-interrupt", f |-> "exec.interrupt.enable_runtime_query_interrupt", k |-> "bool", imp |-> "1"],
  [o |-> "enable-non-kernel-time-query-interrupt", f |-> "exec.interrupt.enable_non_kernel_time_query_interrupt", k |-> "bool", imp |-> "1"],
  [o |-> "running-query-interrupt-freq", f |-> "exec.interrupt.running_query_interrupt_freq", k |-> "real", imp |-> ""],
  [o |-> "null-div-by-zero", f |-> "exec.codegen.null_div_by_zero", k |-> "bool", imp |-> "1"],
  [o |-> "inf-div-by-zero", f |-> "exec.codegen.inf_div_by_zero", k |-> "bool", imp |-> "1"],
  [o |-> "null-mod-by-zero", f |-> "exec.codegen.null_mod_by_zero", k |-> "bool", imp |-> "1"],
  [o |-> "enable-hoist-literals", f |-> "exec.codegen.hoist_literals", k |-> "bool", imp |-> "1"],
  [o |-> "enable-filter-function", f |-> "exec.codegen.enable_filter_function", k |-> "bool", imp |-> "1"],
  [o |-> "streaming-top-n-max", f |-> "exec.streaming_topn_max", k |-> "nat", imp |-> ""],
  [o |-> "parallel-top-min", f |-> "exec.parallel_top_min", k |-> "nat", imp |-> ""],
  [o |-> "enable-experimental-string-functions", f |-> "exec.enable_experimental_string_functions", k |-> "bool", imp |-> "1"],
  [o |-> "enable-interoperability", f |-> "exec.enable_interop", k |-> "bool", imp |-> "1"],
  [o |-> "parallel-linearization-threshold", f |-> "exec.parallel_linearization_threshold", k |-> "nat", imp |-> ""],
  [o |-> "enable-multifrag-results", f |-> "exec.enable_multifrag_rs", k |-> "bool", imp |-> "1"],
  [o |-> "enable-multifrag-execution-result", f |-> "exec.enable_multifrag_execution_result", k |-> "bool", imp |-> "1"],
  [o |-> "gpu-block-size", f |-> "exec.override_gpu_block_size", k |-> "nat", imp |-> ""],
  [o |-> "gpu-grid-size", f |-> "exec.override_gpu_grid_size", k |-> "nat", imp |-> ""],
  [o |-> "cpu-only", f |-> "exec.cpu_only", k |-> "bool", imp |-> "1"],
  [o |-> "initialize-with-gpu-vendor", f |-> "exec.initialize_with_gpu_vendor", k |-> "str", imp |-> ""],
  [o |-> "use-cost-model", f |-> "exec.enable_cost_model", k |-> "bool", imp |-> ""],
  [o |-> "enable-filter-push-down", f |-> "opts.filter_pushdown.enable", k |-> "bool", imp |-> "1"],
  [o |-> "filter-push-down-low-frac", f |-> "opts.filter_pushdown.low_frac", k |-> "real", imp |-> "same"],
  [o |-> "filter-push-down-high-frac", f |-> "opts.filter_pushdown.high_frac", k |-> "real", imp |-> "same"],
  [o |-> "filter-push-down-passing-row-ubound", f |-> "opts.filter_pushdown.passing_row_ubound", k |-> "nat", imp |-> "same"],
  [o |-> "from-table-reordering", f |-> "opts.from_table_reordering", k |-> "bool", imp |-> "1"],
  [o |-> "constrained-by-in-threshold", f |-> "opts.constrained_by_in_threshold", k |-> "nat", imp |-> ""],
  [o |-> "enable-left-join-filter-hoisting", f |-> "opts.enable_left_join_filter_hoisting", k |-> "bool", imp |-> "1"],
  [o |-> "enable-columnar-output", f |-> "rs.enable_columnar_output", k |-> "bool", imp |-> "1"],
  [o |-> "optimize-row-init", f |-> "rs.optimize_row_initialization", k |-> "bool", imp |-> "1"],
  [o |-> "enable-direct-columnarization", f |-> "rs.enable_direct_columnarization", k |-> "bool", imp |-> "1"],
  [o |-> "enable-lazy-fetch", f |-> "rs.enable_lazy_fetch", k |-> "bool", imp |-> "1"],
  [o |-> "enable-tiered-cpu-mem", f |-> "mem.cpu.enable_tiered_cpu_mem", k |-> "bool", imp |-> "1"],
  [o |-> "pmem-size", f |-> "mem.cpu.pmem_size", k |-> "nat", imp |-> ""],
  [o |-> "cpu-buffer-mem-bytes", f |-> "mem.cpu.max_size", k |-> "nat", imp |-> ""],
  [o |-> "min-cpu-slab-size", f |-> "mem.cpu.min_slab_size", k |-> "nat", imp |-> ""],
  [o |-> "max-cpu-slab-size", f |-> "mem.cpu.max_slab_size", k |-> "nat", imp |-> ""],
  [o |-> "min-output-projection-allocation-bytes", f |-> "mem.gpu.min_memory_allocation_size", k |-> "nat", imp |-> ""],
  [o |-> "max-output-projection-allocation-bytes", f |-> "mem.gpu.max_memory_allocation_size", k |-> "nat", imp |-> ""],
  [o |-> "gpu-input-mem-limit", f |-> "mem.gpu.input_mem_limit_percent", k |-> "real", imp |-> ""],
  [o |-> "res-gpu-mem", f |-> "mem.gpu.reserved_mem_bytes", k |-> "nat", imp |-> ""],
  [o |-> "gpu-buffer-mem-bytes", f |-> "mem.gpu.max_size", k |-> "nat", imp |-> ""],
  [o |-> "min-gpu-slab-size", f |-> "mem.gpu.min_slab_size", k |-> "nat", imp |-> ""],
  [o |-> "max-gpu-slab-size", f |-> "mem.gpu.max_slab_size", k |-> "nat", imp |-> ""],
  [o |-> "use-estimator-result-cache", f |-> "cache.use_estimator_result_cache", k |-> "bool", imp |-> "1"],
  [o |-> "enable-data-recycler", f |-> "cache.enable_data_recycler", k |-> "bool", imp |-> "1"],
  [o |-> "use-hashtable-cache", f |-> "cache.use_hashtable_cache", k |-> "bool", imp |-> "1"],
  [o |-> "hashtable-cache-total-bytes", f |-> "cache.hashtable_cache_total_bytes", k |-> "nat", imp |-> ""],
  [o |-> "max-cacheable-hashtable-size-bytes", f |-> "cache.max_cacheable_hashtable_size_bytes", k |-> "nat", imp |-> ""],
  [o |-> "gpu-code-cache-eviction-percent", f |-> "cache.gpu_fraction_code_cache_to_evict", k |-> "real", imp |-> ""],
  [o |-> "dag-cache-size", f |-> "cache.dag_cache_size", k |-> "nat", imp |-> ""],
  [o |-> "code-cache-size", f |-> "cache.code_cache_size", k |-> "nat", imp |-> ""],
  [o |-> "build-rel-alg-cache", f |-> "debug.build_ra_cache", k |-> "str", imp |-> ""],
  [o |-> "use-rel-alg-cache", f |-> "debug.use_ra_cache", k |-> "str", imp |-> ""],
  [o |-> "enable-automatic-ir-metadata", f |-> "debug.enable_automatic_ir_metadata", k |-> "bool", imp |-> "1"],
  [o |-> "dump-after-all", f |-> "debug.dump_llvm_ir_after_each_pass", k |-> "int2", imp |-> "1"],
  [o |-> "enable-gpu-code-compilation-cache", f |-> "debug.enable_gpu_code_compilation_cache", k |-> "bool", imp |-> "1"],
  [o |-> "enable-lazy-dict-materialization", f |-> "storage.enable_lazy_dict_materialization", k |-> "bool", imp |-> "1"],
  [o |-> "enable-non-lazy-data-import", f |-> "storage.enable_non_lazy_data_import", k |-> "bool", imp |-> "1"]
>>
==============================================================================
