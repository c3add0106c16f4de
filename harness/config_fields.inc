// Every setting of Config.
F(exec.watchdog.enable)
F(exec.watchdog.enable_dynamic)
F(exec.watchdog.time_limit)
F(exec.watchdog.baseline_max_groups)
F(exec.watchdog.parallel_top_max)
F(exec.sub_tasks.enable)
F(exec.sub_tasks.sub_task_size)
F(exec.join.allow_loop_joins)
F(exec.join.trivial_loop_join_threshold)
F(exec.join.huge_join_hash_threshold)
F(exec.join.huge_join_hash_min_load)
F(exec.group_by.bigint_count)
F(exec.group_by.default_max_groups_buffer_entry_guess)
F(exec.group_by.big_group_threshold)
F(exec.group_by.use_groupby_buffer_desc)
F(exec.group_by.enable_gpu_smem_group_by)
F(exec.group_by.enable_gpu_smem_non_grouped_agg)
F(exec.group_by.enable_gpu_smem_grouped_non_count_agg)
F(exec.group_by.enable_cpu_multifrag_kernels)
F(exec.group_by.gpu_smem_threshold)
F(exec.group_by.hll_precision_bits)
F(exec.group_by.baseline_threshold)
F(exec.group_by.large_ndv_threshold)
F(exec.group_by.large_ndv_multiplier)
F(exec.group_by.enable_cpu_partitioned_groupby)
F(exec.group_by.partitioning_buffer_size_threshold)
F(exec.group_by.partitioning_group_size_threshold)
F(exec.group_by.min_partitions)
F(exec.group_by.max_partitions)
F(exec.group_by.partitioning_buffer_target_size)
F(exec.window_func.enable)
F(exec.window_func.parallel_window_partition_compute)
F(exec.window_func.parallel_window_partition_compute_threshold)
F(exec.window_func.parallel_window_partition_sort)
F(exec.window_func.parallel_window_partition_sort_threshold)
F(exec.heterogeneous.enable_heterogeneous_execution)
F(exec.heterogeneous.enable_multifrag_heterogeneous_execution)
F(exec.heterogeneous.forced_heterogeneous_distribution)
F(exec.heterogeneous.forced_cpu_proportion)
F(exec.heterogeneous.forced_gpu_proportion)
F(exec.heterogeneous.allow_cpu_retry)
F(exec.heterogeneous.allow_query_step_cpu_retry)
F(exec.interrupt.enable_runtime_query_interrupt)
F(exec.interrupt.enable_non_kernel_time_query_interrupt)
F(exec.interrupt.running_query_interrupt_freq)
F(exec.codegen.inf_div_by_zero)
F(exec.codegen.null_div_by_zero)
F(exec.codegen.null_mod_by_zero)
F(exec.codegen.hoist_literals)
F(exec.codegen.enable_filter_function)
F(exec.streaming_topn_max)
F(exec.parallel_top_min)
F(exec.enable_experimental_string_functions)
F(exec.enable_interop)
F(exec.parallel_linearization_threshold)
F(exec.enable_multifrag_rs)
F(exec.enable_multifrag_execution_result)
F(exec.override_gpu_block_size)
F(exec.override_gpu_grid_size)
F(exec.cpu_only)
F(exec.materialize_inner_join_tables)
F(exec.initialize_with_gpu_vendor)
F(exec.enable_cost_model)
F(opts.filter_pushdown.enable)
F(opts.filter_pushdown.low_frac)
F(opts.filter_pushdown.high_frac)
F(opts.filter_pushdown.passing_row_ubound)
F(opts.from_table_reordering)
F(opts.constrained_by_in_threshold)
F(opts.enable_left_join_filter_hoisting)
F(rs.enable_columnar_output)
F(rs.optimize_row_initialization)
F(rs.enable_direct_columnarization)
F(rs.enable_lazy_fetch)
F(mem.cpu.enable_tiered_cpu_mem)
F(mem.cpu.pmem_size)
F(mem.cpu.max_size)
F(mem.cpu.min_slab_size)
F(mem.cpu.max_slab_size)
F(mem.gpu.min_memory_allocation_size)
F(mem.gpu.max_memory_allocation_size)
F(mem.gpu.input_mem_limit_percent)
F(mem.gpu.reserved_mem_bytes)
F(mem.gpu.max_size)
F(mem.gpu.min_slab_size)
F(mem.gpu.max_slab_size)
F(cache.use_estimator_result_cache)
F(cache.enable_data_recycler)
F(cache.use_hashtable_cache)
F(cache.hashtable_cache_total_bytes)
F(cache.max_cacheable_hashtable_size_bytes)
F(cache.gpu_fraction_code_cache_to_evict)
F(cache.dag_cache_size)
F(cache.code_cache_size)
F(debug.build_ra_cache)
F(debug.use_ra_cache)
F(debug.enable_automatic_ir_metadata)
F(debug.enable_gpu_code_compilation_cache)
F(debug.log_dir)
F(debug.dump_llvm_ir_after_each_pass)
F(storage.enable_lazy_dict_materialization)
F(storage.enable_non_lazy_data_import)
