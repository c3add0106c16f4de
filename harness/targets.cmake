# Conformance drivers.  Included from ../cmake/verif.cmake in the scope of the top-level project.
set(VH ${VERIF_ROOT}/harness)
add_custom_target(drivers)
function(verif_driver name)
  add_executable(${name} EXCLUDE_FROM_ALL ${VH}/${name}.cpp)
  add_dependencies(drivers ${name})
  target_include_directories(${name} BEFORE PRIVATE ${VERIF_ROOT}/stub/override)
  target_link_libraries(${name} ${ARGN} ${Boost_LIBRARIES} pthread)
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/harness)
endfunction()
verif_driver(engine_driver QueryEngine ResultSetRegistry QueryBuilder QueryOptimizer ResultSet StringDictionary DataMgr Analyzer IR SchemaMgr ConfigBuilder Shared Logger Utils OSDependent)
verif_driver(dict_driver StringDictionary Utils Shared Logger OSDependent)
verif_driver(buf_driver DataMgr IR Shared Logger Utils OSDependent)
verif_driver(enc_driver DataMgr IR Shared Logger Utils OSDependent)
verif_driver(util_driver ResultSet DataMgr Analyzer IR Shared Logger Utils OSDependent)
verif_driver(ir_driver Analyzer IR SchemaMgr Shared Logger Utils OSDependent)
verif_driver(meta_driver ConfigBuilder SchemaMgr IR Shared Logger Utils OSDependent)
