# Included by the project's own project() call (CMAKE_PROJECT_INCLUDE).  Arrow C++ is not available in this sandbox.
# This leaves out the pieces of the project that convert to and from Arrow, without an edit to /repo, and
# adds the conformance drivers of /verif/harness as targets.  Runs at the end of the top-level CMakeLists.txt.
if(NOT CMAKE_SOURCE_DIR STREQUAL CMAKE_CURRENT_SOURCE_DIR)
  return()
endif()
get_filename_component(VERIF_ROOT "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE CACHE)

function(verif_without_arrow)
  # The Arrow result conversion is not compiled.
  set_target_properties(Calcite PROPERTIES SOURCES CalciteStub.cpp)
  get_target_property(s ResultSet SOURCES)
  list(REMOVE_ITEM s ArrowResultSet.cpp ArrowResultSetConverter.cpp)
  set_target_properties(ResultSet PROPERTIES SOURCES "${s}")
  foreach(t IR ResultSetRegistry QueryEngine)
    target_include_directories(${t} BEFORE PRIVATE ${VERIF_ROOT}/stub/override)
  endforeach()
  include(${VERIF_ROOT}/harness/targets.cmake)
endfunction()
cmake_language(DEFER CALL verif_without_arrow)
