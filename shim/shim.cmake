# Included right after project(opensfm) through CMAKE_PROJECT_opensfm_INCLUDE.
#
# The pybind11 submodule is empty in this sandbox, so the eight extension
# modules of the repository cannot be built from it.  Here the repository's own
# CMakeLists.txt are read as they are, and pybind11 is replaced by the small
# API-compatible implementation in this folder.
include_directories(BEFORE "${SHIM_DIR}")
include_directories(SYSTEM "${SHIM_PYTHON_INCLUDE}" "${SHIM_NUMPY_INCLUDE}")
add_compile_options(-w)

add_library(pybind11_shim SHARED "${SHIM_DIR}/core.cc")
set_target_properties(pybind11_shim PROPERTIES
  CXX_STANDARD 17 CXX_VISIBILITY_PRESET default VISIBILITY_INLINES_HIDDEN OFF
  LIBRARY_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/ext")

set(SHIM_MODULES "" CACHE INTERNAL "")
function(pybind11_add_module name)
  add_library(${name} MODULE ${ARGN})
  set_target_properties(${name} PROPERTIES PREFIX "" SUFFIX ".so")
  target_link_libraries(${name} PRIVATE pybind11_shim)
  set(SHIM_MODULES "${SHIM_MODULES};${name}" CACHE INTERNAL "")
endfunction()

macro(add_subdirectory dir)
  if(NOT "${dir}" STREQUAL "third_party/pybind11")
    _add_subdirectory(${dir} ${ARGN})
  endif()
endmacro()

# The modules go to the build folder, not to the source tree.
function(shim_finish)
  foreach(name ${SHIM_MODULES})
    set_target_properties(${name} PROPERTIES
      LIBRARY_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/ext"
      BUILD_RPATH "${CMAKE_BINARY_DIR}/ext")
  endforeach()
  add_custom_target(shim_modules DEPENDS ${SHIM_MODULES})
endfunction()
cmake_language(DEFER CALL shim_finish)
