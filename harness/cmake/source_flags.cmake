# Boost 1.76 renamed boost::dll::import to import_symbol; apt has 1.83.
set_source_files_properties(${CMAKE_SOURCE_DIR}/alsfvm/src/io/DLLWriter.cpp
  TARGET_DIRECTORY alsfvm PROPERTIES COMPILE_DEFINITIONS import=import_symbol)
set_source_files_properties(${CMAKE_SOURCE_DIR}/alsuq/src/distribution/DLLDistribution.cpp
  TARGET_DIRECTORY alsuq PROPERTIES COMPILE_DEFINITIONS import=import_symbol)
# Shorter builds: precompile what nearly every source includes.
foreach(t alsutils alsfvm alsuq)
  target_precompile_headers(${t} PRIVATE <mpi.h> <iostream> <vector> <string>
    <algorithm> <memory> <sstream> <fstream> <map> <functional> <mutex> <cmath>
    <boost/property_tree/ptree.hpp> <boost/algorithm/string.hpp>)
endforeach()
# The harness servers: alsh needs alsfvm only, alshuq adds the ensemble code.
set(VERIF_SRC_DIR ${VERIF_CMAKE_DIR}/../src)
file(GLOB VERIF_SRC CONFIGURE_DEPENDS ${VERIF_SRC_DIR}/*.cpp)
add_executable(alsh EXCLUDE_FROM_ALL ${VERIF_SRC})
target_include_directories(alsh PRIVATE ${VERIF_SRC_DIR})
target_link_libraries(alsh alsfvm)
file(GLOB VERIF_UQ_SRC CONFIGURE_DEPENDS ${VERIF_SRC_DIR}/uq/*.cpp)
add_executable(alshuq EXCLUDE_FROM_ALL ${VERIF_SRC_DIR}/server.cpp
  ${VERIF_SRC_DIR}/common.cpp ${VERIF_UQ_SRC})
target_include_directories(alshuq PRIVATE ${VERIF_SRC_DIR})
target_link_libraries(alshuq alsfvm alsuq)
# A plug-in that records what it is given (output and distribution).
add_library(vhplug SHARED EXCLUDE_FROM_ALL ${VERIF_SRC_DIR}/plug/vhplug.cpp)
find_package(MPI)
target_include_directories(vhplug PRIVATE ${MPI_CXX_INCLUDE_DIRS} ${MPI_C_INCLUDE_DIRS})
set_target_properties(vhplug PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR})
add_dependencies(alsh vhplug)
add_dependencies(alshuq vhplug)
