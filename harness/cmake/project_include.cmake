# Included after project() through CMAKE_PROJECT_alsvinn_INCLUDE: the targets
# the project still names with ALSVINN_BUILD_FBM=OFF and ALSVINN_BUILD_QMC=OFF.
foreach(name fbm fbmpy)
  if(NOT TARGET FBM::${name})
    add_library(FBM::${name} INTERFACE IMPORTED GLOBAL)
  endif()
endforeach()
if(NOT TARGET qmc_generators)
  add_custom_target(qmc_generators)
endif()
set(VERIF_CMAKE_DIR "${CMAKE_CURRENT_LIST_DIR}")
cmake_language(DEFER CALL include "${VERIF_CMAKE_DIR}/source_flags.cmake")
