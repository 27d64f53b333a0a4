# Included right after project(HlasmServer); the function runs once the whole tree is configured.
set(VERIF_H ${CMAKE_CURRENT_LIST_DIR})
function(verif_after_configure)
	# nlohmann/json 3.11 (the installed one) needs pgm_conf to be complete here; the project's pinned 3.3 did not.
	set_property(SOURCE ${CMAKE_SOURCE_DIR}/language_server/src/lsp/feature_workspace_folders.cpp TARGET_DIRECTORY language_server_base
		PROPERTY COMPILE_FLAGS "-include ${CMAKE_SOURCE_DIR}/parser_library/src/config/pgm_conf.h")
	# One huge table: minutes to compile when instrumented or optimised.
	set_property(SOURCE ${CMAKE_SOURCE_DIR}/parser_library/src/context/instruction.cpp TARGET_DIRECTORY parser_library
		PROPERTY COMPILE_OPTIONS "-O0;-fno-sanitize=all")
	set_property(SOURCE ${CMAKE_SOURCE_DIR}/parser_library/src/context/instruction.cpp TARGET_DIRECTORY parser_library
		PROPERTY SKIP_PRECOMPILE_HEADERS ON)
	# Precompiled third-party and standard headers: the build from scratch is what a check costs.
	target_precompile_headers(parser_library PRIVATE <antlr4-runtime.h> <nlohmann/json.hpp> <algorithm> <array> <atomic> <deque> <filesystem> <fstream> <functional> <iostream> <map> <memory> <optional> <regex> <set> <sstream> <stdexcept> <string> <string_view> <unordered_map> <unordered_set> <variant> <vector>)
	foreach(d an ls)
		if(EXISTS ${VERIF_H}/drv/drv_${d}.cpp)
			add_executable(drv_${d} EXCLUDE_FROM_ALL ${VERIF_H}/drv/drv_${d}.cpp)
			target_include_directories(drv_${d} PRIVATE ${VERIF_H}/drv)
			target_link_libraries(drv_${d} parser_library nlohmann_json::nlohmann_json Threads::Threads)
		endif()
	endforeach()
	if(TARGET drv_ls)
		target_link_libraries(drv_ls language_server_base network-uri boost-asio)
	endif()
endfunction()
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL verif_after_configure)
