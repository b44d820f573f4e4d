# Injected with CMAKE_PROJECT_INCLUDE. The project runs each test program as a
# post-build command of its own target, so one failing test fails the build and
# ninja deletes the program. Drop the TARGET form only; test.sh runs the programs.
function(add_custom_command)
  if(ARGV0 STREQUAL "TARGET")
    return()
  endif()
  _add_custom_command(${ARGV})
endfunction()
