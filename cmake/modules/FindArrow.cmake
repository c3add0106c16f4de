# Arrow C++ is not available in this sandbox. The project's CMakeLists.txt says find_package(Arrow REQUIRED) and has
# no option to leave it out. This lets the configure step pass, and supplies no header and no library: every target
# that needs Arrow fails to build, and build.sh and test.sh name only targets that do not.
set(Arrow_FOUND TRUE)
set(Arrow_LIBRARIES "")
set(Arrow_INCLUDE_DIRS "")
