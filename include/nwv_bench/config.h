// Stands in for the file CMake makes of bench/config.h.in.
#ifndef NW_GRAPH_BENCH_CONFIG_H
#define NW_GRAPH_BENCH_CONFIG_H
#define CXX_FILESYSTEM_IS_EXPERIMENTAL 0
#define CXX_FILESYSTEM_NAMESPACE std::filesystem
namespace nw::graph { namespace bench {
constexpr const char BUILD_TYPE[]      = "None";
constexpr const char CXX_VERSION[]     = "0";
constexpr const char CXX_COMPILER_ID[] = "GNU";
constexpr const char CXX_COMPILER[]    = "g++";
constexpr const char USE_TBBMALLOC[]   = "OFF";
}}
#endif
