#define SMASH_VERSION "SMASH-x"
#define CMAKE_SYSTEM "Linux"
#define CMAKE_CXX_COMPILER_ID "GNU"
#define CMAKE_CXX_COMPILER_VERSION "13"
#define CMAKE_BUILD_TYPE "Release"
#define BUILD_DATE "date"
#define GIT_BRANCH "main"
