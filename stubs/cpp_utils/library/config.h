#pragma once
#define CPP_UTILS_VERSION_MAJOR 1
#define CPP_UTILS_VERSION_MINOR 0
#define CPP_UTILS_VERSION_MICRO 0
#define CPP_UTILS_VERSION_STRING "1.0.0"
#define CPP_UTILS_COMMIT_HASH "0"
