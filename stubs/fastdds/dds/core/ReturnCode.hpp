// Stand-in for the Fast DDS header of the same name (values as in Fast DDS 3).
#pragma once
#include <cstdint>
#include <ostream>
namespace eprosima { namespace fastdds { namespace dds {
using ReturnCode_t = std::int32_t;
constexpr ReturnCode_t RETCODE_OK = 0;
constexpr ReturnCode_t RETCODE_ERROR = 1;
constexpr ReturnCode_t RETCODE_UNSUPPORTED = 2;
constexpr ReturnCode_t RETCODE_BAD_PARAMETER = 3;
constexpr ReturnCode_t RETCODE_PRECONDITION_NOT_MET = 4;
constexpr ReturnCode_t RETCODE_OUT_OF_RESOURCES = 5;
constexpr ReturnCode_t RETCODE_NOT_ENABLED = 6;
constexpr ReturnCode_t RETCODE_IMMUTABLE_POLICY = 7;
constexpr ReturnCode_t RETCODE_INCONSISTENT_POLICY = 8;
constexpr ReturnCode_t RETCODE_ALREADY_DELETED = 9;
constexpr ReturnCode_t RETCODE_TIMEOUT = 10;
constexpr ReturnCode_t RETCODE_NO_DATA = 11;
constexpr ReturnCode_t RETCODE_ILLEGAL_OPERATION = 12;
constexpr ReturnCode_t RETCODE_NOT_ALLOWED_BY_SECURITY = 13;
} } }
