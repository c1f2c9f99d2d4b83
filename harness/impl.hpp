// internal header of the library that C01 speaks about
#pragma once
#if __has_include("EncodeUtf8.hpp")
#include "EncodeUtf8.hpp"
#endif
