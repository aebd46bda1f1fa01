// Included before everything in instrumented code: std::string is instantiated here (and so carries
// symbolic bytes) instead of being taken from the precompiled libstdc++; streams stay precompiled.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
