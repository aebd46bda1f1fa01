// For code that does not need a simulation: no kernel is linked.
#pragma once
#include "vx.h"
#include "sparta/utils/StaticInit.hpp"
#include "sparta/utils/SpartaAssert.hpp"
#include <vector>
#include <string>
#include <memory>
#include <algorithm>
#include <functional>
namespace sparta { SpartaStaticInitializer::SpartaStaticInitializer() {} SpartaStaticInitializer::~SpartaStaticInitializer() {} }
template<class F> bool throws_(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
