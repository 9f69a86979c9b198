// The exported C functions (their header defines init(), so rename that copy).
#pragma once
#include "harness.hpp"
#include <cstring>
#include <iostream>
#include <unistd.h>
#ifndef VF_INIT
#define VF_INIT vfUnusedInit
#endif
#define init VF_INIT
#include "pinvoke_api.hpp"
#undef init
namespace vf {
void quietCout();
}
