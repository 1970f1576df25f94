// The real header has no include guard; this lets one translation unit include it through two paths.
#pragma once
#include_next "spine/controller/implementations/pid/pid_controller.hpp"
