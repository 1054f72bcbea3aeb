// common prologue of every harness that includes NNTL headers (what the projects' stdafx.h does)
#pragma once
#define NOMINMAX
#define _USE_MATH_DEFINES
#include <stdio.h>
#include <iostream>
#include <sstream>
#ifndef STDCOUT
struct NnNull: std::streambuf{ int overflow(int c)override{ return c; } };
inline std::ostream& nn_null(){ static NnNull b; static std::ostream o(&b); return o; }
#define STDCOUT(args) (nn_null() << args)
#define STDCOUTL(args) STDCOUT(args)
#endif
#ifndef NNTL_MATLAB_AVAILABLE
#define NNTL_MATLAB_AVAILABLE 0
#endif
#define NNTL_FP_ROUND_TO_ZERO 0
#include "nntl/math.h"
#include "nntl/common.h"
