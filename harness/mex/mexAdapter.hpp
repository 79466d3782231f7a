#pragma once
#include "mex.hpp"
