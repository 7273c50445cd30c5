#pragma once
#include "tlx/string/split.hpp"
