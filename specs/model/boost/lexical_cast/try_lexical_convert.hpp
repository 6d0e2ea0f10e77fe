#pragma once
#include "../lexical_cast.hpp"
