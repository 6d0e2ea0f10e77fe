#pragma once
#include "../../../rofl_model_stream"
