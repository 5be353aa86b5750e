// what scenarios of the tensor library share
#pragma once
#include "TinyTorch.h"
