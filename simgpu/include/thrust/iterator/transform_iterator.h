#include "../simthrust.h"
