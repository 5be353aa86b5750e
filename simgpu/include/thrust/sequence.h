#include "simthrust.h"
