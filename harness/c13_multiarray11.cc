// C13 in C++11
// FLAGS: -std=c++11
#include "c13_body.h"
