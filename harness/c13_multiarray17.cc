// C13 in C++17 (the constructors differ)
// FLAGS: -std=c++17
#include "c13_body.h"
