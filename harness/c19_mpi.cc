// FLAGS: -std=c++11 -pthread
#include "c19_body.h"
