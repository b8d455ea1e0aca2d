#include "../harness/mpi.h"
