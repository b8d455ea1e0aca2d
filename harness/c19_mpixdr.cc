// the same for a heterogeneous cluster: buffers in the machine independent format
// FLAGS: -std=c++11 -pthread -DHETERO -DXDR_PACK -I/usr/include/tirpc
// LIBS: @/xdr_pack.o -ltirpc
#include "c19_body.h"
