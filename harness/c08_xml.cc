// C08: reading back the XML written for an object restores it; elements missing from the document leave members alone
// FLAGS: -std=c++98
// CD: fix1.cd fix1.h -nodef -typeName xml_pack xml_unpack
#include "h.h"
#include "classdesc_access.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "fix1.h"
#include "fix1.cd"
#include "fixgen.h"
#include "classdesc_epilogue.h"
#include "c08_body.h"
