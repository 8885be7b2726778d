// P09: errors carry what they are about. Every exception with every value, raised directly.
// SOURCES: src/Xsmp/Exception.cpp src/Xsmp/Helper.cpp src/Xsmp/cstring.cpp src/Xsmp/Container.cpp src/Xsmp/Reference.cpp src/Xsmp/Component.cpp src/Xsmp/Field.cpp src/Xsmp/Object.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Publication.cpp
// ENTRY p09_objects
// ENTRY p09_values
// ENTRY p09_kinds
#include "exclib.h"
ENTRY(p09_objects) { ex::objects(); }
ENTRY(p09_values) { ex::values(); }
ENTRY(p09_kinds) { ex::kinds(); }
