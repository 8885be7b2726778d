// P09 (continued): the message of an error names the objects, texts and values concerned.
// SOURCES: src/Xsmp/Exception.cpp src/Xsmp/Helper.cpp src/Xsmp/cstring.cpp src/Xsmp/Container.cpp src/Xsmp/Reference.cpp src/Xsmp/Component.cpp src/Xsmp/Field.cpp src/Xsmp/Object.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Publication.cpp src/Smp/StreamOperators.cpp src/Smp/AnySimple.cpp src/Smp/Uuid.cpp
// FLAGS: @ministd/stream.h
// ENTRY p09_object_messages
// ENTRY p09_value_messages
// ENTRY p09_kind_messages
#define MESSAGES
#include "exclib.h"
ENTRY(p09_object_messages) { ex::objects(); }
ENTRY(p09_value_messages) { ex::values(); }
ENTRY(p09_kind_messages) { ex::kinds(); }
