// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ANYSIMPLEARRAY_H
#define SMPSTUB_ANYSIMPLEARRAY_H
#include <Smp/AnySimple.h>
namespace Smp {
using AnySimpleArray = AnySimple *;
}
#endif
