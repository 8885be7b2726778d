// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_IPUBLISHOPERATION_H
#define SMPSTUB_PUBLICATION_IPUBLISHOPERATION_H
#include <Smp/Uuid.h>
#include <Smp/Publication/ParameterDirectionKind.h>
namespace Smp {
namespace Publication {
class IPublishOperation { public:
  virtual ~IPublishOperation() noexcept = default;
virtual void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction = ParameterDirectionKind::PDK_In) = 0;
};
}
}
#endif
