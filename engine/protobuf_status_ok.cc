// Defines the one static member that CMakeLists.txt adds to its copy of <google/protobuf/stubs/status.h>.
#include <google/protobuf/stubs/status.h>

namespace google {
namespace protobuf {
namespace util {
namespace status_internal {
const Status Status::OK;
}  // namespace status_internal
}  // namespace util
}  // namespace protobuf
}  // namespace google
