// Exceptions of /repo carry a symbolised stack trace; building one per exception would dominate the run.
#define __QUARKDB_UTILS_STACKTRACE_H__
#include <string>
namespace quarkdb { inline std::string getStacktrace() { return ""; } }
