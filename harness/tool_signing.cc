#include <map>
#include "boost/tokenizer.hpp"
#define main signing_tool_main
#include "maidsafe/common/tools/signing_tool.cc"
