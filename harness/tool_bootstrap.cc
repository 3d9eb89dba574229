#define main bootstrap_file_tool_main
#include "maidsafe/common/tools/bootstrap_file_tool.cc"
