# Planted bugs of the tools.
SEEDS = []
def seed(**k): SEEDS.append(k)
T = "src/maidsafe/common/tools/"
BASE = "utils log active error error_categories config crypto identity encode data_types/data".split()
RUN = r'''
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iterator>
#include <string>
std::string Slurp(const char* f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
void Spit(const char* f, const std::string& s) { std::ofstream(f, std::ios::binary) << s; }
template <class F> std::string Session(const std::string& say, F f) {
  Spit("in", say);
  pid_t p = fork();
  if (!p) {
    if (!freopen("in", "r", stdin) || !freopen("out", "w", stdout)) _exit(90);
    alarm(60);
    f();
    std::cout.flush();
    fflush(stdout);
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  NEED(WIFEXITED(st));
  return Slurp("out");
}
'''
SIGN = '#define main tool_main\n#include "maidsafe/common/tools/signing_tool.cc"\n#undef main\n' + RUN
BOOT = '#define main tool_main\n#include "maidsafe/common/tools/bootstrap_file_tool.cc"\n#undef main\n' + RUN + r'''
std::string Boot(const std::string& say) {
  return Session(say, [] { char a[] = "tool", b[] = "--log_no_console"; char* av[] = {a, b, nullptr}; tool_main(2, av); });
}
'''
seed(id="C42-mistyped", property="C42", units=["rsa"] + BASE, needs="a password which is mistyped the second time, but just as long",
 breaks="two typed passwords are compared by their lengths only, so a file is encrypted although the second differs",
 edits=[(T + "signing_tool.cc", "while ((passwd != passwd2) && (repeat));", "while ((passwd.size() != passwd2.size()) && (repeat));")],
 demo=SIGN + r'''
int main() {
  Spit("f", "contents");
  Session("10\nf\nsecret\nsecreT\nsecret\nsecret\n0\n", [] { tool_main(); });
  NEED(Slurp("f") != "contents");
  Session("11\nf\nsecret\nsecret\n0\n", [] { tool_main(); });
  NEED(Slurp("f") == "contents");
  auto out = Session("10\nf\nsecret\nsecreT\n", [] { tool_main(); });
  NEED(Slurp("f") == "contents" && out.find("now encrypted") == std::string::npos);
}
''')
seed(id="C42-group-refused", property="C42", units=["rsa"] + BASE, needs="a group whose sign-in is refused, and then saving the private key",
 breaks="a refused sign-in counts as one, so that the private key can't be saved any more",
 edits=[(T + "signing_tool.cc", '  int min = atoi(quorum.c_str());\n', '  int min = atoi(quorum.c_str());\n  group_signed_in = true;\n')],
 demo=SIGN + r'''
int main() {
  Session("1\n2\nkey\n0\n", [] { tool_main(); });
  NEED(Slurp("key").size() > 100);
  Session("4\nkey\n7\n2\n./none_\n2\nkey2\n0\n", [] { tool_main(); });
  Spit("a.keyfile", "no share");
  Session("4\nkey\n7\n2\n./\na\npw\npw\n2\nkey3\n0\n", [] { tool_main(); });
  NEED(Slurp("key3") == Slurp("key"));
}
''')
seed(id="C43-saved-anyway", property="C43", units=BASE, needs="a save which fails, and then leaving or loading without saving elsewhere",
 breaks="a list that could not be written counts as saved, so it is dropped without asking",
 edits=[(T + "bootstrap_file_tool.cc", "    if (maidsafe::WriteFile(bootstrap_file, contents)) {\n      g_out_of_date = false;\n", "    g_out_of_date = false;\n    if (maidsafe::WriteFile(bootstrap_file, contents)) {\n")],
 demo=BOOT + r'''
#include <sys/stat.h>
int main() {
  mkdir("folder", 0700);
  auto out = Boot("3\n1.2.3.4:5000\n5\nfolder\n7\nn\n6\n7\ny\n");
  char cwd[4096];
  NEED(getcwd(cwd, sizeof cwd));
  out = Boot("3\n1.2.3.4:5000\n5\n" + std::string(cwd) + "/folder\n7\nn\n6\n7\ny\n");
  NEED(out.find("Failed to write") != std::string::npos);
  NEED(out.find("have changed since last saved") != std::string::npos);
}
''')
seed(id="C43-high-port", property="C43", units=BASE, needs="a list with a port above 32767 which is saved and loaded again",
 breaks="ports above 32767 are written as negative numbers",
 edits=[(T + "bootstrap_file_tool.cc", "serialised_endpoint->port_ = endpoint.port();", "serialised_endpoint->port_ = static_cast<int16_t>(endpoint.port());")],
 demo=BOOT + r'''
int main() {
  char cwd[4096];
  NEED(getcwd(cwd, sizeof cwd));
  std::string f = std::string(cwd) + "/f.dat";
  Boot("3\n1.2.3.4:40000\n2\n5.6.7.8:2000\n5\n" + f + "\n7\n");
  auto out = Boot("1\n" + f + "\n6\n7\n");
  NEED(out.find("5.6.7.8:2000\n1.2.3.4:40000\n") != std::string::npos);
}
''')
