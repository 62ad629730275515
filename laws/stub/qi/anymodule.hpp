// model: a module builder remembers the functions it is given, by name
#pragma once
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace qi {
struct ModuleBuilder {
  std::vector<std::pair<std::string, void *>> methods;
  template <typename F> void advertiseMethod(const std::string &name, F f, const std::string & = std::string()) { methods.push_back(std::make_pair(name, (void *)+f)); }
};
}
#define QI_REGISTER_MODULE(name, f)
