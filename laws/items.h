#ifndef ITEMS_H
#define ITEMS_H
#include <sstream>
#include <string>
#include <vector>
// the numbers of a text and the word before each
struct Item { std::string name; double value; };
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static std::vector<Item> items(const std::string &s) {
  std::vector<Item> r;
  std::string word;
  for (size_t i = 0; i < s.size();) {
    char c = s[i];
    if (c == '#' || (c >= '0' && c <= '9')) {
      size_t n = 0;
      while (i + n < s.size() && (s[i + n] == '#' || s[i + n] == ';' || s[i + n] == '.' || letter(s[i + n]) || (s[i + n] >= '0' && s[i + n] <= '9'))) ++n;
      std::istringstream in(s.substr(i, n));
      double x;
      if (in >> x) r.push_back({word, x});
      word.clear();
      i += n;
      continue;
    }
    if (letter(c)) {
      word.clear();
      while (i < s.size() && (letter(s[i]) || (s[i] >= '0' && s[i] <= '9'))) word += s[i++];
      continue;
    }
    ++i;
  }
  return r;
}
#endif
