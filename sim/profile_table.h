// Reads the table a profiler prints (harness code; compiled with the scenarios, used under Ign).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

namespace ss {
struct ProfRow { int indent = 0; std::string leaf; long long time = 0, ptotal = 0, pparent = 0; int parent = -1; };
struct ProfTable {
  bool header = false, complete = false, parsed = true, tree = true;
  std::vector<ProfRow> rows;
  std::string bad;
};
inline std::string read_file(const std::string& path) {
  std::string s;
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
// Each row: name (indented by the length of the enclosing names), time, % of total, % of parent
inline ProfTable parse_profile(const std::string& text) {
  ProfTable t;
  t.complete = !text.empty() && text.back() == '\n';
  size_t pos = 0;
  int line = 0;
  while (pos < text.size()) {
    size_t e = text.find('\n', pos);
    if (e == std::string::npos) e = text.size();
    std::string l = text.substr(pos, e - pos);
    pos = e + 1;
    ++line;
    if (line == 1) { t.header = l.find("Description") != std::string::npos; continue; }
    if (line == 2) continue;
    ProfRow r;
    long long v[3];
    std::string rest = l;
    bool ok = true;
    for (int i = 2; i >= 0; --i) {
      size_t b = rest.find_last_not_of(' ');
      if (b == std::string::npos) { ok = false; break; }
      size_t a = rest.find_last_of(' ', b);
      a = a == std::string::npos ? 0 : a + 1;
      char* end;
      std::string w = rest.substr(a, b - a + 1);
      v[i] = strtoll(w.c_str(), &end, 10);
      if (*end) { ok = false; break; }
      rest = rest.substr(0, a);
    }
    if (!ok) { t.parsed = false; if (t.bad.empty()) t.bad = l; continue; }
    size_t b = rest.find_last_not_of(' ');
    size_t a = rest.find_first_not_of(' ');
    if (b == std::string::npos) { r.indent = 0; }
    else { r.indent = (int)a; r.leaf = rest.substr(a, b - a + 1); }
    r.time = v[0]; r.ptotal = v[1]; r.pparent = v[2];
    t.rows.push_back(r);
  }
  // the enclosing scope: the last open one whose own name ends where this row's name begins
  std::vector<int> st;
  for (int i = 0; i < (int)t.rows.size(); ++i) {
    ProfRow& r = t.rows[i];
    while (!st.empty() && t.rows[st.back()].indent + (int)t.rows[st.back()].leaf.size() != r.indent) st.pop_back();
    if (!st.empty()) r.parent = st.back();
    else if (r.indent != 0) t.tree = false;
    st.push_back(i);
  }
  return t;
}
}  // namespace ss
