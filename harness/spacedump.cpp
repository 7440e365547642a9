// writes the template files of the space: spacedump DIR kind... -> DIR/e<k>.xml (further descriptions: e<k>x<j>.xml) and an
// index "k name v2ok extra" on stdout
#include "space.h"
static void put(const std::string &f, const std::string &t) {
  FILE *o = fopen(f.c_str(), "wb");
  if (!o) exit(1);
  fwrite(t.data(), 1, t.size(), o);
  fclose(o);
}
int main(int argc, char **argv) {
  auto s = sp::full_space();
  for (size_t k = 0; k < s.size(); ++k) {
    bool want = false;
    for (int a = 2; a < argc; ++a) want = want || s[k].kind == argv[a] || (s[k].kind.empty() && argv[a] == std::string("base"));
    if (!want) continue;
    if (argc > 1 && s[k].v2ok) {
      std::string f = std::string(argv[1]) + "/e" + std::to_string(k);
      put(f + ".xml", mdl::spec_xml(s[k].spec));
      for (size_t j = 0; j < s[k].spec.extra.size(); ++j) put(f + "x" + std::to_string(j) + ".xml", mdl::spec_xml(s[k].spec.extra[j]));
    }
    printf("%zu %s %d %zu\n", k, s[k].name.c_str(), (int)s[k].v2ok, s[k].spec.extra.size());
  }
}
