// Writing through an upload.
#include "values.h"
#include "fbpcf/io/api/CloudFileWriter.h"
namespace spec {
using namespace fbpcf::cloudio;
namespace detail {
struct Taken : IFileUploader {
  int* done;
  std::vector<char>* data;
  int most;
  int answer;
  Taken(int* d, std::vector<char>* v, int m, int a) : done(d), data(v), most(m), answer(a) {}
  int upload(std::vector<char>& b) override {
    if (*done != 0) refuse();
    int n = 0;
    for (; n < b.size() && n < most; n++) data->push_back(b[n]);
    return n;
  }
  int complete() override {
    *done = *done + 1;
    return answer;
  }
  void init() override {}
};
} // namespace detail
namespace lemma {
// what is written goes to the upload, which is ended once
template <int ANSWER> bool writes(const Src&) {
  int done = 0;
  std::vector<char> got;
  fbpcf::io::CloudFileWriter w("some name");
  w.cloudFileUploader_ = std::make_unique<detail::Taken>(&done, &got, 2, ANSWER);
  bool ok = true;
  for (int k = 0; k < 3; k++) {
    std::vector<char> b(k + 1);
    for (int i = 0; i <= k; i++) b[i] = char('a' + 4 * k + i);
    ok = ok && w.write(b) == (k < 2 ? k + 1 : 2) && b.size() == k + 1;
  }
  ok = ok && got.size() == 5 && done == 0;
  for (int i = 0; i < 5; i++) ok = ok && got[i] == char('a' + (i == 0 ? 0 : i < 3 ? 3 + i : 5 + i));
  ok = ok && w.close() == ANSWER && done == 1;
  return ok && w.close() == 0 && done == 1;
}
template bool writes<0>(const Src&);
template bool writes<-1>(const Src&);
} // namespace lemma
} // namespace spec
