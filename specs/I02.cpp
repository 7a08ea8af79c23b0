// Uploading a file in parts, and writing files through it.
#include "values.h"
#include "fbpcf/io/cloud_util/S3FileUploader.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "fbpcf/io/cloud_util/GCSFileUploader.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/aws/S3Util.h"
#include <aws/s3/S3Client.h>
template struct Aws::S3::Outcome<Aws::S3::Model::CreateMultipartUploadResult>;
template struct Aws::S3::Outcome<Aws::S3::Model::UploadPartResult>;
template struct Aws::S3::Outcome<Aws::S3::Model::CompleteMultipartUploadResult>;
template struct Aws::S3::Outcome<Aws::S3::Model::AbortMultipartUploadResult>;
template std::shared_ptr<Aws::StringStream> Aws::MakeShared<Aws::StringStream, std::string&>(const char*, std::string&);
template struct google::cloud::StatusOr<google::cloud::storage::ObjectMetadata>;
namespace spec {
using namespace fbpcf::cloudio;
namespace detail {
// what the service was asked, and which of the requests it refuses
struct Service {
  int refuses = 0;
  int asked = 0;
  bool opens = true;
  bool ends = true;
  int begun = 0;
  int aborted = 0;
  int completed = 0;
  bool fits = true;
  std::vector<int> part;
  std::vector<std::string> text;
  std::vector<int> listed;
  std::vector<std::string> tags;
};
inline std::string tag(int k) { return k == 0 ? "a" : k == 1 ? "b" : k == 2 ? "c" : k == 3 ? "d" : "e"; }
struct Client : Aws::S3::S3Client {
  Service* s;
  explicit Client(Service* v) : s(v) {}
  bool named(const Aws::S3::Model::ReqBase& r) const { return r.bucket == "bucket" && r.key == "some/key"; }
  Aws::S3::Outcome<Aws::S3::Model::CreateMultipartUploadResult> CreateMultipartUpload(const Aws::S3::Model::CreateMultipartUploadRequest& r) const override {
    s->begun = s->begun + 1;
    if (!named(r)) s->fits = false;
    Aws::S3::Outcome<Aws::S3::Model::CreateMultipartUploadResult> o;
    o.good = s->opens;
    o.result.id = "upload";
    return o;
  }
  Aws::S3::Outcome<Aws::S3::Model::UploadPartResult> UploadPart(const Aws::S3::Model::UploadPartRequest& r) const override {
    int k = s->asked;
    s->asked = k + 1;
    if (!named(r) || r.id != "upload" || r.length != r.body->text.size()) s->fits = false;
    Aws::S3::Outcome<Aws::S3::Model::UploadPartResult> o;
    o.good = (s->refuses >> k & 1) == 0;
    if (o.good) {
      o.result.tag = tag(s->part.size());
      s->part.push_back(r.part);
      s->text.push_back(r.body->text);
    }
    return o;
  }
  Aws::S3::Outcome<Aws::S3::Model::CompleteMultipartUploadResult> CompleteMultipartUpload(const Aws::S3::Model::CompleteMultipartUploadRequest& r) const override {
    s->completed = s->completed + 1;
    if (!named(r) || r.id != "upload") s->fits = false;
    for (int i = 0; i < r.upload.parts.size(); i++) {
      s->listed.push_back(r.upload.parts[i].part);
      s->tags.push_back(r.upload.parts[i].tag);
    }
    Aws::S3::Outcome<Aws::S3::Model::CompleteMultipartUploadResult> o;
    o.good = s->ends;
    return o;
  }
  Aws::S3::Outcome<Aws::S3::Model::AbortMultipartUploadResult> AbortMultipartUpload(const Aws::S3::Model::AbortMultipartUploadRequest& r) const override {
    s->aborted = s->aborted + 1;
    if (!named(r) || r.id != "upload") s->fits = false;
    Aws::S3::Outcome<Aws::S3::Model::AbortMultipartUploadResult> o;
    o.good = true;
    return o;
  }
};
// stands in for the parsing of names
inline fbpcf::aws::S3ObjectReference reference(std::string) {
  fbpcf::aws::S3ObjectReference r;
  r.bucket = "bucket";
  r.key = "some/key";
  return r;
}
inline fbpcf::gcp::GCSObjectReference place(std::string) {
  fbpcf::gcp::GCSObjectReference r;
  r.bucket = "bucket";
  r.key = "some/key";
  return r;
}
// a stored file
struct Stored : IFileReader {
  std::vector<char> data;
  int* asked;
  bool* fits;
  Stored(int n, int* a, bool* f) : data(n), asked(a), fits(f) {
    for (int i = 0; i < n; i++) data[i] = char('a' + i);
  }
  std::string readBytes(const std::string& path, size_t start, size_t end) override {
    *asked = *asked + 1;
    if (path != "some name" || start >= data.size()) *fits = false;
    size_t stop = end < data.size() ? end : data.size();
    std::vector<char> v;
    for (size_t i = start; i < stop; i++) v.push_back(data[i]);
    return std::string(v.begin(), v.end());
  }
  size_t getFileContentLength(const std::string& path) override {
    if (path != "some name") *fits = false;
    return data.size();
  }
};
} // namespace detail
namespace lemma {
// parts are numbered from one in the order written, and exactly those the service took are
// listed at the end; a part that cannot be stored gives up the whole upload
template <int REFUSES, bool ENDS> bool uploads(const Src&) {
  detail::Service sv;
  sv.refuses = REFUSES;
  sv.ends = ENDS;
  S3FileUploader u(std::make_shared<detail::Client>(&sv), "some name");
  if (sv.begun != 1) return false;
  std::vector<std::string> stored;
  int at = 0;
  bool ok = true;
  for (int k = 0; k < 3; k++) {
    std::vector<char> b(k + 1);
    for (int i = 0; i <= k; i++) b[i] = char('a' + 4 * k + i);
    std::string t(b.begin(), b.end());
    // refused four times in a row at most
    int tries = 0;
    while (tries < 4 && (REFUSES >> (at + tries) & 1)) tries++;
    int n = u.upload(b);
    if (tries == 4) return ok && sv.fits && n == 0 && sv.aborted == 1 && sv.asked == at + 4 && sv.completed == 0;
    at = at + tries + 1;
    stored.push_back(t);
    ok = ok && n == k + 1 && sv.asked == at && sv.aborted == 0;
  }
  int r = u.complete();
  ok = ok && sv.fits && sv.completed == 1 && (ENDS ? r == 0 && sv.aborted == 0 : r != 0 && sv.aborted == 1);
  if (sv.part.size() != 3 || sv.listed.size() != 3) return false;
  for (int k = 0; k < 3; k++) ok = ok && sv.part[k] == k + 1 && sv.listed[k] == k + 1 && sv.text[k] == stored[k] && sv.tags[k] == detail::tag(k);
  return ok;
}
template bool uploads<0, true>(const Src&);
template bool uploads<0, false>(const Src&);
template bool uploads<1, true>(const Src&);
template bool uploads<2, true>(const Src&);
template bool uploads<7, true>(const Src&);
template bool uploads<11, false>(const Src&);
template bool uploads<15, true>(const Src&);
template bool uploads<30, true>(const Src&);
template bool uploads<54, true>(const Src&);
template bool uploads<60, true>(const Src&);
template <int REFUSED, bool ENDS> bool streams(const Src&) {
  google::cloud::storage::Board b;
  b.refuses = REFUSED < 0 ? 0 : 1 << REFUSED;
  b.ends = ENDS;
  GCSFileUploader u(std::make_shared<google::cloud::storage::Client>(&b), "some name");
  if (b.begun != 1) return false;
  for (int k = 0; k < 3; k++) {
    std::vector<char> v(k + 1);
    for (int i = 0; i <= k; i++) v[i] = char('a' + 4 * k + i);
    std::string t(v.begin(), v.end());
    int n = u.upload(v);
    if (b.text.size() != k + 1 || b.text[k] != t) return false;
    if (k == REFUSED) return n == 0 && b.aborted == 1 && b.closed == 0 && b.named;
    if (n != k + 1 || b.aborted != 0) return false;
  }
  int r = u.complete();
  return b.named && b.closed == 1 && b.begun == 1 && (ENDS ? r == 0 && b.aborted == 0 : r != 0 && b.aborted == 1);
}
template bool streams<-1, true>(const Src&);
template bool streams<-1, false>(const Src&);
template bool streams<0, true>(const Src&);
template bool streams<1, true>(const Src&);
template bool streams<2, true>(const Src&);
// a stored file is read from its start to its end, whatever the sizes asked for
template <int LEN, int A, int B> bool reads(const Src&) {
  int asked = 0;
  bool fits = true;
  fbpcf::io::CloudFileReader r("some name", std::make_shared<detail::Stored>(LEN, &asked, &fits));
  int at = 0;
  bool ok = true;
  for (int k = 0; k < 4; k++) {
    int want = k % 2 == 0 ? A : B;
    bool end = at >= LEN;
    ok = ok && r.eof() == end;
    std::vector<char> b(want);
    size_t n = r.read(b);
    if (end) {
      ok = ok && n == size_t(-1) && asked <= k;
    } else {
      int got = want < LEN - at ? want : LEN - at;
      ok = ok && n == got && b.size() == got;
      for (int i = 0; i < got; i++) ok = ok && b[i] == char('a' + at + i);
      at += got;
    }
  }
  return ok && fits && r.close() == 0 && r.close() == 0;
}
template bool reads<0, 1, 1>(const Src&);
template bool reads<1, 1, 1>(const Src&);
template bool reads<3, 2, 2>(const Src&);
template bool reads<7, 2, 3>(const Src&);
template bool reads<8, 5, 1>(const Src&);
template bool reads<12, 3, 3>(const Src&);
template bool reads<13, 3, 3>(const Src&);
inline bool refusesNoReader(const Src&) {
  std::shared_ptr<IFileReader> none;
  fbpcf::io::CloudFileReader r("some name", none);
  return false;
}
inline bool refusesStart(const Src&) {
  detail::Service sv;
  sv.opens = false;
  S3FileUploader u(std::make_shared<detail::Client>(&sv), "some name");
  return false;
}
} // namespace lemma
} // namespace spec
