#pragma once
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <iostream>
namespace Aws {
using String = std::string;
// a stream is the text it holds
struct IOStream { String text; IOStream() {} explicit IOStream(const String& t) : text(t) {} std::streambuf* rdbuf() const; operator std::istream&(); };
using StringStream = IOStream;
template <class T> using Vector = std::vector<T>;
template <class K, class V> using Map = std::map<K, V>;
struct SDKOptions {};
void InitAPI(const SDKOptions&); void ShutdownAPI(const SDKOptions&);
template <class T, class... A> std::shared_ptr<T> MakeShared(const char*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
namespace Http { enum class Scheme { HTTP, HTTPS }; }
namespace Client { struct ClientConfiguration { String region, proxyHost, proxySSLCertPath; unsigned proxyPort; Http::Scheme proxyScheme; }; }
namespace Auth { struct AWSCredentials { AWSCredentials(const String&, const String&); }; }
namespace S3 {
struct S3Error { String message; const String& GetMessage() const { return message; } };
std::ostream& operator<<(std::ostream&, const S3Error&);
template <class R> struct Outcome {
  bool good = false;
  R result;
  S3Error error;
  bool IsSuccess() const { return good; } const R& GetResult() const { return result; } R& GetResult() { return result; } R&& GetResultWithOwnership(); const S3Error& GetError() const { return error; } };
namespace Model {
struct ReqBase {
  String bucket, key, id, type;
  std::shared_ptr<IOStream> body;
  long long length = 0;
  void SetBucket(const String& v) { bucket = v; } void SetKey(const String& v) { key = v; } void SetUploadId(const String& v) { id = v; }
  void SetContentType(const String& v) { type = v; } void SetBody(const std::shared_ptr<IOStream>& v) { body = v; } void SetBody(const std::shared_ptr<std::iostream>&); void SetContentLength(long long v) { length = v; }
};
struct GetObjectRequest : ReqBase { String range; void SetRange(const String& v) { range = v; } };
struct HeadObjectRequest : ReqBase {};
struct PutObjectRequest : ReqBase {};
struct CreateMultipartUploadRequest : ReqBase {};
struct UploadPartRequest : ReqBase { int part = 0; void SetPartNumber(int v) { part = v; } int GetPartNumber() const { return part; } };
struct AbortMultipartUploadRequest : ReqBase {};
struct CompletedPart {
  int part = 0;
  String tag;
  void SetPartNumber(int v) { part = v; } void SetETag(const String& v) { tag = v; }
  CompletedPart& WithPartNumber(int v) { part = v; return *this; } CompletedPart& WithETag(const String& v) { tag = v; return *this; }
};
struct CompletedMultipartUpload {
  Vector<CompletedPart> parts;
  CompletedMultipartUpload& WithParts(const Vector<CompletedPart>& v) { parts = v; return *this; } void SetParts(const Vector<CompletedPart>& v) { parts = v; }
  CompletedMultipartUpload& AddParts(const CompletedPart& v) { parts.push_back(v); return *this; }
};
struct CompleteMultipartUploadRequest : ReqBase { CompletedMultipartUpload upload; void SetMultipartUpload(const CompletedMultipartUpload& v) { upload = v; } };
struct GetObjectResult { GetObjectResult(); GetObjectResult(GetObjectResult&&); GetObjectResult& operator=(GetObjectResult&&); IOStream& GetBody() const; long long GetContentLength() const; };
struct HeadObjectResult { long long length = 0; long long GetContentLength() const { return length; } };
struct PutObjectResult {};
struct CreateMultipartUploadResult { String id; const String& GetUploadId() const { return id; } };
struct UploadPartResult { String tag; const String& GetETag() const { return tag; } };
struct CompleteMultipartUploadResult {};
struct AbortMultipartUploadResult {};
using GetObjectOutcome = Outcome<GetObjectResult>;
}
class S3Client {
 public:
  S3Client(); explicit S3Client(const Client::ClientConfiguration&); S3Client(const Auth::AWSCredentials&, const Client::ClientConfiguration&);
  virtual ~S3Client() {}
  virtual Outcome<Model::GetObjectResult> GetObject(const Model::GetObjectRequest&) const;
  virtual Outcome<Model::HeadObjectResult> HeadObject(const Model::HeadObjectRequest&) const;
  virtual Outcome<Model::PutObjectResult> PutObject(const Model::PutObjectRequest&) const;
  virtual Outcome<Model::CreateMultipartUploadResult> CreateMultipartUpload(const Model::CreateMultipartUploadRequest&) const;
  virtual Outcome<Model::UploadPartResult> UploadPart(const Model::UploadPartRequest&) const;
  virtual Outcome<Model::CompleteMultipartUploadResult> CompleteMultipartUpload(const Model::CompleteMultipartUploadRequest&) const;
  virtual Outcome<Model::AbortMultipartUploadResult> AbortMultipartUpload(const Model::AbortMultipartUploadRequest&) const;
};
}
}
